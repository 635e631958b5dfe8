/* codec table of the reference build; every other global symbol of it is renamed by the Makefile */
#include "hx.h"
#include "rle.h"
#include "simd_platform.h"
const hx_codec hx_ref_codecs[] = {
#include "codecs.inc"
};
const int hx_ref_ncodecs = (int)(sizeof(hx_ref_codecs) / sizeof(hx_ref_codecs[0]));
static bool first = true, n512;
void hx_ref_set_level(int lv)
{
  if (first) { first = false; _DetectCPUFeatures(); n512 = avx512FSupported; }
  _CpuFeaturesDetected = true;
  sseSupported = true; sse2Supported = lv >= LV_SSE2; sse3Supported = ssse3Supported = lv >= LV_SSSE3; sse41Supported = lv >= LV_SSE41; sse42Supported = avxSupported = lv >= LV_AVX; avx2Supported = fma3Supported = lv >= LV_AVX2; avx512FSupported = n512 && lv >= LV_AVX512;
}
