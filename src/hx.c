#include "hx.h"
#include "rle.h"
#include "simd_platform.h"
#include <sys/mman.h>
#include <unistd.h>
#include <ucontext.h>

const hx_codec hx_codecs[] = {
#include "codecs.inc"
};
const int hx_ncodecs = (int)(sizeof(hx_codecs) / sizeof(hx_codecs[0]));

int hx_codec_by_name(const char *n) { for (int i = 0; i < hx_ncodecs; i++) if (!strcmp(hx_codecs[i].name, n)) return i; return -1; }
int hx_needs_sse2(const hx_codec *c) { return c->fam == FAM_MMTF || c->fam == FAM_RLEMMTF; }

const char *hx_level_names[LV_COUNT] = { "none", "sse2", "ssse3", "sse4.1", "avx", "avx2", "avx512f" };
int hx_levels_available;

static bool *const feat[] = { &sse2Supported, &sse3Supported, &ssse3Supported, &sse41Supported, &sse42Supported, &avxSupported, &avx2Supported, &fma3Supported,
  &avx512FSupported, &avx512PFSupported, &avx512ERSupported, &avx512CDSupported, &avx512BWSupported, &avx512DQSupported, &avx512VLSupported, &avx512IFMASupported,
  &avx512VBMISupported, &avx512VNNISupported, &avx512VBMI2Supported, &avx512POPCNTDQSupported, &avx512BITALGSupported, &avx5124VNNIWSupported, &avx5124FMAPSSupported };
static const int featLv[] = { LV_SSE2, LV_SSSE3, LV_SSSE3, LV_SSE41, LV_AVX, LV_AVX, LV_AVX2, LV_AVX2,
  LV_AVX512, LV_AVX512, LV_AVX512, LV_AVX512, LV_AVX512, LV_AVX512, LV_AVX512, LV_AVX512, LV_AVX512, LV_AVX512, LV_AVX512, LV_AVX512, LV_AVX512, LV_AVX512, LV_AVX512 };
static bool native[sizeof(feat) / sizeof(feat[0])];

static void detect(void)
{
  static bool done;
  if (done) return;
  done = true;
  _DetectCPUFeatures();
  for (size_t i = 0; i < sizeof(feat) / sizeof(feat[0]); i++) native[i] = *feat[i];
  __builtin_cpu_init();
  hx_levels_available = LV_NONE + 1;
  if (__builtin_cpu_supports("sse2")) hx_levels_available = LV_SSE2 + 1;
  if (__builtin_cpu_supports("ssse3")) hx_levels_available = LV_SSSE3 + 1;
  if (__builtin_cpu_supports("sse4.1")) hx_levels_available = LV_SSE41 + 1;
  if (__builtin_cpu_supports("avx")) hx_levels_available = LV_AVX + 1;
  if (__builtin_cpu_supports("avx2")) hx_levels_available = LV_AVX2 + 1;
  if (__builtin_cpu_supports("avx512f")) hx_levels_available = LV_AVX512 + 1;
}

void hx_set_level(int lv)
{
  detect();
  _CpuFeaturesDetected = true;
  for (size_t i = 0; i < sizeof(feat) / sizeof(feat[0]); i++) {
    bool on = featLv[i] <= lv;
    if (featLv[i] == LV_AVX512) on = on && native[i];
    *feat[i] = on;
  }
  sseSupported = true;
}

void hx_only_avx512f(void) { for (size_t i = 0; i < sizeof(feat) / sizeof(feat[0]); i++) if (featLv[i] == LV_AVX512 && feat[i] != &avx512FSupported) *feat[i] = false; }

void hx_arena_init(hx_arena *a, const char *name, size_t cap)
{
  const size_t pg = 4096;
  cap = (cap + pg - 1) & ~(pg - 1);
  uint8_t *p = mmap(NULL, cap + 2 * 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  if (mprotect(p + 65536, cap, PROT_READ | PROT_WRITE)) { perror("mprotect"); exit(3); }
  a->base = p + 65536; a->cap = cap; a->end = a->base + cap; a->name = name;
}

sigjmp_buf hx_jmp; volatile sig_atomic_t hx_armed; void *volatile hx_fault_addr; volatile int hx_fault_sig;

static void handler(int sig, siginfo_t *si, void *uc)
{
  if (!hx_armed) { signal(sig, SIG_DFL); raise(sig); _exit(99); }
  hx_armed = 0; hx_fault_addr = sig == SIGTRAP ? (void *)(((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP] - 1) : si->si_addr; hx_fault_sig = sig;
  siglongjmp(hx_jmp, sig);
}

void hx_install_handlers(void)
{
  static uint8_t alt[65536];
  stack_t ss = { .ss_sp = alt, .ss_size = sizeof(alt) };
  sigaltstack(&ss, NULL);
  struct sigaction sa = { 0 };
  sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int s[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGABRT, SIGALRM };
  for (size_t i = 0; i < sizeof(s) / sizeof(s[0]); i++) sigaction(s[i], &sa, NULL);
}

const char *hx_fault_where(char *buf, size_t n, const hx_arena **as, int na)
{
  uint8_t *p = (uint8_t *)hx_fault_addr;
  for (int i = 0; i < na; i++) {
    if (p >= as[i]->end && p < as[i]->end + 65536) { snprintf(buf, n, "%s+end+%ld", as[i]->name, (long)(p - as[i]->end)); return buf; }
    if (p < as[i]->base && p >= as[i]->base - 65536) { snprintf(buf, n, "%s-start%ld", as[i]->name, (long)(p - as[i]->base)); return buf; }
  }
  snprintf(buf, n, "addr=%p", (void *)p); return buf;
}

static const uint8_t uni[7] = { 0x00, 0x7F, 0xFF, 0x01, 0x7E, 0x80, 0xFE };

/* symbols: 0..6 the initial table entries; 7, 8, 11, 12, 14, 15 mixed bytes; 9 / 10 differ from 8 in the last / first byte only; 13 has half the period */
size_t hx_put_run(uint8_t *p, int sym, int width, size_t bytes)
{
  if (sym < 7) { memset(p, uni[sym], bytes); return bytes; }
  uint8_t pat[16];
  const int base = (sym == 9 || sym == 10 || sym == 13) ? 8 : sym;
  for (int i = 0; i < width; i++) pat[i] = (uint8_t)(0xA0 + 0x11 * (base - 7) + 7 * i);
  if (sym == 9) pat[width - 1] ^= width == 1 ? 0x01 : 0x80;
  if (sym == 10) pat[0] ^= width == 1 ? 0x80 : 0x01;
  if (sym == 13) { if (width == 1) pat[0] ^= 0x10; for (int i = width / 2; i < width && width > 1 && width % 2 == 0; i++) pat[i] = pat[i - width / 2]; }
  size_t n = bytes < (size_t)width ? bytes : (size_t)width;
  memcpy(p, pat, n);
  while (n < bytes) { size_t k = n < bytes - n ? n - n % (size_t)width : bytes - n; if (k > n) k = n; memcpy(p + n, p, k); n += k; }
  return bytes;
}

size_t hx_put_lit(uint8_t *p, size_t bytes, unsigned salt)
{
  uint8_t v = (uint8_t)(salt * 29 + 0x35);
  for (size_t i = 0; i < bytes; i++) { p[i] = v; v = (uint8_t)(v + 97); }
  return bytes;
}
