/* C12: CPU feature detection against every virtual processor. cpuid / xgetbv are replaced by faulting instructions and emulated.
   detect --traps FILE [--depth N] [--out DIR] [--stats FILE] */
#include "par.h"
#include "state.h"
#include "rle.h"
#include "simd_platform.h"
#include <ucontext.h>
#undef IN
#undef OUT
typedef struct { uint32_t maxLeaf; uint32_t l1c, l1d, l7b, l7c, l7d; uint64_t xcr0; int beyond; /* leaves above the maximum: 0 zeros, 1 last leaf's data, 2 all ones */ } vcpu;
static vcpu V; static struct { uintptr_t a; int x, len; } sites[256]; static int nsites;
static volatile int nCpuid, nXgetbv, badXgetbv, other;
static void cpuid_emul(greg_t *g)
{
  uint32_t leaf = (uint32_t)g[REG_RAX], sub = (uint32_t)g[REG_RCX], a = 0, b = 0, c = 0, d = 0; nCpuid++;
  if (leaf > V.maxLeaf && leaf < 0x80000000u) { if (V.beyond == 2) a = b = c = d = 0xFFFFFFFFu; else if (V.beyond == 1) leaf = V.maxLeaf; else leaf = 0xFFFF; }
  if (leaf == 0) { a = V.maxLeaf; b = 0x756e6547; d = 0x49656e69; c = 0x6c65746e; }
  else if (leaf == 1) { a = 0x306C3; b = 0x00100800; c = V.l1c; d = V.l1d; }
  else if (leaf == 7) { if (sub == 0) { a = 0; b = V.l7b; c = V.l7c; d = V.l7d; } }
  else if (leaf == 0x80000000u) a = 0x80000008u;
  g[REG_RAX] = a; g[REG_RBX] = b; g[REG_RCX] = c; g[REG_RDX] = d;
}
static void on_ill(int s, siginfo_t *si, void *u)
{
  (void)s; (void)si; greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs; uintptr_t pc = (uintptr_t)g[REG_RIP];
  for (int i = 0; i < nsites; i++) if (sites[i].a == pc) {
    if (sites[i].x) { nXgetbv++; if (!(V.l1c >> 27 & 1)) badXgetbv++; g[REG_RAX] = (uint32_t)g[REG_RCX] ? 0 : (uint32_t)V.xcr0; g[REG_RDX] = (uint32_t)g[REG_RCX] ? 0 : (greg_t)(V.xcr0 >> 32); } else cpuid_emul(g);
    g[REG_RIP] += sites[i].len; return; }
  other = 1; signal(SIGILL, SIG_DFL);
}
static uint8_t *img0, *img1;
static void snapshot(void) { const size_t a = (size_t)(hx_data_last - hx_data_first), b = (size_t)(hx_bss_last - hx_bss_first); img0 = malloc(a); img1 = malloc(b); memcpy(img0, hx_data_first, a); memcpy(img1, hx_bss_first, b); }
static void reset(void) { memcpy(hx_data_first, img0, (size_t)(hx_data_last - hx_data_first)); memcpy(hx_bss_first, img1, (size_t)(hx_bss_last - hx_bss_first)); }

enum { B_L1C, B_L1D, B_L7B, B_L7C, B_L7D };
/* kind 0: no OS support needed, 1: AVX state, 2: AVX-512 state */
static const struct { const char *name; bool *flag; int reg, bit, kind; } F[] = {
  { "sse", &sseSupported, B_L1D, 25, 0 }, { "sse2", &sse2Supported, B_L1D, 26, 0 }, { "sse3", &sse3Supported, B_L1C, 0, 0 }, { "ssse3", &ssse3Supported, B_L1C, 9, 0 }, { "sse4.1", &sse41Supported, B_L1C, 19, 0 }, { "sse4.2", &sse42Supported, B_L1C, 20, 0 },
  { "aes-ni", &aesNiSupported, B_L1C, 25, 0 }, { "avx", &avxSupported, B_L1C, 28, 1 }, { "fma3", &fma3Supported, B_L1C, 12, 1 }, { "avx2", &avx2Supported, B_L7B, 5, 1 }, { "avx512f", &avx512FSupported, B_L7B, 16, 2 },
  { "avx512pf", &avx512PFSupported, B_L7B, 26, 2 }, { "avx512er", &avx512ERSupported, B_L7B, 27, 2 }, { "avx512cd", &avx512CDSupported, B_L7B, 28, 2 }, { "avx512bw", &avx512BWSupported, B_L7B, 30, 2 }, { "avx512dq", &avx512DQSupported, B_L7B, 17, 2 }, { "avx512vl", &avx512VLSupported, B_L7B, 31, 2 }, { "avx512ifma", &avx512IFMASupported, B_L7B, 21, 2 },
  { "avx512vbmi", &avx512VBMISupported, B_L7C, 1, 2 }, { "avx512vnni", &avx512VNNISupported, B_L7C, 11, 2 }, { "avx512vbmi2", &avx512VBMI2Supported, B_L7C, 6, 2 }, { "avx512popcntdq", &avx512POPCNTDQSupported, B_L7C, 14, 2 }, { "avx512bitalg", &avx512BITALGSupported, B_L7C, 12, 2 }, { "avx5124vnniw", &avx5124VNNIWSupported, B_L7D, 2, 2 }, { "avx5124fmaps", &avx5124FMAPSSupported, B_L7D, 3, 2 } };
#define NF (int)(sizeof F / sizeof F[0])
static uint32_t *regp(int r) { return r == B_L1C ? &V.l1c : r == B_L1D ? &V.l1d : r == B_L7B ? &V.l7b : r == B_L7C ? &V.l7c : &V.l7d; }
static void setbit(int f, int on) { uint32_t *p = regp(F[f].reg); if (on) *p |= 1u << F[f].bit; else *p &= ~(1u << F[f].bit); }
static int announced(int f) { const int leaf = F[f].reg <= B_L1D ? 1 : 7; return V.maxLeaf >= (uint32_t)leaf && (*regp(F[f].reg) >> F[f].bit & 1); }
static int os_ok(int kind)
{
  if (kind == 0) return 1;
  if (V.maxLeaf < 1 || !(V.l1c >> 27 & 1)) return 0;
  return kind == 1 ? (V.xcr0 & 6) == 6 : (V.xcr0 & 0xE6) == 0xE6;
}
static int check_one(void)
{
  reset(); nCpuid = nXgetbv = badXgetbv = 0; p_cases++; p_evals++; par->serial[par_wid]++;
  PAR_WHAT("maxLeaf=%u leaf1.ecx=%08x leaf1.edx=%08x leaf7.ebx=%08x leaf7.ecx=%08x leaf7.edx=%08x xcr0=%llx beyond=%d", V.maxLeaf, V.l1c, V.l1d, V.l7b, V.l7c, V.l7d, (unsigned long long)V.xcr0, V.beyond);
  p_trans++; _DetectCPUFeatures();
  if (badXgetbv) { par_viol("xgetbv executed although the operating system has not enabled it"); return 0; }
  if (!_CpuFeaturesDetected) { par_viol("detection did not complete"); return 0; }
  const int avx = V.maxLeaf >= 1 && (V.l1c >> 28 & 1);
  for (int i = 0; i < NF; i++) {
    const int want = announced(i) && os_ok(F[i].kind), got = *F[i].flag;
    if (got && !want) { par_viol("%s reported as supported (announced %d, state enabled %d)", F[i].name, announced(i), os_ok(F[i].kind)); return 0; }
    if (!got && want && (F[i].kind == 0 || avx) && (i <= 9 || i == 10 || announced(10))) { par_viol("%s not reported although announced and enabled", F[i].name); return 0; }
    if (want) p_nontriv++;
  }
  /* later calls neither detect again nor change a restricted set */
  const int n0 = nCpuid + nXgetbv; bool keep[32]; uint8_t b[64] = { 1, 1, 1, 1, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3 }, o[512];
  for (int mode = 0; mode < 3; mode++) {
    for (int i = 0; i < NF; i++) keep[i] = *F[i].flag = mode == 0 ? *F[i].flag : mode == 1 ? false : *F[i].flag && i < 5;
    p_trans += 2; _DetectCPUFeatures(); bitmmtf8_encode(b, 64, o, 64); mmtf128_encode(b, 3, o, 512); rle8_single_compress(b, 12, o, rle_compress_bounds(12) < 512 ? rle_compress_bounds(12) : 0);
    for (int i = 0; i < NF; i++) if (*F[i].flag != keep[i]) { par_viol("a later call changed %s from %d to %d", F[i].name, keep[i], !keep[i]); return 0; }
    if (nCpuid + nXgetbv != n0) { par_viol("a later call performed the detection again"); return 0; }
  }
  return 1;
}
static void t_c12(unsigned t)
{
  struct sigaction sa = { 0 }; sa.sa_sigaction = on_ill; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction(SIGILL, &sa, NULL); hx_armed = 0;
  static const uint32_t leaves[] = { 7, 1, 6, 0xD, 0x16, 0x20, 0 };
  /* part A: full product of the levels the codecs use: sse2 ssse3 sse4.1 osxsave avx fma avx2 avx512f x xcr0 bits 1 2 5 6 7 x maximum leaf */
  for (uint32_t v = t; v < 1u << 13; v += 64) for (int l = 0; l < (par_depth >= 2 ? 7 : 4); l++) for (int bl = 0; bl < 3; bl++) for (int rest = 0; rest < 2; rest++) {
    if (bl && leaves[l] >= 7) continue; if (PAR_STOP()) return;
    memset(&V, 0, sizeof V); V.maxLeaf = leaves[l]; V.beyond = bl;
    if (rest) { V.l1c = V.l1d = V.l7b = V.l7c = V.l7d = 0xFFFFFFFFu; V.xcr0 = 0xFFFFFFFFFFFFFF19ull; } else V.xcr0 = 1;
    static const int fi[] = { 1, 3, 4, 7, 8, 9, 10 }; for (int i = 0; i < 7; i++) setbit(fi[i], v >> i & 1);
    if (v >> 7 & 1) V.l1c |= 1u << 27; else V.l1c &= ~(1u << 27);
    static const int xb[] = { 1, 2, 5, 6, 7 }; for (int i = 0; i < 5; i++) if (v >> (8 + i) & 1) V.xcr0 |= 1ull << xb[i]; else V.xcr0 &= ~(1ull << xb[i]);
    if (!check_one()) return;
  }
  /* part B: every single feature bit, present alone / missing alone, for every xcr0 subset */
  for (int f = 0; f < NF; f++) for (int others = 0; others < 2; others++) for (int on = 0; on < 2; on++) for (unsigned x = 0; x < 256; x++) for (int os = 0; os < 2; os++) for (int l = 0; l < 7; l++) {
    if ((x + (unsigned)f * 7) % 64 != t) continue; if (PAR_STOP()) return;
    memset(&V, 0, sizeof V); V.maxLeaf = leaves[l]; V.beyond = (int)(x % 3); if (others) V.l1c = V.l1d = V.l7b = V.l7c = V.l7d = 0xFFFFFFFFu;
    setbit(f, on); if (os) V.l1c |= 1u << 27; else V.l1c &= ~(1u << 27); V.xcr0 = x; if (F[f].kind && f != 7 && !others) { setbit(7, 1); if (F[f].kind == 2 && f != 10) setbit(10, 1); }
    if (!check_one()) return;
  }
  /* part C: every single bit of the four registers that is not a feature bit must not matter (all clear / all set background) */
  for (int r = 0; r < 5; r++) for (int bit = 0; bit < 32; bit++) for (int others = 0; others < 2; others++) for (unsigned x = 0; x < 256; x += (par_depth >= 2 ? 1 : 7)) {
    if ((unsigned)(r * 32 + bit) % 64 != t) continue; if (PAR_STOP()) return;
    memset(&V, 0, sizeof V); V.maxLeaf = 0x16; if (others) V.l1c = V.l1d = V.l7b = V.l7c = V.l7d = 0xFFFFFFFFu; else { V.l1c = 1u << 27 | 1u << 28; }
    *regp(r) ^= 1u << bit; V.xcr0 = x; if (!check_one()) return;
  }
}
int main(int argc, char **argv)
{
  const char *tf = NULL; int n = 1; for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--traps")) tf = argv[i + 1]; else { argv[n++] = argv[i]; argv[n++] = argv[i + 1]; }
  par_args(n, argv); FILE *f = tf ? fopen(tf, "r") : NULL; if (!f) { fprintf(stderr, "--traps FILE needed\n"); return 2; }
  unsigned long a; char k; char raw[64]; snapshot();
  while (fscanf(f, "%lx %c %63s", &a, &k, raw) == 3 && nsites < 256) {
    const int len = (int)strlen(raw) / 2; sites[nsites].a = a; sites[nsites].x = k == 'x'; sites[nsites].len = len; nsites++;
    if (mprotect((void *)(a & ~4095ul), 8192, PROT_READ | PROT_WRITE | PROT_EXEC)) { perror("mprotect"); return 2; }
    ((volatile uint8_t *)a)[0] = 0x0F; ((volatile uint8_t *)a)[1] = 0x0B;
  }
  fclose(f); return par_run(64, t_c12);
}
