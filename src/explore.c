/* Bounded exhaustive exploration of the real codecs: explore --prop C01 --depth 2 [--jobs 8] [--out DIR] [--stats FILE] [--deadline S] [--codec SUBSTR]
   or: explore --replay FILE */
#include "fam.h"
#include "rle.h"
#include "simd_platform.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>

typedef struct { int family; uint64_t idx; int codec; uint64_t ticks; size_t n; uint64_t serial; char what[96]; } curcase;
typedef struct {
  volatile unsigned next; volatile unsigned nviol; volatile int stop;
  volatile uint64_t evals, cases, transitions, nontrivial, distinct;
  volatile uint64_t famcases[G_COUNT];
  volatile int codecBad[256];
  curcase cur[64];
  volatile int workerTask[64];
} shared;
static shared *sh;
static const char *prop = "C01", *outdir = ".", *codecFilter = ""; static int depth = 1, jobs = 8, wid = -1, deadline = 0; static double t0;
static unsigned famMask = ~0u;
static hx_arena A_in, A_c, A_out, A_x;
static size_t maxN = 1 << 19;
static uint8_t *compl_; /* complement of the current input */
static uint64_t l_evals, l_cases, l_trans, l_nontriv, l_fam[G_COUNT];
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

/* ---------------------------------------------------------------- violations */
static char v_detail[512]; static int v_hit;
static void viol(const char *fmt, ...) { if (v_hit) return; v_hit = 1; va_list ap; va_start(ap, fmt); vsnprintf(v_detail, sizeof v_detail, fmt, ap); va_end(ap); }
static void write_replay(const char *what, const hx_codec *c, const uint8_t *in, size_t n, const char *fam, uint64_t idx)
{
  unsigned k = __sync_fetch_and_add(&sh->nviol, 1);
  if (k >= 6) return;
  char path[512]; snprintf(path, sizeof path, "%s/%s-%u-%d.replay", outdir, prop, k, (int)getpid());
  FILE *f = fopen(path, "wb");
  if (f) { fprintf(f, "property=%s\ncodec=%s\nfamily=%s\nindex=%llu\nn=%zu\ndetail=%s\nDATA\n", prop, c ? c->name : "-", fam, (unsigned long long)idx, n, what); fwrite(in, 1, n, f); fclose(f); }
  printf("VIOLATION property=%s replay=%s codec=%s n=%zu %s\n", prop, path, c ? c->name : "-", n, what); fflush(stdout);
}

/* ---------------------------------------------------------------- guarded calls */
static const hx_arena *const arenas[] = { &A_in, &A_c, &A_out, &A_x };
static char wbuf[96];
static const char *where(void) { return hx_fault_where(wbuf, sizeof wbuf, (const hx_arena **)arenas, 4); }
static const char *signame(int s) { return s == SIGALRM ? "does not terminate" : s == SIGSEGV || s == SIGBUS ? "memory fault" : s == SIGILL ? "illegal instruction" : "signal"; }
#define WHAT(...) snprintf(sh->cur[wid].what, sizeof sh->cur[wid].what, __VA_ARGS__)

static inline uint32_t call(codec_fn fn, const uint8_t *in, uint32_t n, uint8_t *out, uint32_t m, int *sig)
{ uint32_t r = 0; int s; l_trans++; sh->cur[wid].serial++; HX_TRY(r = fn(in, n, out, m), s); *sig = s; return r; }

__attribute__((noinline)) static void scrub_stack(uint8_t v) { volatile uint8_t a[24576]; memset((void *)a, v, sizeof a); __asm__ volatile("" ::"r"(a) : "memory"); }

static int skip_level(const hx_codec *c, int lv, uint32_t r) { return r == 0 && lv == LV_NONE && hx_needs_sse2(c); }
#define LV(l) hx_level_names[l]
static const hx_codec *C; static int CI; static const uint8_t *SRC; static uint32_t N, B; static uint64_t CASEIDX;
static uint32_t encR(int lv, uint8_t **ppc) /* right-flush encode; returns size or 0 with violation/skip */
{
  int sig; uint8_t *pin = A_in.end - N, *pc = A_c.end - B; hx_set_level(lv);
  uint32_t r = call(C->enc, pin, N, pc, B, &sig);
  if (sig) { viol("compress at level %s: %s at %s", LV(lv), signame(sig), where()); return 0; }
  if (r == 0) { if (!skip_level(C, lv, r)) viol("compress at level %s returned 0", LV(lv)); return 0; }
  if (r > B) { viol("compress at level %s returned %u > bound %u", LV(lv), r, B); return 0; }
  *ppc = pc; return r;
}

/* C01: round trip, same level */
static void k_c01(void)
{
  memcpy(A_in.end - N, SRC, N);
  for (int lv = 0; lv < hx_levels_available && !v_hit; lv++) {
    uint8_t *pc; uint32_t r = encR(lv, &pc); int sig;
    if (!r) { if (v_hit) return; continue; }
    if (r < N) l_nontriv++;
    memset(pc + r, 0x5A, B - r < 96 ? B - r : 96);
    uint8_t *po = A_out.end - 128 - N; memcpy(po, compl_, N);
    uint32_t d = call(C->dec, pc, r, po, N, &sig); l_evals++;
    if (sig) { viol("decompress at level %s: %s at %s", LV(lv), signame(sig), where()); return; }
    if (d != N) { viol("level %s: decompress returned %u, expected %u", LV(lv), d, N); return; }
    if (memcmp(po, SRC, N)) { uint32_t i = 0; while (po[i] == SRC[i]) i++; viol("level %s: output differs at offset %u (0x%02x, expected 0x%02x)", LV(lv), i, po[i], SRC[i]); return; }
  }
}

/* C02: every distinct stream at every level */
static void k_c02(void)
{
  static uint8_t *st[LV_COUNT]; static uint32_t sn[LV_COUNT]; static int slv[LV_COUNT]; int ns = 0;
  if (!st[0]) for (int i = 0; i < LV_COUNT; i++) st[i] = malloc(maxN + maxN / 8 + 8192);
  memcpy(A_in.end - N, SRC, N);
  for (int lv = 0; lv < hx_levels_available; lv++) {
    uint8_t *pc; uint32_t r = encR(lv, &pc);
    if (!r) { if (v_hit) return; continue; }
    int dup = 0; for (int i = 0; i < ns && !dup; i++) dup = sn[i] == r && !memcmp(st[i], pc, r);
    if (!dup) { memcpy(st[ns], pc, r); sn[ns] = r; slv[ns++] = lv; }
  }
  if (ns > 1 || (ns && sn[0] < N)) l_nontriv++;
  for (int i = 0; i < ns; i++) {
    uint8_t *pc = A_c.end - B; memcpy(pc, st[i], sn[i]); memset(pc + sn[i], 0xA7, B - sn[i] < 96 ? B - sn[i] : 96);
    for (int lv = 0; lv < hx_levels_available; lv++) {
      if (lv == LV_NONE && hx_needs_sse2(C)) continue;
      int sig; uint8_t *po = A_out.end - 128 - N; memcpy(po, compl_, N); hx_set_level(lv);
      uint32_t d = call(C->dec, pc, sn[i], po, N, &sig); l_evals++;
      if (sig) { viol("stream of level %s decompressed at level %s: %s at %s", LV(slv[i]), LV(lv), signame(sig), where()); return; }
      if (d != N) { viol("stream of level %s decompressed at level %s: returned %u, expected %u", LV(slv[i]), LV(lv), d, N); return; }
      if (memcmp(po, SRC, N)) { uint32_t k = 0; while (po[k] == SRC[k]) k++; viol("stream of level %s decompressed at level %s: differs at offset %u", LV(slv[i]), LV(lv), k); return; }
    }
  }
}

static int all_are(const uint8_t *p, size_t n, uint8_t v) { for (size_t i = 0; i < n; i++) if (p[i] != v) return 0; return 1; }
#define CAN 96
/* C03: encoder containment; both buffers flush right, then both flush left */
static void k_c03(void)
{
  for (int place = 0; place < 2 && !v_hit; place++) {
    uint8_t *pin = place ? A_in.base : A_in.end - N, *pc = place ? A_c.base : A_c.end - B;
    memcpy(pin, SRC, N);
    uint8_t *can = place ? pc + B : pc - CAN; memset(can, 0xCA, CAN);
    if (place) memset(pin + N, 0x3D, 64); else memset(pin - 64, 0x3D, 64);
    for (int lv = 0; lv < hx_levels_available; lv++) {
      int sig; hx_set_level(lv);
      uint32_t r = call(C->enc, pin, N, pc, B, &sig); l_evals++;
      if (sig) { viol("compress at level %s, buffers against %s guard: %s at %s", LV(lv), place ? "lower" : "upper", signame(sig), where()); return; }
      if (!all_are(can, CAN, 0xCA)) { viol("compress at level %s wrote outside the bound (%s the buffer)", LV(lv), place ? "after" : "before"); return; }
      if (r > B) { viol("compress at level %s returned %u > bound %u", LV(lv), r, B); return; }
      if (r > N) l_nontriv++;
    }
    if (memcmp(pin, SRC, N)) { viol("compress modified its input"); return; }
  }
}

/* C04: decoder containment */
static void k_c04(void)
{
  static uint8_t *st[LV_COUNT]; uint32_t sn[LV_COUNT]; int slv[LV_COUNT], ns = 0;
  if (!st[0]) for (int i = 0; i < LV_COUNT; i++) st[i] = malloc(maxN + maxN / 8 + 8192);
  memcpy(A_in.end - N, SRC, N);
  const int enclv[] = { LV_NONE, LV_SSE2, LV_SSSE3, LV_AVX2 };
  for (int e = 0; e < 4; e++) { if (enclv[e] >= hx_levels_available) continue; uint8_t *pc; uint32_t r = encR(enclv[e], &pc); if (!r) { if (v_hit) return; continue; } int dup = 0; for (int i = 0; i < ns && !dup; i++) dup = sn[i] == r && !memcmp(st[i], pc, r); if (!dup) { memcpy(st[ns], pc, r); sn[ns] = r; slv[ns++] = enclv[e]; } }
  for (int i = 0; i < ns && !v_hit; i++) for (int place = 0; place < 2; place++) {
    uint8_t *pc = place ? A_c.base : A_c.end - B; memcpy(pc, st[i], sn[i]); memset(pc + sn[i], 0xA7, B - sn[i]);
    uint8_t *po = place ? A_out.base : A_out.end - 128 - N, *can = place ? po + N + 128 : po - CAN; memset(can, 0xCB, CAN);
    for (int lv = 0; lv < hx_levels_available; lv++) {
      if (lv == LV_NONE && hx_needs_sse2(C)) continue;
      int sig; hx_set_level(lv); uint32_t d = call(C->dec, pc, sn[i], po, N, &sig); l_evals++;
      if (sig) { viol("decompress at level %s (stream of %s), buffers against %s guard: %s at %s", LV(lv), LV(slv[i]), place ? "lower" : "upper", signame(sig), where()); return; }
      if (!all_are(can, CAN, 0xCB)) { viol("decompress at level %s wrote outside the output buffer + 128 (%s)", LV(lv), place ? "after" : "before"); return; }
      if (d) l_nontriv++;
    }
    if (memcmp(pc, st[i], sn[i]) || !all_are(pc + sn[i], B - sn[i], 0xA7)) { viol("decompress modified its input buffer"); return; }
  }
}

/* C05: pure functions of the input */
static void c05_before(int kind, uint8_t *pin, uint8_t *pc, uint32_t m)
{
  int sig; memcpy(pin, kind == 2 ? compl_ : SRC, N);
  if (kind == 3) pin[CASEIDX & 1 ? N - 1 : N / 2] ^= 0x5D;
  if (kind == 5) { if (N > 1) call(C->enc, pin, N - 1 - (N > 40 ? (uint32_t)(CASEIDX % 33) : 0), pc, m, &sig); return; }
  if (kind != 4) { call(C->enc, pin, N, pc, m, &sig); return; }
  for (int q = 1; q <= 2; q++) { const hx_codec *o = &hx_codecs[(CI + (q == 1 ? 1 : 1 + (int)(CASEIDX % (unsigned)(hx_ncodecs - 1)))) % hx_ncodecs]; if (o->bounds(N) > m) continue; const uint32_t r = call(o->enc, pin, N, pc, m, &sig); if (!sig && r && r <= m) call(o->dec, pc, r, A_x.base + 4096, N, &sig); }
}
static void k_c05(void)
{
  static uint8_t *ref; static uint8_t *tmp; if (!ref) { ref = malloc(maxN + maxN / 8 + 8192); tmp = malloc(maxN + maxN / 8 + 8192); }
  static const struct { uint8_t ia, oa, sur, old, extra, stk, hist; } cf[] = {
    { 0, 0, 0, 0x00, 0, 0x00, 0 }, { 1, 3, 1, 0xFF, 1, 0xFF, 0 }, { 16, 32, 2, 0x5A, 77, 0x7F, 1 }, { 17, 31, 1, 0x00, 0, 0x01, 2 }, { 33, 16, 0, 0xFF, 128, 0xFF, 3 }, { 32, 0, 1, 0x80, 3, 0x80, 4 }, { 7, 63, 2, 0x01, 64, 0x00, 5 }, { 63, 1, 1, 0x7F, 255, 0xFE, 1 } };
  const int W = C->width;
  for (int lv = 0; lv < hx_levels_available && !v_hit; lv++) {
    uint32_t rr = 0; hx_set_level(lv);
    for (int k = 0; k < (int)(sizeof cf / sizeof cf[0]); k++) {
      uint8_t *pin = A_in.base + 4096 + cf[k].ia, *pc = A_c.base + 4096 + cf[k].oa; int sig;
      /* the call before: 1 unrelated, 2 same buffers and size but other contents, 3 same but for one byte, 4 same buffers with other codecs, 5 a shorter input in the same buffers */
      if (cf[k].hist == 1) { uint8_t h[64]; memset(h, 0x33 + k, 40); memset(h + 40, k, 24); call(C->enc, h, 64, tmp, C->bounds(64), &sig); }
      else if (cf[k].hist) c05_before(cf[k].hist, pin, pc, B + cf[k].extra);
      for (int i = 0; i < 64; i++) { /* surroundings: constant, or a continuation of the data */ pin[-1 - i] = cf[k].sur == 0 ? 0x00 : cf[k].sur == 1 ? SRC[(uint32_t)i % N % (uint32_t)W] : 0xFF; pin[N + i] = cf[k].sur == 0 ? 0x00 : cf[k].sur == 1 ? (N >= (uint32_t)W ? SRC[N - W + i % W] : SRC[N - 1]) : 0xFF; }
      memcpy(pin, SRC, N); memset(pc, cf[k].old, B + cf[k].extra);
      scrub_stack(cf[k].stk);
      uint32_t r = call(C->enc, pin, N, pc, B + cf[k].extra, &sig); l_evals++;
      if (sig) { viol("compress at level %s with alignment %u/%u: %s at %s", LV(lv), cf[k].ia, cf[k].oa, signame(sig), where()); return; }
      if (memcmp(pin, SRC, N)) { viol("compress at level %s modified its input", LV(lv)); return; }
      if (r > B + cf[k].extra) { viol("compress at level %s: size %u > %u", LV(lv), r, B); return; }
      if (k == 0) { rr = r; memcpy(ref, pc, r); if (!r) break; if (r < N) l_nontriv++; }
      else if (r != rr || memcmp(ref, pc, r)) { uint32_t d = 0; while (d < r && d < rr && ref[d] == pc[d]) d++; viol("compress at level %s: stream depends on placement/context (configuration %d: in+%u out+%u surroundings %u stale 0x%02x extra %u stack 0x%02x): sizes %u/%u, first difference at %u", LV(lv), k, cf[k].ia, cf[k].oa, cf[k].sur, cf[k].old, cf[k].extra, cf[k].stk, rr, r, d); return; }
    }
    if (!rr) continue;
    /* decode: every output alignment 0..63 (input alignment, stale contents and trailing bytes vary along) */
    const int step = depth >= 3 ? 1 : depth >= 2 ? 4 : 8;
    for (int a = (int)(CASEIDX % (unsigned)step); a < 64; a += step) {
      uint8_t *pc = A_c.base + 4096 + (a * 7 & 63), *po = A_out.base + 4096 + a; int sig;
      if ((a / step) % 4 == 1) { /* the call before: another stream in the same buffers */
        uint8_t *t = A_x.base + 4096; memcpy(t, (a / step) % 8 == 1 ? SRC : compl_, N); if ((a / step) % 8 == 1) t[CASEIDX & 1 ? N - 1 : N / 2] ^= 0x5D;
        const uint32_t q = call(C->enc, t, N, tmp, B, &sig); if (!sig && q && q <= B) { memcpy(pc, tmp, q); call(C->dec, pc, q, po, N, &sig); }
      }
      memcpy(pc, ref, rr); memset(pc + rr, a & 1 ? 0x00 : a & 2 ? 0xFF : ref[rr - 1], 96); memcpy(po, compl_, N); memset(po + N, a & 1 ? 0xFF : 0, 64);
      scrub_stack((uint8_t)(a & 1 ? 0xFF : a & 2 ? 0x01 : 0x00));
      uint32_t d = call(C->dec, pc, rr, po, N, &sig); l_evals++;
      if (sig) { viol("decompress at level %s with output alignment %d: %s at %s", LV(lv), a, signame(sig), where()); return; }
      if (memcmp(pc, ref, rr)) { viol("decompress at level %s modified its input", LV(lv)); return; }
      if (d != N || memcmp(po, SRC, N)) { viol("decompress at level %s with output alignment %d, input alignment %d: wrong output", LV(lv), a, a * 7 & 63); return; }
    }
  }
}

/* C10: self-describing streams */
static void k_c10(void)
{
  if (C->fam == FAM_MMTF || C->fam == FAM_BITMMTF) return;
  memcpy(A_in.end - N, SRC, N);
  const int enclv[] = { LV_NONE, LV_SSE2, LV_SSSE3, LV_AVX2 };
  static uint8_t *ref; if (!ref) ref = malloc(maxN + maxN / 8 + 8192);
  for (int e = 0; e < 4; e++) {
    if (enclv[e] >= hx_levels_available) continue;
    uint8_t *pc0; uint32_t r = encR(enclv[e], &pc0); if (!r) { if (v_hit) return; continue; }
    memcpy(ref, pc0, r); if (r < N) l_nontriv++;
    const uint32_t ins[] = { r, r + 1, r + 7, r + 256, r + 4096 }; const uint32_t outs[] = { N, N + 1, N + 128, 0x7FFFFFFF, 0xFFFFFFFF };
    for (int k = 0; k < 5; k++) {
      uint8_t *pc = A_c.base + 256; memcpy(pc, ref, r); for (int i = 0; i < 512; i++) pc[r + i] = (uint8_t)(k == 0 ? 0 : k == 1 ? 0xFF : k == 2 ? ref[i % r] : k == 3 ? 0x01 : i * 37);
      for (int lv = 0; lv < hx_levels_available; lv++) {
        if (lv == LV_NONE && hx_needs_sse2(C)) continue;
        int sig; uint8_t *po = A_out.end - 128 - N; memcpy(po, compl_, N); hx_set_level(lv);
        uint32_t d = call(C->dec, pc, ins[k], po, outs[k], &sig); l_evals++;
        if (sig) { viol("decompress at level %s with declared input size %u (stream %u): %s at %s", LV(lv), ins[k], r, signame(sig), where()); return; }
        if (d != N || memcmp(po, SRC, N)) { viol("decompress at level %s with declared sizes %u/%u (stream %u, data %u): returned %u or wrong data", LV(lv), ins[k], outs[k], r, N, d); return; }
      }
    }
    if (C->fam == FAM_LE) {
      uint8_t *pc = A_c.base + 256; const uint32_t s = rle8_low_entropy_decompressed_size(pc, r);
      if (s != N) { viol("size query returned %u for a stream of %u bytes", s, N); return; }
    }
  }
}

/* C15: round trip, bound and cross-level decoding for long runs and gaps */
static void k_c15(void) { k_c02(); }

/* C16: exchange with the reference build */
extern const hx_codec hx_ref_codecs[] __attribute__((weak)); extern const int hx_ref_ncodecs __attribute__((weak)); void hx_ref_set_level(int) __attribute__((weak));
static void k_c16(void)
{
  const hx_codec *R = &hx_ref_codecs[CI]; int sig;
  memcpy(A_in.end - N, SRC, N);
  const int lvs[] = { LV_NONE, LV_SSE2, LV_SSSE3, LV_AVX2 };
  const uint32_t RB = R->bounds(N);
  uint8_t *px = A_x.end - RB, *po = A_out.end - 128 - N;
  for (int e = 0; e < 4; e++) {
    if (lvs[e] >= hx_levels_available) continue;
    hx_set_level(lvs[e]); hx_ref_set_level(lvs[e]);
    /* reference -> current */
    uint32_t r = call(R->enc, A_in.end - N, N, px, RB, &sig);
    if (!sig && r) {
      if (r < N) l_nontriv++;
      memcpy(po, compl_, N); uint32_t d = call(C->dec, px, r, po, N, &sig); l_evals++;
      if (sig) { viol("reference stream decompressed at level %s: %s at %s", LV(lvs[e]), signame(sig), where()); return; }
      if (d != N || memcmp(po, SRC, N)) { viol("reference stream not decompressed correctly at level %s (returned %u)", LV(lvs[e]), d); return; }
    }
    /* current -> reference */
    uint8_t *pc; uint32_t q = encR(lvs[e], &pc); if (!q) { if (v_hit) return; continue; }
    if (q == r && !memcmp(pc, px, q)) { l_evals++; continue; } /* identical stream: the reference decodes it by construction */
    memcpy(po, compl_, N); memset(pc + q, 0x5A, B - q < 96 ? B - q : 96); uint32_t d = call(R->dec, pc, q, po, N, &sig); l_evals++;
    if (sig) { viol("current stream (level %s) decompressed by the reference: %s", LV(lvs[e]), signame(sig)); return; }
    if (d != N || memcmp(po, SRC, N)) { viol("current stream (level %s) not decompressed correctly by the reference (returned %u)", LV(lvs[e]), d); return; }
  }
}

/* C11: instructions above the level are replaced by breakpoints */
static const char *trapFile; static int onlyLevel = -1;
typedef struct { uintptr_t a; int lv; char fn[96], txt[96]; } trap_t; static trap_t *traps; static size_t ntraps, narmed;
static void load_traps(void)
{
  FILE *f = fopen(trapFile, "r"); if (!f) { perror(trapFile); exit(2); }
  static char l[1024]; traps = malloc(sizeof(trap_t) * 400000);
  while (fgets(l, sizeof l, f)) { trap_t *t = &traps[ntraps]; unsigned long a; int k = 0; if (l[0] == '#' || sscanf(l, "%lx %d %95s %n", &a, &t->lv, t->fn, &k) < 3) continue; t->a = a; snprintf(t->txt, sizeof t->txt, "%s", l + k); t->txt[strcspn(t->txt, "\n")] = 0; ntraps++; if (ntraps >= 400000) break; }
  fclose(f);
}
static void arm_traps(void)
{
  if (!trapFile) return; load_traps();
  const int allowed = onlyLevel == LV_NONE ? LV_SSE2 : onlyLevel;
  for (size_t i = 0; i < ntraps; i++) if (traps[i].lv > allowed) { uintptr_t p = traps[i].a & ~4095ul; if (mprotect((void *)p, 8192, PROT_READ | PROT_WRITE | PROT_EXEC)) { perror("mprotect"); _exit(2); } *(volatile uint8_t *)traps[i].a = 0xCC; narmed++; }
}
static const char *trap_where(void) { static char b[256]; for (size_t i = 0; i < ntraps; i++) if (traps[i].a == (uintptr_t)hx_fault_addr) { snprintf(b, sizeof b, "%s executes '%s' (%s)", traps[i].fn, traps[i].txt, traps[i].lv > LV_AVX512 ? "beyond AVX-512F" : LV(traps[i].lv)); return b; } snprintf(b, sizeof b, "trap at %p", hx_fault_addr); return b; }
static void k_c11(void)
{
  hx_set_level(onlyLevel); if (onlyLevel == LV_AVX512) hx_only_avx512f();
  int sig; uint8_t *pin = A_in.end - N, *pc = A_c.end - B, *po = A_out.end - 128 - N; memcpy(pin, SRC, N);
  uint32_t r = call(C->enc, pin, N, pc, B, &sig); l_evals++;
  if (sig == SIGTRAP) { viol("compress restricted to %s: %s", LV(onlyLevel), trap_where()); return; }
  if (sig || !r || r > B) return; /* judged by the other properties */
  if (r < N) l_nontriv++;
  call(C->dec, pc, r, po, N, &sig); l_evals++;
  if (sig == SIGTRAP) { viol("decompress restricted to %s: %s", LV(onlyLevel), trap_where()); return; }
  if (C->fam == FAM_LE && N > 4) {
    const uint32_t mb = rle8m_compress_bounds(3, N); if (mb > A_x.cap) return; uint8_t *px = A_x.end - mb; int s2; r = 0;
    HX_TRY(r = rle8m_compress(3, pin, N, px, mb), s2); if (s2 == SIGTRAP) { viol("rle8m_compress restricted to %s: %s", LV(onlyLevel), trap_where()); return; }
    if (!s2 && r && r <= mb) { HX_TRY(rle8m_decompress(px, r, po, N), s2); if (s2 == SIGTRAP) { viol("rle8m_decompress restricted to %s: %s", LV(onlyLevel), trap_where()); return; } }
  }
}

typedef void (*kern)(void);
static const struct { const char *p; kern k; } kernels[] = { { "C01", k_c01 }, { "C02", k_c02 }, { "C03", k_c03 }, { "C04", k_c04 }, { "C05", k_c05 }, { "C10", k_c10 }, { "C11", k_c11 }, { "C15", k_c15 }, { "C16", k_c16 } };
static kern K;

static void set_case(const hx_codec *c, const uint8_t *in, size_t n) { C = c; SRC = in; N = (uint32_t)n; B = c->bounds(N); for (size_t i = 0; i < n; i++) compl_[i] = (uint8_t)~in[i]; }

static uint64_t *hs; static size_t hsn; /* distinct inputs within a task */
static int seen(const uint8_t *p, size_t n) { uint64_t h = n * 0x9E3779B97F4A7C15ull; size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t v; memcpy(&v, p + i, 8); h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 32; } for (; i < n; i++) h = (h ^ p[i]) * 0x100000001b3ull; h ^= h >> 29; if (!h) h = 1; size_t m = (1 << 20) - 1, k = h & m; while (hs[k]) { if (hs[k] == h) return 1; k = (k + 1) & m; } if (hsn < (1 << 19)) { hs[k] = h; hsn++; } return 0; }

static int on_case(fam_ctx *f)
{
  if (sh->stop) return 1;
  curcase *cc = &sh->cur[wid]; cc->family = f->family; cc->idx = f->idx; cc->n = f->n; cc->serial++; CASEIDX = f->idx;
  if (seen(f->buf, f->n)) return 0; /* the same input was already explored for this codec in this task */
  l_cases++; l_fam[f->family]++;
  set_case(f->c, f->buf, f->n); v_hit = 0;
  K();
  if (v_hit) { write_replay(v_detail, f->c, f->buf, f->n, fam_names[f->family], f->idx); sh->codecBad[CI] = 1; if (sh->nviol >= 6) sh->stop = 1; return 1; }
  if (sh->codecBad[CI]) return 1;
  return 0;
}

static int nsamples, sampled;
static int on_sample(fam_ctx *f)
{
  if (f->emitted % 97 != 3) return 0;
  printf("sample codec=%s family=%s index=%llu n=%zu data=", f->c->name, fam_names[f->family], (unsigned long long)f->idx, f->n);
  for (size_t i = 0; i < f->n && i < 48; i++) printf("%02x", f->buf[i]);
  printf("%s\n", f->n > 48 ? "..." : ""); sampled++; return 1;
}

static uint64_t lastSerial; static int stuck;
static void on_tick(int s, siginfo_t *si, void *u)
{
  (void)s; (void)si; (void)u;
  if (deadline && now() - t0 > deadline) sh->stop = 2;
  if (sh->cur[wid].serial == lastSerial && hx_armed) { if (++stuck >= 90) { stuck = 0; hx_armed = 0; siglongjmp(hx_jmp, SIGALRM); } } else { stuck = 0; lastSerial = sh->cur[wid].serial; }
}

static void init_buffers(void)
{
  hx_arena_init(&A_in, "input", maxN + 16384); hx_arena_init(&A_c, "compressed", maxN + maxN / 8 + 16384); hx_arena_init(&A_out, "output", maxN + 16384); hx_arena_init(&A_x, "reference", maxN + maxN / 8 + 16384);
  compl_ = malloc(maxN + 64); hs = malloc(sizeof(uint64_t) << 20);
  hx_install_handlers();
}

static void worker(int w, int nsh)
{
  wid = w; init_buffers();
  struct sigaction sa = { 0 }; sa.sa_sigaction = on_tick; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction(SIGALRM, &sa, NULL);
  struct itimerval it = { { 1, 0 }, { 1, 0 } }; setitimer(ITIMER_REAL, &it, NULL);
  uint8_t *buf = malloc(maxN + 64); hx_set_level(0); arm_traps();
  for (;;) {
    unsigned t = __sync_fetch_and_add(&sh->next, 1); if (t >= (unsigned)(hx_ncodecs * nsh) || sh->stop) break;
    CI = (int)(t % (unsigned)hx_ncodecs); const int shard = (int)(t / (unsigned)hx_ncodecs);
    if (sh->codecBad[CI] || !strstr(hx_codecs[CI].name, codecFilter)) continue;
    sh->cur[w].codec = CI; memset(hs, 0, sizeof(uint64_t) << 20); hsn = 0;
    fam_ctx f = { .c = &hx_codecs[CI], .depth = depth, .shard = (unsigned)shard, .nshards = (unsigned)nsh, .buf = buf, .cap = maxN, .cb = on_case };
    fam_run(&f, famMask);
  }
  l_trans += fam_screened * 6;
  __sync_fetch_and_add(&sh->evals, l_evals); __sync_fetch_and_add(&sh->cases, l_cases); __sync_fetch_and_add(&sh->transitions, l_trans); __sync_fetch_and_add(&sh->nontrivial, l_nontriv);
  for (int i = 0; i < G_COUNT; i++) __sync_fetch_and_add(&sh->famcases[i], l_fam[i]);
}

static int replay(const char *path)
{
  FILE *f = fopen(path, "rb"); if (!f) { perror(path); return 2; }
  static char line[1024], codec[256]; static char pr[16]; size_t n = 0;
  while (fgets(line, sizeof line, f) && strcmp(line, "DATA\n")) { sscanf(line, "property=%15s", pr); sscanf(line, "codec=%255s", codec); sscanf(line, "n=%zu", &n); }
  uint8_t *buf = malloc(n + 64); if (fread(buf, 1, n, f) != n) return 2; fclose(f);
  prop = pr; K = NULL; for (size_t i = 0; i < sizeof kernels / sizeof kernels[0]; i++) if (!strcmp(kernels[i].p, prop)) K = kernels[i].k;
  CI = hx_codec_by_name(codec); if (!K || CI < 0) { fprintf(stderr, "unknown property/codec\n"); return 2; }
  if (n + 4096 > maxN) maxN = n + 4096;
  wid = 0; init_buffers(); arm_traps(); set_case(&hx_codecs[CI], buf, n); v_hit = 0; K();
  if (v_hit) { printf("VIOLATION property=%s replay=%s codec=%s n=%zu %s\n", prop, path, codec, n, v_detail); return 1; }
  printf("replay: no violation\n"); return 0;
}

int main(int argc, char **argv)
{
  const char *stats = NULL, *rp = NULL; int nsh = 8; t0 = now();
  sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int i = 1; i + 1 < argc; i += 2) {
    if (!strcmp(argv[i], "--prop")) prop = argv[i + 1]; else if (!strcmp(argv[i], "--depth")) depth = atoi(argv[i + 1]); else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[i + 1]);
    else if (!strcmp(argv[i], "--out")) outdir = argv[i + 1]; else if (!strcmp(argv[i], "--stats")) stats = argv[i + 1]; else if (!strcmp(argv[i], "--deadline")) deadline = atoi(argv[i + 1]);
    else if (!strcmp(argv[i], "--codec")) codecFilter = argv[i + 1]; else if (!strcmp(argv[i], "--fam")) famMask = (unsigned)strtoul(argv[i + 1], NULL, 0); else if (!strcmp(argv[i], "--maxn")) maxN = strtoul(argv[i + 1], NULL, 0);
    else if (!strcmp(argv[i], "--shards")) nsh = atoi(argv[i + 1]); else if (!strcmp(argv[i], "--traps")) trapFile = argv[i + 1]; else if (!strcmp(argv[i], "--level")) onlyLevel = atoi(argv[i + 1]); else if (!strcmp(argv[i], "--samples")) nsamples = atoi(argv[i + 1]); else if (!strcmp(argv[i], "--replay")) rp = argv[i + 1]; else { fprintf(stderr, "unknown option %s\n", argv[i]); return 2; }
  }
  if (onlyLevel >= 0) { hx_set_level(0); if (onlyLevel >= hx_levels_available) { if (stats) { FILE *f = fopen(stats, "w"); fprintf(f, "{\"unavailable\": true}\n"); fclose(f); } return 0; } }
  if (rp) return replay(rp);
  for (size_t i = 0; i < sizeof kernels / sizeof kernels[0]; i++) if (!strcmp(kernels[i].p, prop)) K = kernels[i].k;
  if (!K) { fprintf(stderr, "unknown property\n"); return 2; }
  if (nsamples) { uint8_t *buf = malloc(maxN + 64); for (int k = 0; k < nsamples; k++) { fam_ctx f = { .c = &hx_codecs[(k * 37 + 5) % hx_ncodecs], .depth = depth, .nshards = 8, .shard = (unsigned)k % 8, .buf = buf, .cap = maxN, .cb = on_sample }; for (int t = 0; t < G_COUNT && sampled <= k; t++) { f.stop = 0; if (famMask >> ((k * 3 + t) % G_COUNT) & 1) fam_run(&f, 1u << ((k * 3 + t) % G_COUNT)); } } return 0; }
  fflush(stdout);
  pid_t pids[64]; if (jobs > 60) jobs = 60;
  for (int w = 0; w < jobs; w++) { pids[w] = fork(); if (!pids[w]) { worker(w, nsh); fflush(stdout); _exit(0); } }
  hx_set_level(0);
  for (int w = 0; w < jobs; w++) {
    int st; while (waitpid(pids[w], &st, 0) < 0 && errno == EINTR) ;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { /* the worker itself died: the code under test corrupted the process */
      curcase *cc = &sh->cur[w]; const hx_codec *c = &hx_codecs[cc->codec]; uint8_t *buf = malloc(maxN + 64);
      fam_ctx f = { .c = c, .depth = depth, .shard = 0, .nshards = 1, .buf = buf, .cap = maxN };
      (void)f; char d[128]; snprintf(d, sizeof d, "process died (status 0x%x) in family %s index %llu", st, fam_names[cc->family], (unsigned long long)cc->idx);
      write_replay(d, c, buf, 0, fam_names[cc->family], cc->idx);
    }
  }
  const double wall = now() - t0;
  FILE *f = stats ? fopen(stats, "w") : stdout;
  fprintf(f, "{\"evaluations\": %llu, \"cases\": %llu, \"transitions\": %llu, \"nontrivial\": %llu, \"violations\": %u, \"complete\": %s, \"levels\": %d, \"codecs\": %d, \"wall\": %.2f, \"families\": {", (unsigned long long)sh->evals, (unsigned long long)sh->cases, (unsigned long long)sh->transitions, (unsigned long long)sh->nontrivial, sh->nviol, sh->stop == 2 ? "false" : "true", hx_levels_available, hx_ncodecs, wall);
  for (int i = 0; i < G_COUNT; i++) fprintf(f, "%s\"%s\": %llu", i ? ", " : "", fam_names[i], (unsigned long long)sh->famcases[i]);
  fprintf(f, "}}\n"); if (stats) fclose(f);
  return sh->nviol ? 1 : 0;
}
