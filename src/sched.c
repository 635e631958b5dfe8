/* C07: stateless model checking of the real code. Every access of a thread to the library's writable data (or to memory the library allocates) faults, is a
   scheduling point, and is then executed alone by single stepping; exactly one thread runs at a time. All schedules up to a preemption bound are executed.
   sched --prop C07 --depth N [--jobs N] [--out DIR] [--stats FILE] [--codec SUBSTR] */
#include "par.h"
#include "state.h"
#include "rle.h"
#include "simd_platform.h"
#include <pthread.h>
#include <ucontext.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#undef IN
#undef OUT
enum { MAXT = 3, CTRL = 99, MAXSTEP = 20000, MAXPRE = 4 };
/* ------------------------------------------------------------------ memory under control */
static uint8_t *r0, *r0e, *r1, *r1e, *ar, *are, *arp; enum { ARENA = 1 << 20 };
static void region_init(void)
{
  r0 = hx_data_first; r0e = hx_data_last + 4096; r1 = hx_bss_first; r1e = hx_bss_last + 4096; if (r0e == r1) { r0e = r1e; r1 = r1e = NULL; } else if (r1e == r0) { r0 = r1; r1 = r1e = NULL; }
  ar = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); are = ar + ARENA; arp = ar;
}
static void prot(int p) { mprotect(r0, (size_t)(r0e - r0), p); if (r1) mprotect(r1, (size_t)(r1e - r1), p); if (arp != ar) mprotect(ar, ARENA, p); }
static int controlled(const uint8_t *a) { return (a >= r0 && a < r0e) || (r1 && a >= r1 && a < r1e) || (a >= ar && a < are); }
static volatile int guarding; static __thread int tid = -1;
void *hxl_malloc(size_t n) { if (tid < 0) return malloc(n); n = (n + 8 + 63) & ~(size_t)63; if (arp + n > are) return NULL; uint8_t *p = arp; arp += n; return p + 0; }
void *hxl_aligned_alloc(size_t a, size_t n) { (void)a; if (tid < 0) return aligned_alloc(a, n); return hxl_malloc(n); }
void *hxl_calloc(size_t a, size_t b) { if (tid < 0) return calloc(a, b); uint8_t *p = hxl_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void *hxl_realloc(void *p, size_t n) { if (tid < 0) return realloc(p, n); uint8_t *q = hxl_malloc(n); if (q && p) memcpy(q, p, n); return q; }
void hxl_free(void *p) { if (!((uint8_t *)p >= ar && (uint8_t *)p < are) && tid < 0) free(p); }
static uint8_t *img[2 + 16][2]; static int nimg[2 + 16]; /* 0 before the first call, 1 features detected, 2 + l limited to level l */
static void snap(int which) { const size_t a = (size_t)(hx_data_last - hx_data_first), b = (size_t)(hx_bss_last - hx_bss_first); if (!img[which][0]) { img[which][0] = malloc(a); img[which][1] = malloc(b); } memcpy(img[which][0], hx_data_first, a); memcpy(img[which][1], hx_bss_first, b); nimg[which] = 1; }
static void restore(int which) { memcpy(hx_data_first, img[which][0], (size_t)(hx_data_last - hx_data_first)); memcpy(hx_bss_first, img[which][1], (size_t)(hx_bss_last - hx_bss_first)); if (arp != ar) { mprotect(ar, ARENA, PROT_READ | PROT_WRITE); memset(ar, 0xC3, (size_t)(arp - ar)); arp = ar; } }

/* ------------------------------------------------------------------ operations */
typedef struct { int kind; const hx_codec *c; int input, mis; } op; /* kind 0 compress 1 decompress 2 rle8m compress 3 rle8m decompress 4 two step low entropy 5 two step short 6 detection only */
static const char *kinds[] = { "compress", "decompress", "rle8m_compress", "rle8m_decompress", "low_entropy two-step", "low_entropy_short two-step", "_DetectCPUFeatures" };
enum { BUFN = 4096 };
typedef struct { uint8_t in0[BUFN], out0[BUFN]; uint8_t *in, *out; uint32_t n, r; } __attribute__((aligned(64))) work; /* in, out: aligned or displaced by one byte */
static void place(work *w, int mis) { w->in = w->in0 + mis; w->out = w->out0 + mis; }
static work W[MAXT], EXP[MAXT]; static op OP[MAXT];
static uint32_t make_input(uint8_t *b, int which, int width)
{
  uint32_t n = 0;
  if (which == 0) { n += (uint32_t)hx_put_lit(b, 5, 3); n += (uint32_t)hx_put_run(b + n, 8, width, (size_t)width * 6 + 1); n += (uint32_t)hx_put_lit(b + n, 9, 4); n += (uint32_t)hx_put_run(b + n, 11, width, 40); n += (uint32_t)hx_put_lit(b + n, 3, 7); }
  else if (which == 1) { n += (uint32_t)hx_put_run(b, 11, width, (size_t)width * 9); n += (uint32_t)hx_put_lit(b + n, 21, 9); n += (uint32_t)hx_put_run(b + n, 0, width, 64); n += (uint32_t)hx_put_run(b + n, 12, width, (size_t)width * 4 + 2); n += (uint32_t)hx_put_lit(b + n, 2, 1); n += (uint32_t)hx_put_run(b + n, 11, width, (size_t)width * 5); }
  else { for (int k = 0; k < 9; k++) { n += (uint32_t)hx_put_run(b + n, k % 3 ? 8 + k % 4 : k % 7, width, (size_t)width * 3 + (size_t)k); n += (uint32_t)hx_put_lit(b + n, (size_t)k + 1, (unsigned)k); } }
  return n;
}
static void prepare(const op *o, work *w)
{
  static uint8_t tmp[BUFN]; memset(w, 0, sizeof *w); place(w, o->mis); memset(w->out0, 0xA7, BUFN); const int wd = o->c ? o->c->width : 1; uint32_t n = make_input(tmp, o->input, wd);
  if (o->kind == 1) { w->n = o->c->enc(tmp, n, w->in, o->c->bounds(n)); if (!w->n) { fprintf(stderr, "prepare failed\n"); _exit(5); } }
  else if (o->kind == 3) { w->n = rle8m_compress(3, tmp, n, w->in, rle8m_compress_bounds(3, n)); if (!w->n) _exit(5); }
  else { memcpy(w->in, tmp, n); w->n = n; }
}
static void perform(const op *o, work *w)
{
  switch (o->kind) {
  case 0: w->r = o->c->enc(w->in, w->n, w->out, o->c->bounds(w->n)); break;
  case 1: w->r = o->c->dec(w->in, w->n, w->out, BUFN - 256); break;
  case 2: w->r = rle8m_compress(3, w->in, w->n, w->out, rle8m_compress_bounds(3, w->n)); break;
  case 3: w->r = rle8m_decompress(w->in, w->n, w->out, BUFN - 256); break;
  case 4: { rle8_low_entropy_compress_info_t ci; memset(&ci, 0, sizeof ci); if (!rle8_low_entropy_get_compress_info(w->in, w->n, &ci)) { w->r = 0; break; } uint32_t k = rle8_low_entropy_write_compress_info(&ci, w->out, BUFN); w->r = k ? k + rle8_low_entropy_compress_with_info(w->in, w->n, &ci, w->out + k, BUFN - k) : 0; break; }
  case 5: { rle8_low_entropy_compress_info_t ci; memset(&ci, 0, sizeof ci); if (!rle8_low_entropy_get_compress_info_only_max_frequency(w->in, w->n, &ci)) { w->r = 0; break; } uint32_t k = rle8_low_entropy_write_compress_info(&ci, w->out, BUFN); w->r = k ? k + rle8_low_entropy_short_compress_with_info(w->in, w->n, &ci, w->out + k, BUFN - k) : 0; break; }
  default: _DetectCPUFeatures(); w->r = 1; break;
  }
}

/* ------------------------------------------------------------------ scheduler */
static volatile int turn = CTRL; static int NT; static volatile int fin[MAXT], crashed[MAXT]; static sigjmp_buf tjmp[MAXT]; static volatile uintptr_t crashAddr[MAXT];
static struct { int n; int pos[MAXPRE], tgt[MAXPRE]; } S; static int Sk;
static volatile int step; static uint8_t curT[MAXSTEP], aliveM[MAXSTEP]; static uint64_t trHash; static int noSwitch; static int stepping;
static uint64_t nPoints, nSched, nForced;
static void fwait(int me) { for (;;) { const int t = turn; if (t == me) return; syscall(SYS_futex, &turn, FUTEX_WAIT_PRIVATE, t, NULL, NULL, 0); } }
static void pass(int to) { __atomic_store_n(&turn, to, __ATOMIC_SEQ_CST); syscall(SYS_futex, &turn, FUTEX_WAKE_PRIVATE, 64, NULL, NULL, 0); }
static int alive_mask(void) { int m = 0; for (int i = 0; i < NT; i++) if (!fin[i]) m |= 1 << i; return m; }
static void point(int t, uintptr_t addr, int wr)
{
  if (turn != t) fwait(t);
  const int k = step++; nPoints++; noSwitch++;
  trHash = (trHash ^ (uint64_t)t ^ (uint64_t)wr << 3 ^ (uint64_t)(controlled((uint8_t *)addr) && !((uint8_t *)addr >= ar && (uint8_t *)addr < are) ? addr - (uintptr_t)r0 : 7) << 8) * 0x100000001b3ull;
  if (k < MAXSTEP) { curT[k] = (uint8_t)t; aliveM[k] = (uint8_t)alive_mask(); }
  int to = -1;
  if (Sk < S.n && S.pos[Sk] == k) { to = S.tgt[Sk]; Sk++; if (fin[to]) to = -1; }
  else if (noSwitch > 20000) { for (int i = 1; i < NT && to < 0; i++) if (!fin[(t + i) % NT]) to = (t + i) % NT; nForced++; } /* a thread which waits for another one */
  if (to >= 0 && to != t) { noSwitch = 0; pass(to); fwait(t); }
}
static void on_segv(int s, siginfo_t *si, void *u)
{
  ucontext_t *uc = u; (void)s;
  if (tid >= 0 && guarding && controlled(si->si_addr) && s == SIGSEGV) {
    if (stepping) { prot(PROT_READ | PROT_WRITE); return; } /* an instruction with several accesses */
    point(tid, (uintptr_t)si->si_addr, (int)(uc->uc_mcontext.gregs[REG_ERR] >> 1 & 1));
    prot(PROT_READ | PROT_WRITE); stepping = 1; uc->uc_mcontext.gregs[REG_EFL] |= 0x100; return;
  }
  if (tid >= 0) { crashed[tid] = s; crashAddr[tid] = (uintptr_t)si->si_addr; stepping = 0; siglongjmp(tjmp[tid], 1); }
  signal(s, SIG_DFL);
}
static void on_trap(int s, siginfo_t *si, void *u)
{
  ucontext_t *uc = u;
  if (tid >= 0 && stepping) { stepping = 0; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; if (guarding) prot(PROT_NONE); return; }
  on_segv(s, si, u);
}
static void *thread_main(void *a)
{
  tid = (int)(intptr_t)a; const int me = tid;
  for (;;) {
    fwait(me);
    if (!sigsetjmp(tjmp[me], 1)) perform(&OP[me], &W[me]);
    fin[me] = 1; noSwitch = 0; int to = CTRL; for (int i = 1; i < NT; i++) if (!fin[(me + i) % NT]) { to = (me + i) % NT; break; }
    pass(to);
    /* wait for the next execution: the controller clears fin and gives the turn */
  }
  return NULL;
}
static pthread_t th[MAXT]; static int started;
static int run_schedule(int init, int first)
{
  restore(init); for (int i = 0; i < NT; i++) { memset(W[i].out0, 0xA7, EXP[i].r < BUFN - 512 ? EXP[i].r + 512 : BUFN); W[i].r = 0xDEAD; fin[i] = 0; crashed[i] = 0; }
  step = 0; Sk = 0; trHash = 1469598103934665603ull; noSwitch = 0; stepping = 0; nSched++; p_trans++; par->serial[par_wid]++;
  guarding = 1; prot(PROT_NONE); par_busy = 1; pass(first); fwait(CTRL); par_busy = 0; guarding = 0; prot(PROT_READ | PROT_WRITE);
  return step;
}
static void on_stuck(void) { char sc[160] = ""; for (int k = 0; k < S.n; k++) snprintf(sc + strlen(sc), sizeof sc - strlen(sc), " %d->T%d", S.pos[k], S.tgt[k]); par_viol("the calls do not return (thread %d running) under schedule [%s ]", turn, sc); _exit(0); }
static char whatBuf[200];
static int judge(void)
{
  p_evals++;
  for (int i = 0; i < NT; i++) {
    const int sched0 = S.n; (void)sched0; char sc[160] = ""; 
    if (crashed[i] || W[i].r != EXP[i].r || (W[i].r <= BUFN && memcmp(W[i].out, EXP[i].out, W[i].r))) {
      for (int k = 0; k < S.n; k++) snprintf(sc + strlen(sc), sizeof sc - strlen(sc), " %d->T%d", S.pos[k], S.tgt[k]);
      if (crashed[i]) par_viol("thread %d: %s (address %lx) under schedule [%s ]", i, par_sig(crashed[i]), (unsigned long)crashAddr[i], sc);
      else if (W[i].r != EXP[i].r) par_viol("thread %d returned %u instead of %u under schedule [%s ]", i, W[i].r, EXP[i].r, sc);
      else { uint32_t k = 0; while (W[i].out[k] == EXP[i].out[k]) k++; par_viol("thread %d: byte %u of the result is %02x instead of %02x under schedule [%s ]", i, k, W[i].out[k], EXP[i].out[k], sc); }
      return 0;
    }
  }
  return 1;
}
static uint64_t capSched; static uint64_t capHit; static double tEnd; static double nowS(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec / 1e9; }
static unsigned bitrev(unsigned v, int bits) { unsigned r = 0; for (int i = 0; i < bits; i++) r |= (v >> i & 1) << (bits - 1 - i); return r; }
/* all extensions of the current schedule by further preemptions */
static int explore(int init, int first, int bound)
{
  if (PAR_STOP()) return 0;
  const int n0 = run_schedule(init, first); if (!judge()) return 0;
  if (S.n == bound) return 1;
  const int n = n0 < MAXSTEP ? n0 : MAXSTEP, from = S.n ? S.pos[S.n - 1] + 1 : 0; int bits = 1; while (1 << bits < n - from) bits++;
  uint8_t *ct = malloc((size_t)n + 1), *am = malloc((size_t)n + 1); memcpy(ct, curT, (size_t)n); memcpy(am, aliveM, (size_t)n); int ok = 1;
  /* positions in bit-reversed order: a truncated exploration is still spread over the whole execution */
  for (unsigned q = 0; q < 1u << bits && ok; q++) {
    const int p = from + (int)bitrev(q, bits); if (p >= n) continue;
    for (int t = 0; t < NT && ok; t++) { if (t == ct[p] || !(am[p] >> t & 1)) continue; if (nSched >= capSched || nowS() > tEnd) { capHit++; ok = 2; break; } S.pos[S.n] = p; S.tgt[S.n] = t; S.n++; const int r = explore(init, first, bound); S.n--; if (!r) { ok = 0; } }
    if (ok == 2) break;
  }
  free(ct); free(am); return ok != 0;
}
static int group(const op *ops, int nt, int init, int bound, uint64_t cap, double secs)
{
  NT = nt; for (int i = 0; i < nt; i++) OP[i] = ops[i];
  whatBuf[0] = 0; for (int i = 0; i < nt; i++) snprintf(whatBuf + strlen(whatBuf), sizeof whatBuf - strlen(whatBuf), "%s%s %s", i ? " || " : "", kinds[ops[i].kind], ops[i].c ? ops[i].c->name : "");
  PAR_WHAT("%s, %s%s%s%s", whatBuf, init ? "features known" : "features not yet detected", init >= 2 ? ", limited to " : "", init >= 2 ? hx_level_names[init - 2] : "", ops[0].mis ? ", unaligned buffers" : "");
  /* expected results: each operation alone, from the same state */
  for (int i = 0; i < nt; i++) { restore(1); prepare(&OP[i], &W[i]); restore(init); EXP[i] = W[i]; place(&EXP[i], OP[i].mis); int sg; PAR_CALL(perform(&OP[i], &EXP[i]), sg); if (sg) { par_viol("alone: %s", par_sig(sg)); return 0; }
    if (!init) { static work again; again = W[i]; place(&again, OP[i].mis); restore(1); PAR_CALL(perform(&OP[i], &again), sg); p_evals++; if (again.r != EXP[i].r || memcmp(again.out, EXP[i].out, again.r)) { par_viol("alone: the first call of the process gives another result than later ones"); return 0; } } }
  p_cases++; nSched = 0; capSched = cap; tEnd = nowS() + secs;
  for (int first = 0; first < nt; first++) {
    S.n = 0; run_schedule(init, first); const uint64_t h = trHash; const int n = step; if (!judge()) return 0;
    run_schedule(init, first); if (trHash != h || step != n) { fprintf(stderr, "C07: %s: the same schedule gave different traces\n", whatBuf); }
    for (int b = 1; b <= bound; b++) { S.n = 0; if (!explore(init, first, b)) return 0; if (n == 0) break; } /* iterative: fewest preemptions first */
  }
  if (nSched > (uint64_t)nt * 2) p_nontriv += nSched;
  return 1;
}

static op ops[512]; static int nops, reps[64], nreps;
static void build_ops(void)
{
  for (int k = 0; k < 2; k++) for (int i = 0; i < hx_ncodecs; i++) { ops[nops].kind = k; ops[nops].c = &hx_codecs[i]; ops[nops].input = i % 3; nops++; }
  for (int k = 2; k < 7; k++) { ops[nops].kind = k; ops[nops].c = NULL; ops[nops].input = k % 3; nops++; }
  static const char *const rn[] = { "rle8_multi_compress", "rle8_single_compress", "rle8_packed_multi_compress", "rle8_3symlut_compress", "rle8_7symlut_short_compress", "rle16_sym_compress", "rle24_byte_compress", "rle32_3symlut_byte_compress", "rle48_sym_packed_compress", "rle64_1symlut_byte_short_compress_greedy", "rle64_7symlut_sym_compress", "rle128_byte_compress", "rle8_sh_compress", "rle8_mmtf128_compress", "rle8_low_entropy_compress", "rle8_low_entropy_short_compress_only_max_frequency", "mmtf128_encode", "mmtf256_encode", "bitmmtf8_encode", "bitmmtf16_encode" };
  for (size_t r = 0; r < sizeof rn / sizeof rn[0]; r++) { const int id = hx_codec_by_name(rn[r]); if (id < 0) { fprintf(stderr, "%s?\n", rn[r]); exit(2); } reps[nreps++] = id; reps[nreps++] = hx_ncodecs + id; }
  for (int k = 0; k < 5; k++) reps[nreps++] = 2 * hx_ncodecs + k;
}
typedef struct { int a, b, c, init, bound, mis; } task; static task *tasks; static unsigned ntasks;
static void add(int a, int b, int c, int init, int bound) { tasks = realloc(tasks, sizeof(task) * (ntasks + 1)); tasks[ntasks++] = (task){ a, b, c, init, bound, 0 }; }
static void t_c07(unsigned t)
{
  if (!started) {
    started = 1; struct sigaction sa = { 0 }; sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGILL, &sa, NULL); sigaction(SIGFPE, &sa, NULL);
    par_stuck = on_stuck; region_init(); for (int i = 0; i < MAXT; i++) { sigset_t m, o; sigemptyset(&m); sigaddset(&m, SIGALRM); pthread_sigmask(SIG_BLOCK, &m, &o); pthread_create(&th[i], NULL, thread_main, (void *)(intptr_t)i); pthread_sigmask(SIG_SETMASK, &o, NULL); }
  }
  struct sigaction sa = { 0 }; sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, NULL); sa.sa_sigaction = on_trap; sigaction(SIGTRAP, &sa, NULL);
  const task *k = &tasks[t]; op o[3] = { ops[k->a], ops[k->b] }; int n = 2; o[1].input = (o[1].input + 1) % 3; if (k->c >= 0) { o[2] = ops[k->c]; o[2].input = (o[2].input + 2) % 3; n = 3; }
  for (int i = 0; i < n; i++) o[i].mis = k->mis;
  group(o, n, k->init, k->bound, par_depth >= 2 ? 400000 : 30000, par_depth >= 2 ? 300 : 12);
  if (capHit) { __sync_fetch_and_add(&par->serial[63], capHit); capHit = 0; }
}
int main(int argc, char **argv)
{
  par_args(argc, argv);
  snap(0); _DetectCPUFeatures(); snap(1); hx_set_level(0); for (int l = 0; l < hx_levels_available; l++) { hx_set_level(l); snap(2 + l); } restore(1); build_ops();
  const int deep = par_depth >= 2;
  for (int i = 0; i < nreps; i++) for (int j = 0; j < nreps; j++) if (i <= j || deep) add(reps[i], reps[j], -1, 0, i == j || (i % 2 == 0 && j == i + 1) || deep ? 2 : 1);
  for (int i = 0; i < hx_ncodecs; i++) { const int e = i, d = hx_ncodecs + i; add(e, e, -1, 0, deep ? 2 : 1); add(e, d, -1, 0, deep ? 2 : 1); add(d, d, -1, 0, deep ? 2 : 1); add(e, e, -1, 1, 2); add(e, d, -1, 1, 2); add(d, d, -1, 1, 2); }
  for (int i = 0; i < nreps; i++) for (int j = 0; j < nreps; j++) if (i <= j) add(reps[i], reps[j], -1, 1, 2);
  for (int i = 0; i < nreps; i += deep ? 1 : 5) { add(reps[i], reps[(i + 7) % nreps], reps[(i + 13) % nreps], 0, deep ? 2 : 1); add(reps[i], reps[i], reps[i], 0, deep ? 2 : 1); add(reps[i], reps[i], reps[i], 1, 2); }
  /* the code selected at every SIMD level, aligned and unaligned buffers */
  for (int i = 0; i < hx_ncodecs; i++) for (int l = 0; l < hx_levels_available; l++) for (int m = 0; m < 2; m++) { const int e = i, d = hx_ncodecs + i, b = deep ? 2 : 1; add(e, e, -1, 2 + l, b); tasks[ntasks - 1].mis = m; add(e, d, -1, 2 + l, b); tasks[ntasks - 1].mis = m; add(d, d, -1, 2 + l, b); tasks[ntasks - 1].mis = m; }
  if (deep) { static const int sel[] = { 0, 1, 10, 26 }; for (int i = 0; i < 4; i++) add(reps[sel[i]], reps[sel[i]], -1, 0, 3); }
  if (par_filter[0]) { unsigned n = 0; for (unsigned i = 0; i < ntasks; i++) if (ops[tasks[i].a].c && strstr(ops[tasks[i].a].c->name, par_filter)) tasks[n++] = tasks[i]; ntasks = n; }
  const int r = par_run(ntasks, t_c07);
  if (par->serial[63]) fprintf(stderr, "C07: %llu explorations truncated\n", (unsigned long long)par->serial[63]);
  return r;
}
