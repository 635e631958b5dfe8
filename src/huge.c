/* C15, second part: data of the largest size the library accepts (2^30 bytes), for every codec.
 * Shapes: one run with a short head and tail; a run, one gap without repetitions, a run; both contents in one (run of five eighths of the data, gap of a quarter, run; the quick pass has only this one).
 * Thorough: also more than 2^31 bytes for the codecs that have no such limit.
 * Every encoder level of the pass; every distinct stream is decoded at every decoder level of the pass. */
#include "hx.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
static const char *prop = "C15", *outdir = "."; static int depth = 1, jobs = 6, deadline; static size_t MAXN = 1ul << 30;
typedef struct { volatile unsigned next, nviol, stop; uint64_t evals, cases, trans, nontriv; } shared; static shared *sh; static double t0;
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static hx_arena A_c, A_out; static uint8_t *in_;
static void head(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(i * 37 + (i >> 8) * 11 + (i >> 16) * 5 + 3); }
enum { SHAPES = 3 };
static const char *shape_names[SHAPES] = { "run", "gap", "run-gap-run" };
/* width: symbol width in bytes; the run repeats a symbol of that width */
static void run(uint8_t *p, size_t n, int w) { for (int i = 0; i < w && (size_t)i < n; i++) p[i] = (uint8_t)(0x41 + i * 7); size_t have = (size_t)w; while (have < n) { size_t k = have < n - have ? have : n - have; memcpy(p + have, p, k); have += k; } }
static void build(uint8_t *p, size_t n, int w, int shape)
{
  const size_t h = 48 - 48 % (size_t)w, t = 37; head(p, h); head(p + n - t, t);
  if (shape == 0) run(p + h, n - h - t, w);
  else if (shape == 1) { const size_t r = (size_t)w * 300; run(p + h, r, w); size_t g = n - h - t - 2 * r; g -= g % (size_t)w; head(p + h + r, g); run(p + h + r + g, n - h - t - r - g, w); }
  else { size_t r = n / 2 + n / 8; r -= r % (size_t)w; size_t g = n / 4; g -= g % (size_t)w; run(p + h, r, w); head(p + h + r, g); run(p + h + r + g, n - h - t - r - g, w); }
}
static void viol(const hx_codec *c, int shape, int w, size_t n, const char *fmt, ...)
{
  unsigned k = __sync_fetch_and_add(&sh->nviol, 1); if (k >= 6) { sh->stop = 1; return; }
  char d[512]; va_list ap; va_start(ap, fmt); vsnprintf(d, sizeof d, fmt, ap); va_end(ap);
  char path[512]; snprintf(path, sizeof path, "%s/%s-huge-%d-%u.txt", outdir, prop, (int)getpid(), k); FILE *f = fopen(path, "w");
  if (f) { fprintf(f, "property=%s\nharness=huge\ncodec=%s\nshape=%d\nwidth=%d\nn=%zu\ndetail=%s\n", prop, c->name, shape, w, n, d); fclose(f); }
  printf("VIOLATION property=%s replay=%s codec=%s shape=%s n=%zu %s\n", prop, path, c->name, shape_names[shape], n, d); fflush(stdout);
}
static volatile uint64_t serial, last; static int stuck;
static void on_tick(int s) { (void)s; if (deadline && now() - t0 > deadline) sh->stop = 2; if (serial == last && hx_armed) { if (++stuck >= 120) { stuck = 0; hx_armed = 0; siglongjmp(hx_jmp, SIGALRM); } } else { stuck = 0; last = serial; } }
static const char *signame(int s) { return s == SIGALRM ? "does not return" : s == SIGSEGV ? "invalid memory access" : s == SIGABRT ? "abort" : s == SIGFPE ? "arithmetic trap" : s == SIGILL ? "illegal instruction" : "signal"; }
static int one(const hx_codec *c, int shape, int w, size_t n, const int *lv, int nlv)
{
  const uint32_t N = (uint32_t)n, B = c->bounds(N); int bad = 0; uint64_t seen[8]; int nseen = 0;
  if (B > A_c.cap) { viol(c, shape, w, n, "bound %u for %u bytes", B, N); return 1; }
  for (int e = 0; e < nlv && !bad && !sh->stop; e++) {
    if (lv[e] >= hx_levels_available || (lv[e] == LV_NONE && hx_needs_sse2(c))) continue;
    int sig; uint32_t r = 0; uint8_t *pc = A_c.end - B; hx_set_level(lv[e]); serial++;
    HX_TRY(r = c->enc(in_, N, pc, B), sig); __sync_fetch_and_add(&sh->trans, 1);
    if (sig) { viol(c, shape, w, n, "compress at level %s: %s", hx_level_names[lv[e]], signame(sig)); bad = 1; break; }
    if (r > B) { viol(c, shape, w, n, "compress at level %s returned %u > %u", hx_level_names[lv[e]], r, B); bad = 1; break; }
    if (!r) { viol(c, shape, w, n, "compress at level %s failed with a buffer of the bound", hx_level_names[lv[e]]); bad = 1; break; }
    if (r < N) __sync_fetch_and_add(&sh->nontriv, 1);
    uint64_t h = r; for (size_t i = 0; i + 8 <= r; i += 8) { uint64_t v; memcpy(&v, pc + i, 8); h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 32; } for (size_t i = r & ~7u; i < r; i++) h = (h ^ pc[i]) * 0x100000001b3ull;
    int same = 0; for (int i = 0; i < nseen; i++) same |= seen[i] == h; if (same) continue; /* the same stream */
    seen[nseen++] = h;
    for (int d = 0; d < nlv && !bad && !sh->stop; d++) {
      if (lv[d] >= hx_levels_available || (lv[d] == LV_NONE && hx_needs_sse2(c))) continue;
      if (r > (1u << 20) && lv[d] != lv[e] && nlv < 3) continue;
      uint8_t *po = A_out.end - 128 - N; uint32_t q = 0; hx_set_level(lv[d]); serial++;
      for (size_t i = 0; i < N; i += 4096) po[i] = (uint8_t)~in_[i]; po[N - 1] = (uint8_t)~in_[N - 1]; /* no stale result survives in any page */
      HX_TRY(q = c->dec(pc, r, po, N), sig); __sync_fetch_and_add(&sh->trans, 1); __sync_fetch_and_add(&sh->evals, 1); serial++;
      if (sig) { viol(c, shape, w, n, "decompress at level %s (stream of level %s): %s", hx_level_names[lv[d]], hx_level_names[lv[e]], signame(sig)); bad = 1; }
      else if (q != N) { viol(c, shape, w, n, "decompress at level %s (stream of level %s) returned %u", hx_level_names[lv[d]], hx_level_names[lv[e]], q); bad = 1; }
      else if (memcmp(po, in_, N)) { size_t i = 0; while (po[i] == in_[i]) i++; viol(c, shape, w, n, "decompress at level %s (stream of level %s): wrong byte at %zu", hx_level_names[lv[d]], hx_level_names[lv[e]], i); bad = 1; }
    }
  }
  if (!sh->stop) __sync_fetch_and_add(&sh->cases, 1);
  return bad;
}
static const int L1[] = { LV_NONE, LV_AVX2 }, L2[] = { LV_NONE, LV_SSE2, LV_SSSE3, LV_SSE41, LV_AVX, LV_AVX2, LV_AVX512 };
static void setup(void) { hx_arena_init(&A_c, "compressed", MAXN + MAXN / 8 + 16384); hx_arena_init(&A_out, "output", MAXN + 16384); hx_install_handlers(); }
static int eligible(const hx_codec *c, int beyond) { return !beyond || c->fam == FAM_LE || c->fam == FAM_SH || c->fam == FAM_MMTF || c->fam == FAM_BITMMTF; }
int main(int argc, char **argv)
{
  const char *stats = NULL, *rp = NULL, *filter = ""; t0 = now(); sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int i = 1; i + 1 < argc; i += 2) {
    if (!strcmp(argv[i], "--prop")) prop = argv[i + 1]; else if (!strcmp(argv[i], "--depth")) depth = atoi(argv[i + 1]); else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[i + 1]); else if (!strcmp(argv[i], "--out")) outdir = argv[i + 1];
    else if (!strcmp(argv[i], "--stats")) stats = argv[i + 1]; else if (!strcmp(argv[i], "--deadline")) deadline = atoi(argv[i + 1]); else if (!strcmp(argv[i], "--codec")) filter = argv[i + 1]; else if (!strcmp(argv[i], "--replay")) rp = argv[i + 1]; else return 2;
  }
  const int *lv = depth >= 2 ? L2 : L1, nlv = depth >= 2 ? 7 : 2; hx_set_level(0);
  if (rp) {
    FILE *f = fopen(rp, "r"); if (!f) { perror(rp); return 2; } static char l[1024], cn[256]; int shape = 0, w = 1; size_t n = 0;
    while (fgets(l, sizeof l, f)) { sscanf(l, "codec=%255s", cn); sscanf(l, "shape=%d", &shape); sscanf(l, "width=%d", &w); sscanf(l, "n=%zu", &n); }
    fclose(f); int ci = hx_codec_by_name(cn); if (n > MAXN && n <= 0x90000005) MAXN = n; if (ci < 0 || !n || n > MAXN || w < 1 || w > 16 || shape < 0 || shape >= SHAPES) return 2;
    setup(); in_ = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); build(in_, n, w, shape); outdir = "/tmp"; depth = 2; 
    int b = one(&hx_codecs[ci], shape, w, n, L2, 7); if (!b) printf("replay: no violation\n"); return b;
  }
  /* inputs are built once and shared: one (shape, width) at a time */
  const int widths[] = { 1, 2, 3, 4, 6, 8, 16 }; in_ = mmap(NULL, MAXN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (in_ == MAP_FAILED) { perror("mmap"); return 2; }
  if (jobs > 7) jobs = 7;
  for (int beyond = 0; beyond < (depth >= 2 ? 2 : 1) && !sh->stop; beyond++) { /* second round: above 2^31 bytes, for the codecs without the limit of 2^30 */
  if (beyond) { munmap(in_, MAXN); MAXN = 0x90000005; in_ = mmap(NULL, MAXN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (in_ == MAP_FAILED) { perror("mmap"); return 2; } if (jobs > 3) jobs = 3; }
  for (int shape = depth >= 2 ? 0 : SHAPES - 1; shape < SHAPES && !sh->stop; shape++) for (int wi = 0; wi < 7 && !sh->stop; wi++) {
    int any = 0; for (int i = 0; i < hx_ncodecs; i++) any |= hx_codecs[i].width == widths[wi] && eligible(&hx_codecs[i], beyond) && strstr(hx_codecs[i].name, filter); if (!any) continue;
    build(in_, MAXN, widths[wi], shape); sh->next = 0; fflush(stdout); pid_t pids[8];
    for (int k = 0; k < jobs; k++) if (!(pids[k] = fork())) {
      setup(); signal(SIGALRM, on_tick); { struct sigaction sa = { 0 }; sa.sa_handler = on_tick; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(SIGALRM, &sa, NULL); } struct itimerval it = { { 1, 0 }, { 1, 0 } }; setitimer(ITIMER_REAL, &it, NULL);
      for (;;) { unsigned t = __sync_fetch_and_add(&sh->next, 1); if (t >= (unsigned)hx_ncodecs || sh->stop) break; const hx_codec *c = &hx_codecs[t]; if (c->width != widths[wi] || !eligible(c, beyond) || !strstr(c->name, filter)) continue; if (one(c, shape, widths[wi], MAXN, beyond ? L1 : lv, beyond ? 2 : nlv)) break; }
      fflush(stdout); _exit(0);
    }
    for (int k = 0; k < jobs; k++) { int st; while (waitpid(pids[k], &st, 0) < 0 && errno == EINTR) ; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "a worker was ended (memory)\n"); return 2; } viol(&hx_codecs[0], shape, widths[wi], MAXN, "process died (status 0x%x)", st); } }
  }
  }
  FILE *f = stats ? fopen(stats, "w") : stdout;
  fprintf(f, "{\"evaluations\": %llu, \"cases\": %llu, \"transitions\": %llu, \"nontrivial\": %llu, \"violations\": %u, \"complete\": %s, \"levels\": %d, \"codecs\": %d, \"wall\": %.2f, \"families\": {\"huge\": %llu}}\n", (unsigned long long)sh->evals, (unsigned long long)sh->cases, (unsigned long long)sh->trans, (unsigned long long)sh->nontriv, sh->nviol, sh->stop == 2 ? "false" : "true", hx_levels_available, hx_ncodecs, now() - t0, (unsigned long long)sh->cases);
  if (stats) fclose(f);
  return sh->nviol ? 1 : 0;
}
