/* C13 / C14: the command line tool's real main() and fuzz() with stand-in codecs. main.o and rle_fuzz.o are linked with every codec, allocation, file and
   clock function redirected to this file (see Makefile), the rest of the library is the real one.
   cli --prop C13|C14 --depth N [--out DIR] [--stats FILE] */
#include "par.h"
#include "rle.h"
#include "simd_platform.h"
#include <fcntl.h>
#include <math.h>
#include <strings.h>
#include <sys/resource.h>
#undef IN
#undef OUT
int hx_tool_main(int argc, char **argv);
bool fuzz(const size_t sectionCount, const bool iterative);

/* ------------------------------------------------------------------ environment of the tool */
typedef struct { uint8_t *base; size_t cap; int used; } slot;
static slot slots[24]; enum { SLOTCAP = 32768 };
static size_t g_off; static int ioFail, ioCount, ioKind; /* the ioFail-th environment call fails */
static int io_fault(void) { return ioFail && ++ioCount == ioFail; }
static void slots_init(void) { for (int i = 0; i < 24; i++) { uint8_t *p = mmap(NULL, SLOTCAP + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(p + 4096, SLOTCAP, PROT_READ | PROT_WRITE); slots[i].base = p + 4096; slots[i].cap = SLOTCAP; } }
static struct { uint8_t *p; size_t n; } bigs[32]; /* larger allocations, given back when the next run starts */
static void slots_reset(void) { for (int i = 0; i < 24; i++) slots[i].used = 0; for (int i = 0; i < 32; i++) if (bigs[i].p) { munmap(bigs[i].p, bigs[i].n); bigs[i].p = NULL; } }
static void *alloc_at(size_t n, size_t align, size_t off)
{
  if (n > ((size_t)1 << 34)) return NULL;
  uint8_t *end = NULL;
  if (n + 64 <= SLOTCAP) for (int i = 0; i < 24 && !end; i++) if (!slots[i].used) { slots[i].used = 1; end = slots[i].base + SLOTCAP; }
  if (!end) { size_t cap = (n + 64 + 4095) & ~(size_t)4095; uint8_t *p = mmap(NULL, cap + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return NULL; for (int i = 0; i < 32; i++) if (!bigs[i].p) { bigs[i].p = p; bigs[i].n = cap + 8192; break; } mprotect(p + 4096, cap, PROT_READ | PROT_WRITE); end = p + 4096 + cap; }
  uintptr_t a = (uintptr_t)(end - n); a = ((a - off) & ~(uintptr_t)(align - 1)) + off; if (a + n > (uintptr_t)end) a -= align;
  return (void *)a;
}
void *cli_malloc(size_t n) { if (io_fault()) return NULL; return alloc_at(n, 32, g_off); }
void *cli_aligned_alloc(size_t al, size_t n) { if (io_fault()) return NULL; return alloc_at(n, al < 16 ? 16 : al, 0); }
void *cli_calloc(size_t a, size_t b) { void *p = cli_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void cli_free(void *p) { for (int i = 0; i < 24; i++) if ((uint8_t *)p >= slots[i].base && (uint8_t *)p < slots[i].base + SLOTCAP) { slots[i].used = 0; return; } }
void *cli_realloc(void *p, size_t n) { uint8_t *q = cli_malloc(n); if (q && p) { size_t have = 0; for (int i = 0; i < 24; i++) if ((uint8_t *)p >= slots[i].base && (uint8_t *)p < slots[i].base + SLOTCAP) have = (size_t)(slots[i].base + SLOTCAP - (uint8_t *)p); for (int i = 0; i < 32; i++) if (bigs[i].p && (uint8_t *)p >= bigs[i].p && (uint8_t *)p < bigs[i].p + bigs[i].n) have = (size_t)(bigs[i].p + bigs[i].n - 4096 - (uint8_t *)p); if (have) memcpy(q, p, have < n ? have : n); cli_free(p); } return q; }
static FILE *opened[16]; /* the tool leaves files open when it gives up */
static FILE *track(FILE *f) { for (int i = 0; f && i < 16; i++) if (!opened[i]) { opened[i] = f; break; } return f; }
int cli_fclose(FILE *f) { for (int i = 0; i < 16; i++) if (opened[i] == f) opened[i] = NULL; return fclose(f); }
static void close_all(void) { for (int i = 0; i < 16; i++) if (opened[i]) { fclose(opened[i]); opened[i] = NULL; } }
static int failFd = -1; /* stands for fuzz-failure.bin */
FILE *cli_fopen(const char *path, const char *mode) { if (strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+')) { const char *b = strrchr(path, '/'); if (failFd >= 0 && !strcmp(b ? b + 1 : path, "fuzz-failure.bin")) { if (strchr(mode, 'w')) { if (ftruncate(failFd, 0)) return NULL; lseek(failFd, 0, SEEK_SET); } return track(fdopen(dup(failFd), mode)); } return track(fopen("/dev/null", "wb")); } if (io_fault()) return NULL; return track(fopen(path, mode)); }
size_t cli_fread(void *p, size_t a, size_t b, FILE *f) { size_t r = fread(p, a, b, f); if (io_fault()) return ioKind ? 0 : r - 1; return r; }
int cli_fseek(FILE *f, long o, int w) { if (io_fault()) return -1; return fseek(f, o, w); }
long cli_ftell(FILE *f) { if (io_fault()) return ioKind ? 0 : -1; return ftell(f); }
static uint64_t fakeNs = 1000000000ull; static uint64_t fakeStep = 1000, sleptNs;
int cli_usleep(unsigned us) { sleptNs += us * 1000ull; fakeNs += us * 1000ull; return 0; }
int cli_clock_gettime(int c, struct timespec *t) { (void)c; fakeNs += fakeStep; t->tv_sec = (time_t)(fakeNs / 1000000000ull); t->tv_nsec = (long)(fakeNs % 1000000000ull); return 0; }
static sigjmp_buf exitJmp; static int exitArmed; static volatile int exitStatus;
void cli_exit(int s) { if (exitArmed) { exitStatus = s & 255; siglongjmp(exitJmp, 1); } _exit(s); }
void cli_abort(void) { cli_exit(134); }

/* ------------------------------------------------------------------ stand-in codecs */
enum { K_NONE, K_ENC0, K_DEC0, K_DECM1, K_DECP1, K_DECHI, K_FLIP, K_NOTHING, K_SKIPTAIL, K_SHORTSZ, K_COUNT };
static const char *kindName[] = { "none", "compress returns 0", "decompress returns 0", "decompressed length - 1", "decompressed length + 1", "decompressed length + 65536", "flipped bit", "nothing written", "last bytes not written", "compressed size understated" };
static struct { int kind, codec; uint32_t pos; unsigned bit; } F; static int fired;
static int curEnc = -1; static uint32_t curN, curSize; static const uint8_t *curIn;
static int ran[256], nran; static uint64_t codecCalls, encCalls; static const char *misuse;
static bool flagsSeen[32]; static int flagsTaken;
static bool *const feat[] = { &sseSupported, &sse2Supported, &sse3Supported, &ssse3Supported, &sse41Supported, &sse42Supported, &avxSupported, &avx2Supported, &fma3Supported, &avx512FSupported, &avx512PFSupported, &avx512ERSupported, &avx512CDSupported, &avx512BWSupported, &avx512DQSupported, &avx512VLSupported, &avx512IFMASupported, &avx512VBMISupported, &avx512VNNISupported, &avx512VBMI2Supported, &avx512POPCNTDQSupported, &avx512BITALGSupported, &avx5124VNNIWSupported, &avx5124FMAPSSupported };
#define NFEAT (int)(sizeof feat / sizeof feat[0])
static void (*on_enc)(int id, uint32_t n), (*on_dec)(int id, uint32_t n);
static char *outBuf; static size_t outLen; static size_t outMark; static char seenName[256][48];
static void (*name_hook)(int id);
static uint32_t (*alt_enc)(int id, const uint8_t *in, uint32_t n, uint8_t *out, uint32_t m), (*alt_dec)(int id, const uint8_t *in, uint32_t s, uint8_t *out, uint32_t m);
static uint32_t stub_enc(int id, const uint8_t *in, uint32_t n, uint8_t *out, uint32_t m)
{
  codecCalls++; encCalls++; par->serial[par_wid]++; if (!flagsTaken) { flagsTaken = 1; for (int i = 0; i < NFEAT; i++) flagsSeen[i] = *feat[i]; }
  if (name_hook && (nran == 0 || ran[nran - 1] != id)) name_hook(id);
  if (nran < 256 && (nran == 0 || ran[nran - 1] != id)) ran[nran++] = id;
  curEnc = id; curN = n; curIn = in; curSize = 0;
  if (alt_enc) return alt_enc(id, in, n, out, m);
  const uint32_t b = hx_codecs[id].bounds(n); if (!in || !out || !n || m < b || b == 0) { misuse = "compressor called with invalid arguments"; return 0; }
  if (on_enc) on_enc(id, n);
  for (uint32_t i = 0; i < n; i++) out[i] = in[i] ^ 0x5A;
  if (b > n) memset(out + n, 0xEE, b - n > 4096 ? 4096 : b - n); out[b - 1] = b > n ? 0xEE : out[b - 1]; /* scratch use up to the bound is legitimate */
  if (F.kind && F.codec == id && (F.kind == K_ENC0 || F.kind == K_SHORTSZ)) fired = 1;
  if (F.kind == K_ENC0 && F.codec == id) return 0;
  curSize = n; if (F.kind == K_SHORTSZ && F.codec == id && n > 1) curSize = n - 1;
  return curSize;
}
static uint32_t stub_dec(const uint8_t *in, uint32_t s, uint8_t *out, uint32_t m)
{
  codecCalls++; par->serial[par_wid]++; const int id = curEnc; const uint32_t n = curN;
  if (alt_dec) return alt_dec(id, in, s, out, m);
  if (!in || !out || s < curSize || m < n) { misuse = "decompressor called with invalid arguments"; return 0; }
  if (on_dec) on_dec(id, n);
  const int f = F.codec == id ? F.kind : K_NONE; uint32_t k = n; if (f) fired = 1;
  if (f == K_NOTHING) return n;
  if (f == K_SKIPTAIL) k = F.pos < n ? F.pos : n - 1;
  for (uint32_t i = 0; i < k; i++) out[i] = in[i] ^ 0x5A;
  if (f == K_SKIPTAIL) return n;
  const uint32_t slack = hx_codecs[id].fam >= FAM_MMTF ? 0 : rle_decompress_additional_size(); memset(out + n, 0xDD, slack);
  if (f == K_FLIP) out[F.pos < n ? F.pos : n - 1] ^= (uint8_t)(1u << F.bit);
  return f == K_DEC0 ? 0 : f == K_DECM1 ? n - 1 : f == K_DECP1 ? n + 1 : f == K_DECHI ? n + 65536 : n;
}
#include "stubs.inc"

/* ------------------------------------------------------------------ running the tool */
static int inFd = -1; static char inPath[64]; static uint32_t inLen; static FILE *devnull;
static void set_input_data(const uint8_t *d, uint32_t n);
static void set_input(uint32_t n) { if (inFd < 0) { inFd = memfd_create("in", 0); snprintf(inPath, sizeof inPath, "/proc/self/fd/%d", inFd); } if (n == inLen) return; static uint8_t *b; static uint32_t cap; if (cap < n) { free(b); b = malloc(cap = n < 70000 ? 70000 : n); } for (uint32_t i = 0; i < n; i++) b[i] = (uint8_t)(1 + (i * 7 + i / 251) % 255); if (ftruncate(inFd, 0) || pwrite(inFd, b, n, 0) != (ssize_t)n) _exit(3); inLen = n; }
static void set_input_data(const uint8_t *d, uint32_t n) { if (inFd < 0) set_input(1); if (ftruncate(inFd, 0) || pwrite(inFd, d, n, 0) != (ssize_t)n) _exit(3); inLen = ~0u; }
static char cmdline[512];
static int run_tool(const char *const *args, int nargs, int capture)
{
  char *argv[48]; int argc = 0; argv[argc++] = (char *)"hsrlekit"; argv[argc++] = inPath; for (int i = 0; i < nargs; i++) argv[argc++] = (char *)args[i]; argv[argc] = NULL;
  slots_reset(); ioCount = 0; nran = 0; encCalls = 0; flagsTaken = 0; misuse = NULL; curEnc = -1; fired = 0; p_trans++; par->serial[par_wid]++;
  FILE *old = stdout; if (capture) { outBuf = NULL; outLen = outMark = 0; stdout = open_memstream(&outBuf, &outLen); } else stdout = devnull;
  int st = -1, sig; exitArmed = 1;
  if (!sigsetjmp(exitJmp, 1)) { HX_TRY(st = hx_tool_main(argc, argv) & 255, sig); if (sig) st = 128 + sig; } else { hx_armed = 0; st = exitStatus; }
  exitArmed = 0;
  if (capture) fclose(stdout); stdout = old; close_all();
  return st;
}
static void cmd_str(const char *const *args, int n) { cmdline[0] = 0; for (int i = 0; i < n; i++) { strncat(cmdline, " ", sizeof cmdline - strlen(cmdline) - 1); strncat(cmdline, args[i], sizeof cmdline - strlen(cmdline) - 1); } }
static void all_features(void) { _CpuFeaturesDetected = true; for (int i = 0; i < NFEAT; i++) *feat[i] = true; }
/* platform of a given rank: 0 none 1 sse2 2 sse3 3 ssse3 4 sse4.1 5 sse4.2 6 avx 7 avx2 8 avx512f */
static int rank_of(int f) { return f == 0 ? -1 : f <= 6 ? f : f <= 8 ? 7 : 8; }
static void platform(int rank) { all_features(); for (int i = 0; i < NFEAT; i++) *feat[i] = rank_of(i) <= rank; }

static void worker_init(void) { static int done; if (done) return; done = 1; slots_init(); devnull = fopen("/dev/null", "w"); struct rlimit r = { 0, 0 }; setrlimit(RLIMIT_CORE, &r); }

/* ------------------------------------------------------------------ C13 */
static const char *const testArgs[][8] = { { "--test", "--min-time", "0", "--runs", "0" }, { "--test", "--min-time", "0", "--runs", "3" }, { "--test", "--min-time", "0", "--runs", "2", "--sd" }, { "--test" }, { "--runs", "0", "--test" } };
static int nargs_of(int a) { int n = 0; while (n < 8 && testArgs[a][n]) n++; return n; }
static int exempt(int id, int kind, int rank)
{
  const char *n = hx_codecs[id].name;
  if (!strcmp(n, "mmtf256_encode") && ((kind == K_ENC0 && rank < 6) || (kind == K_DEC0 && rank < 1))) return 1;
  if (!strcmp(n, "mmtf128_encode") && (kind == K_ENC0 || kind == K_DEC0) && rank < 1) return 1;
  return 0;
}
static const char *const simdName[] = { "none", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "avx512f" };
static int c13_expect(const char *const *args, int na, int fail, int rank)
{
  all_features(); p_cases++; p_evals++; if (fail) p_nontriv++;
  cmd_str(args, na); PAR_WHAT("hsrlekit FILE(%u bytes)%s with %s: %s at %u.%u%s", inLen, cmdline, F.kind ? hx_codecs[F.codec].name : "correct codecs", kindName[F.kind], F.pos, F.bit, ioFail ? ", failing environment call" : "");
  const int st = run_tool(args, na, 0); (void)rank;
  if (F.kind && !fired) { par_viol("the codec was not exercised (exit status %d%s%s)", st, misuse ? "; " : "", misuse ? misuse : ""); return 0; }
  if (ioFail && ioCount < ioFail) return 1; /* fewer environment calls than that */
  if (fail ? st == 0 : st != 0) { par_viol("exit status %d, expected %s%s%s", st, fail ? "a failure" : "success", misuse ? "; " : "", misuse ? misuse : ""); return 0; }
  return 1;
}
static const uint32_t tsizes[] = { 1, 2, 7, 16, 31, 32, 33, 64, 100, 129, 255, 256, 257, 1000, 4096, 65536 };

/* fuzz driver: faults are injected into forked copies of the driver, at the call where they occur */
static uint32_t fz_lo, fz_hi, fz_stop; static int fz_codecMode; static sigjmp_buf fzJmp; static int fz_entry; static uint64_t fz_iter; static int fz_iterMax; static int fz_part, fz_parts; static int fz_sect = 1;
static int fz_child; static uint64_t fz_count;
/* the file the fuzzer leaves behind holds exactly the input that was not restored */
static int failure_file(int kind)
{
  const off_t len = lseek(failFd, 0, SEEK_END); static uint8_t *buf; static size_t cap; if (cap < (size_t)len + 1) { free(buf); buf = malloc(cap = (size_t)len + 1); }
  const ssize_t got = pread(failFd, buf, (size_t)len, 0); if (ftruncate(failFd, 0)) _exit(3); lseek(failFd, 0, SEEK_SET);
  if (kind == K_FLIP || kind == K_NOTHING || kind == K_SKIPTAIL) { if (got != (ssize_t)curN || memcmp(buf, curIn, curN)) { par_viol("fuzz-failure.bin holds %lld bytes%s, the failing input has %u", (long long)len, got == (ssize_t)curN ? " which differ from the input" : "", curN); return 0; } }
  return 1;
}
static int inject(int kind, int id, uint32_t pos, unsigned bit)
{
  if (PAR_STOP()) siglongjmp(fzJmp, 2);
  if (fz_count++ % (uint64_t)fz_parts != (uint64_t)fz_part) return 0;
  p_cases++; p_evals++; p_nontriv++; p_trans++; par->serial[par_wid]++;
  PAR_WHAT("%s, input of %u bytes (#%llu), %s: %s at %u.%u", fz_entry == 0 ? "fuzz(1, true)" : fz_entry == 1 ? "--fuzz-iterative" : "--fuzz-random", curN, (unsigned long long)fz_iter, hx_codecs[id].name, kindName[kind], pos, bit);
  pid_t p = fork(); if (p < 0) _exit(4);
  if (!p) { fz_child = 1; signal(SIGALRM, SIG_DFL); signal(SIGILL, SIG_DFL); signal(SIGTRAP, SIG_DFL); alarm(60); on_enc = on_dec = NULL; F.kind = kind; F.codec = id; F.pos = pos; F.bit = bit; return 1; }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
  if (failFd >= 0 && !failure_file(kind)) siglongjmp(fzJmp, 2);
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGILL || WTERMSIG(st) == SIGTRAP || WTERMSIG(st) == SIGABRT)) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) != 0) return 0;
  par_viol("the fuzzer went on%s", WIFEXITED(st) ? " and ended with success" : WTERMSIG(st) == SIGALRM ? " (stopped after 60 s)" : " and crashed"); siglongjmp(fzJmp, 2);
}
static void fz_enc(int id, uint32_t n)
{
  if (id == 0) fz_iter++;
  if (fz_iterMax && fz_iter > (uint64_t)fz_iterMax) siglongjmp(fzJmp, 1);
  if (n > fz_stop) siglongjmp(fzJmp, 1);
  if (n < fz_lo || n > fz_hi) return;
  if (fz_codecMode ) { if (inject(K_ENC0, id, 0, 0)) return; if (n > 1 && inject(K_SHORTSZ, id, 0, 0)) return; }
}
static void fz_dec(int id, uint32_t n)
{
  if (n < fz_lo || n > fz_hi) return;
  if (fz_codecMode) {
    static const int ks[] = { K_DEC0, K_DECM1, K_DECP1, K_DECHI }; for (int i = 0; i < 4; i++) { if (ks[i] == K_DECM1 && n == 1 && 0) continue; if (inject(ks[i], id, 0, 0)) return; }
    int nz = 0; for (uint32_t i = 0; i < n && !nz; i++) nz = curIn[i] != 0; if (nz && inject(K_NOTHING, id, 0, 0)) return;
    if (curIn[n - 1] && inject(K_SKIPTAIL, id, n - 1, 0)) return;
    const uint32_t ps[] = { 0, n / 2, n - 1 }; for (int i = 0; i < 3; i++) if ((i == 0 || ps[i] != ps[i - 1]) && inject(K_FLIP, id, ps[i], (unsigned)(id + i) % 8)) return;
    return;
  }
  if (id != 0) return;
  if (n <= 300) { for (uint32_t p = 0; p < n; p++) for (unsigned b = 0; b < 8; b++) if (inject(K_FLIP, id, p, b)) return; return; }
  for (uint32_t p = 0; p < n; p++) { const int edge = p < 132 || p + 164 >= n; if (!edge && p % 61 != n % 61) continue; if (inject(K_FLIP, id, p, p % 8)) return; }
}
static void fz_run(int entry, size_t off)
{
  slots_reset(); g_off = off; fz_entry = entry; fz_iter = 0; fz_count = 0; F.kind = 0; ioFail = 0; on_enc = fz_enc; on_dec = fz_dec; stdout = devnull; all_features();
  const int j = sigsetjmp(fzJmp, 1);
  if (!j) {
    int ok; exitArmed = 0;
    if (entry == 0) ok = fuzz((size_t)fz_sect, true) ? 0 : 1;
    else { char *argv[4] = { (char *)"hsrlekit", (char *)"x", (char *)(entry == 1 ? "--fuzz-iterative" : "--fuzz-random"), NULL }; ok = hx_tool_main(3, argv); }
    if (fz_child) _exit(ok & 255);
    if (ok != 0) { PAR_WHAT("fuzz driver with correct codecs"); par_viol("ended with status %d%s%s", ok, misuse ? "; " : "", misuse ? misuse : ""); }
  }
  on_enc = on_dec = NULL; g_off = 16; close_all();
}
static void t_c13(unsigned t)
{
  worker_init(); F.kind = 0; ioFail = 0; g_off = 16; fakeStep = 1000; const int deep = par_depth >= 2;
  if (t == 0) { /* correct codecs: the fuzzer's complete one-section sequence ends with success */
    PAR_WHAT("fuzz(1, true) with correct codecs"); p_cases++; p_evals++; fz_lo = 1; fz_hi = 0; fz_stop = ~0u; fz_iterMax = deep ? 0 : 600; fz_codecMode = 0; fz_parts = 1; fz_part = 0; fz_run(0, 16); return; }
  if (t <= 16) { /* every bit of every position, all input lengths of the fuzzer's first section; both buffer alignments */
    fz_codecMode = 0; fz_iterMax = 0; fz_lo = 1; fz_hi = fz_stop = deep ? 20000 : 900; fz_parts = 8; fz_part = (int)(t - 1) % 8; fz_run(0, t <= 8 ? 16 : 0); return; }
  if (t <= 24) { /* every codec and kind */
    fz_codecMode = 1; fz_iterMax = 0; fz_parts = 8; fz_part = (int)(t - 17); static const uint32_t ls[] = { 1, 2, 8, 33, 129, 256 }; for (int i = 0; i < (deep ? 6 : 3); i++) { fz_lo = fz_hi = fz_stop = ls[deep ? i : 2 * i]; fz_run(0, 16); if (PAR_STOP()) return; } return; }
  if (t <= 32) { fz_codecMode = 1; fz_iterMax = deep ? 3 : 1; fz_lo = 1; fz_hi = fz_stop = ~0u; fz_parts = 8; fz_part = (int)(t - 25); fz_run(1, 16); if (PAR_STOP()) return; fz_iterMax = deep ? 3 : 1; fz_run(2, 16); return; }
  unsigned u = t - 33;
  if (u < 120) { /* test mode: codec u, every kind x size x options */
    const int id = (int)u; if (id >= hx_ncodecs) return;
    for (int a = 0; a < 5; a++) for (int s = 0; s < 16; s++) {
      if (tsizes[s] > 4096 && !deep && (id % 10 || a > 1)) continue; if (!deep && a == 3 && s % 4) continue;
      set_input(tsizes[s]); fakeStep = a == 3 || a == 4 ? 300000000ull : 1000;
      for (int k = 1; k < K_COUNT; k++) { if (k == K_SHORTSZ && tsizes[s] == 1) continue; F.kind = k; F.codec = id; F.pos = k == K_SKIPTAIL ? tsizes[s] - 1 : (tsizes[s] - 1) * (uint32_t)(id % 3) / 2; F.bit = (unsigned)(id + s) % 8; if (PAR_STOP() || !c13_expect(testArgs[a], nargs_of(a), 1, 8)) return; }
    }
    fakeStep = 1000; set_input(100);
    for (int r = 0; r < 9; r++) for (int k = 1; k < K_COUNT; k++) { const char *args[8]; int n = nargs_of(0); memcpy(args, testArgs[0], sizeof args); args[n++] = "--max-simd"; args[n++] = simdName[r]; F.kind = k; F.codec = id; F.pos = 99; F.bit = (unsigned)k % 8; if (PAR_STOP() || !c13_expect(args, n, !exempt(id, k, r), r)) return; }
    return;
  }
  u -= 120;
  if (u < 16) { /* every position and bit for every file size, first codec */
    for (uint32_t n = 1 + u; n <= (deep ? 1100u : 300u); n += 16) { set_input(n); F.kind = K_FLIP; F.codec = 0; for (F.pos = 0; F.pos < n; F.pos++) for (F.bit = 0; F.bit < 8; F.bit++) if (PAR_STOP() || !c13_expect(testArgs[0], nargs_of(0), 1, 8)) return; }
    return;
  }
  u -= 16;
  if (u < 8) { /* correct codecs: success for every size and option set */
    for (uint32_t n = 1 + u; n <= (deep ? 5000u : 700u); n += 8) for (int a = 0; a < 5; a++) { if (a == 3 && n % 16 != 1) continue; set_input(n); fakeStep = a >= 3 ? 300000000ull : 1000; F.kind = 0; if (PAR_STOP() || !c13_expect(testArgs[a], nargs_of(a), 0, 8)) return; }
    fakeStep = 1000; return;
  }
  u -= 8;
  if (u < 8) { /* a larger file: positions around every power of two */
    const uint32_t n = deep ? (96u << 20) + 7 : (24u << 20) + 7; set_input(n); F.kind = K_FLIP; F.bit = 3; unsigned i = 0; const int ids[] = { 0, 57, 119 };
    for (int c = 0; c < (deep ? 3 : 1); c++) for (int k = 12; (1u << k) - 1 < n; k++) for (int d = -1; d <= 1; d++) { if (i++ % 8 != u) continue; if ((1u << k) + (uint32_t)d >= n) continue; F.codec = ids[c]; F.pos = (1u << k) + (uint32_t)d; if (PAR_STOP() || !c13_expect(testArgs[0], nargs_of(0), 1, 8)) return; }
    F.codec = 0; for (uint32_t d = 1; d <= 130; d++) { if (d > 3 && d % 16 > 1) continue; if (i++ % 8 != u) continue; F.pos = n - d; if (PAR_STOP() || !c13_expect(testArgs[0], nargs_of(0), 1, 8)) return; }
    inLen = 0; return;
  }
  /* environment failures: each of the first calls, one at a time; unreadable files */
  set_input(300); static const char *const bench[] = { "--runs", "0", "--min-time", "0" };
  for (int mode = 0; mode < 2; mode++) for (ioKind = 0; ioKind < 2; ioKind++) for (ioFail = 1; ioFail <= 12; ioFail++) if (!c13_expect(mode ? bench : testArgs[0], mode ? 4 : nargs_of(0), 1, 8)) { ioFail = 0; return; }
  ioFail = 0; static const char *const bad[] = { "/nonexistent/file", "/proc/self/nothing", "/", "" , "/dev/null" };
  for (int i = 0; i < 5; i++) for (int mode = 0; mode < 2; mode++) { char keep[64]; memcpy(keep, inPath, 64); snprintf(inPath, 64, "%s", bad[i]); p_nontriv++; F.kind = 0; const int ok = c13_expect(mode ? bench : testArgs[0], mode ? 4 : nargs_of(0), 1, 8); if (!ok) return; memcpy(inPath, keep, 64); }
}

/* ------------------------------------------------------------------ C14 */
typedef struct { int mode, bits, align, single, packed, shrt, greedy, lut; } attrs; /* mode 0 extreme 1 low entropy 2 sh 3 rle-mmtf 4 mmtf 5 memcpy; align 0 none 1 symbol 2 byte; single 2: not applicable */
static attrs AT[256];
static int tok(const char *n, const char *t) { size_t l = strlen(t); for (const char *p = n; (p = strstr(p, t)); p += 1) if ((p == n || p[-1] == '_') && (p[l] == '_' || !p[l])) return 1; return 0; }
static void attrs_init(void)
{
  for (int i = 0; i < hx_ncodecs; i++) {
    const char *n = hx_codecs[i].name; attrs *a = &AT[i]; const int f = hx_codecs[i].fam;
    a->mode = f <= FAM_SHORT ? 0 : f == FAM_LE ? 1 : f == FAM_SH ? 2 : f == FAM_RLEMMTF ? 3 : 4;
    a->bits = f == FAM_RLEMMTF || !strcmp(n, "mmtf128_encode") ? 128 : !strcmp(n, "mmtf256_encode") ? 256 : !strcmp(n, "bitmmtf16_encode") ? 16 : atoi(f <= FAM_SHORT ? n + 3 : "8");
    a->align = tok(n, "sym") ? 1 : tok(n, "byte") ? 2 : 0; a->packed = tok(n, "packed"); a->shrt = tok(n, "short"); a->greedy = tok(n, "greedy");
    a->single = tok(n, "single") || strstr(n, "only_max_frequency") ? 1 : f == FAM_SH || f == FAM_RLEMMTF || f == FAM_MMTF ? 2 : 0;
    a->lut = tok(n, "1symlut") || a->packed ? 1 : tok(n, "3symlut") ? 3 : tok(n, "7symlut") ? 7 : 0;
  }
  attrs *m = &AT[hx_ncodecs]; m->mode = 5; m->bits = -1;
}
static int name_ok(const char *s, const attrs *a)
{
  char t[32]; if (a->mode == 5) return strstr(s, "memcpy") != NULL;
  if (a->mode == 4) { snprintf(t, 32, a->bits >= 128 ? "Multi MTF %d" : "Bit MMTF %d", a->bits); return strstr(s, t) != NULL; }
  if (a->mode == 3) return strstr(s, "MMTF 128") != NULL && !strstr(s, "Transform"); if (a->mode == 2) return strstr(s, "Huffman") != NULL;
  if (a->mode == 0) { snprintf(t, 32, "%d Bit", a->bits); if (strncmp(s, t, strlen(t))) return 0; } else if (strncmp(s, "Low Entropy", 11)) return 0;
  if (!!strstr(s, "Single") != (a->single == 1) || !!strstr(s, "Short") != a->shrt || !!strstr(s, "Packed") != a->packed || !!strstr(s, "Grdy") != a->greedy || !!strstr(s, "(Symbol)") != (a->align == 1) || !!strstr(s, "(Byte)") != (a->align == 2)) return 0;
  snprintf(t, 32, "%dLUT", a->lut); if (a->lut && !a->packed ? !strstr(s, t) : !!strstr(s, "LUT")) return 0; return 1;
}
static char badName[96];
static void c14_name(int id)
{
  fflush(stdout); if (!outBuf) return; const char *p = outBuf + outLen, *q; while (p > outBuf && p[-1] != '\n' && p[-1] != '\r') p--; q = strchr(p, '|'); char nm[48]; size_t l = q ? (size_t)(q - p) : strlen(p); if (l > 47) l = 47; memcpy(nm, p, l); nm[l] = 0;
  if (!name_ok(nm, &AT[id]) && !badName[0]) snprintf(badName, sizeof badName, "'%s' ran %s", nm, hx_codecs[id].name);
}
typedef struct { unsigned modes; int align, single, packed, shrt, greedy, lut, bits; } sel; /* -1: not given; align/single/... 0 no 1 yes (align: 1 symbol 2 byte) */
static int match(const sel *s, const attrs *a)
{
  for (int m = 0; m < 5; m++) if ((s->modes >> m & 1) && a->mode != m) return 0;
  if (s->align >= 0 && a->align != s->align) return 0;
  if (s->single >= 0 && a->single != s->single) return 0;
  if (s->packed >= 0 && a->packed != s->packed) return 0;
  if (s->shrt >= 0 && a->shrt != s->shrt) return 0;
  if (s->greedy >= 0 && a->greedy != s->greedy) return 0;
  if (s->lut >= 0 && a->lut != s->lut) return 0;
  if (s->bits >= 0 && a->bits != s->bits) return 0;
  return 1;
}
static int contradictory(const sel *s)
{
  if ((s->modes & 1) && s->single == 1 && s->bits >= 0 && s->bits != 8) return 1;
  if ((s->modes & 1) && s->bits == 256) return 1;
  if ((s->modes & 24) && s->bits >= 0 && s->bits != 8 && s->bits != 16 && s->bits != 128 && s->bits != 256) return 1;
  return 0;
}
/* judged run: expect 0 reject (nonzero, no codec ran), 1 exactly the selected codecs */
static int c14_run(const char *const *args, int n, const sel *s, int expect, int rank, int capture)
{
  cmd_str(args, n); PAR_WHAT("hsrlekit FILE%s", cmdline); p_cases++; p_evals++; badName[0] = 0; name_hook = capture ? c14_name : NULL;
  const int st = run_tool(args, n, capture); name_hook = NULL;
  if (!expect) {
    if (st == 0) { par_viol("accepted (status 0)"); goto bad; }
    if (nran) { par_viol("rejected only after running codecs"); goto bad; }
    if (capture) free(outBuf); return 1;
  }
  p_nontriv++;
  if (st != 0) { par_viol("ended with status %d%s%s", st, misuse ? "; " : "", misuse ? misuse : ""); goto bad; }
  { uint8_t did[256] = { 0 }; for (int i = 0; i < nran; i++) did[ran[i]]++;
    for (int i = 0; i < hx_ncodecs; i++) { const int want = match(s, &AT[i]); if (want != (did[i] > 0)) { par_viol("%s %s", hx_codecs[i].name, want ? "was not run although it has all requested attributes" : "was run although it lacks a requested attribute"); goto bad; } if (did[i] > 1) { par_viol("%s was run in more than one row", hx_codecs[i].name); goto bad; } } }
  if (badName[0]) { par_viol("listed as %s", badName); goto bad; }
  if (capture) { const int mc = outBuf && strstr(outBuf, "memcpy") != NULL, want = match(s, &AT[hx_ncodecs]); free(outBuf); if (mc != want) { par_viol("memcpy %s", want ? "was not run" : "was run although it lacks a requested attribute"); return 0; } }
  if (flagsTaken) for (int i = 0; i < NFEAT; i++) { const int want = rank_of(i) <= rank; if (i == 0) continue; if (flagsSeen[i] != want) { par_viol("feature flag #%d is %d, expected %d", i, flagsSeen[i], want); return 0; } }
  return 1;
bad: if (capture) free(outBuf); return 0;
}
static const char *const modeOpt[] = { "--extreme", "--low-entropy", "--sh", "--rle-mmtf", "--mmtf" };
static const int bitsV[] = { 8, 16, 24, 32, 48, 64, 128, 256 }; static const char *const bitsS[] = { "8", "16", "24", "32", "48", "64", "128", "256" };
static const int lutV[] = { 0, 1, 3, 7 }; static const char *const lutS[] = { "0", "1", "3", "7" };
static int build(const sel *s, const char **args, int order)
{
  const char *g[16][2]; int ng = 0;
  for (int m = 0; m < 5; m++) if (s->modes >> m & 1) { g[ng][0] = modeOpt[m]; g[ng++][1] = NULL; }
  if (s->align >= 0) { g[ng][0] = s->align == 1 ? "--symbol-aligned" : "--byte-aligned"; g[ng++][1] = NULL; }
  if (s->single >= 0) { g[ng][0] = s->single ? "--single" : "--multi"; g[ng++][1] = NULL; }
  if (s->packed >= 0) { g[ng][0] = s->packed ? "--packed" : "--not-packed"; g[ng++][1] = NULL; }
  if (s->shrt >= 0) { g[ng][0] = s->shrt ? "--short" : "--not-short"; g[ng++][1] = NULL; }
  if (s->greedy >= 0) { g[ng][0] = s->greedy ? "--greedy" : "--not-greedy"; g[ng++][1] = NULL; }
  if (s->lut >= 0) { for (int i = 0; i < 4; i++) if (lutV[i] == s->lut) { g[ng][0] = "--lut-size"; g[ng][1] = lutS[i]; } ng++; }
  if (s->bits >= 0) { for (int i = 0; i < 8; i++) if (bitsV[i] == s->bits) { g[ng][0] = "--x-size"; g[ng][1] = bitsS[i]; } ng++; }
  int n = 0; static const char *const fix[] = { "--runs", "0", "--min-time", "0" };
  if (order == 0) for (int i = 0; i < 4; i++) args[n++] = fix[i];
  for (int k = 0; k < ng; k++) { const int i = order == 0 ? k : order == 1 ? ng - 1 - k : (k + order) % ng; args[n++] = g[i][0]; if (g[i][1]) args[n++] = g[i][1]; }
  if (order) for (int i = 0; i < 4; i++) args[n++] = fix[i];
  return n;
}
static void t_c14(unsigned t)
{
  worker_init(); attrs_init(); set_input(3); F.kind = 0; ioFail = 0; g_off = 16; fakeStep = 1000; const char *args[48]; const int deep = par_depth >= 2;
  if (t < 96) { /* every combination of attributes */
    const unsigned modes = t / 3; const int al = (int)(t % 3);
    for (int c = 0; c < 81 * 45; c++) {
      if (PAR_STOP()) return; int x = c; sel s = { modes, al == 0 ? -1 : al, 0, 0, 0, 0, 0, 0 };
      s.single = x % 3 - 1; x /= 3; s.packed = x % 3 - 1; x /= 3; s.shrt = x % 3 - 1; x /= 3; s.greedy = x % 3 - 1; x /= 3; s.lut = x % 5 ? lutV[x % 5 - 1] : -1; x /= 5; s.bits = x ? bitsV[x - 1] : -1;
      for (int order = 0; order < (deep ? 4 : 1); order++) { all_features(); const int n = build(&s, args, deep ? order : c % 3); if (!c14_run(args, n, &s, !contradictory(&s), 8, deep || (c % 16) == 0 || (c % 81) == 0)) return; }
    }
    return;
  }
  if (t < 100) { /* SIMD limits on every platform, also in sequence */
    const sel all = { 0, -1, -1, -1, -1, -1, -1, -1 };
    for (int pl = (int)t - 96; pl < 9; pl += 4) for (int a = -1; a < 9; a++) for (int b = -1; b < 9; b++) {
      if (a < 0 && b >= 0) continue; platform(pl); int n = 0, rank = pl, ok = 1; args[n++] = "--runs"; args[n++] = "0"; args[n++] = "--min-time"; args[n++] = "0";
      if (a >= 0) { args[n++] = "--max-simd"; args[n++] = simdName[a]; if (a > rank) ok = 0; rank = a; } if (b >= 0) { args[n++] = "--max-simd"; args[n++] = simdName[b]; if (b > rank) ok = 0; rank = b; }
      if (PAR_STOP()) return; char w[64]; snprintf(w, 64, "platform %s", simdName[pl]); if (!c14_run(args, n, &all, ok, rank, 1)) return;
    }
    static const char *const badSimd[] = { "", "avx51", "avx512", "avx512ff", "AVX2", "sse", "sse4", "sse41", "sse22", "non", "2", "--test" };
    for (int i = 0; i < 12; i++) { all_features(); args[0] = "--max-simd"; args[1] = badSimd[i]; if (PAR_STOP() || !c14_run(args, 2, &all, 0, 8, 1)) return; }
    return;
  }
  if (t == 100) { /* every pair of settings of one attribute, in both orders, with and without something in between */
    static const char *const grp[][6] = { { "--single", "--multi" }, { "--short", "--not-short", "--low-entropy-short" }, { "--greedy", "--not-greedy" }, { "--packed", "--not-packed" }, { "--byte-aligned", "--symbol-aligned" } };
    const sel none = { 0, -1, -1, -1, -1, -1, -1, -1 }; static const char *const mid[] = { NULL, "--test", "--sd", "--extreme", "--analyze" };
    for (int g = 0; g < 5; g++) for (int a = 0; a < 6 && grp[g][a]; a++) for (int b = 0; b < 6 && grp[g][b]; b++) for (int m = 0; m < 5; m++) { int n = 0; args[n++] = grp[g][a]; if (mid[m]) args[n++] = mid[m]; args[n++] = grp[g][b]; args[n++] = "--runs"; args[n++] = "0"; args[n++] = "--min-time"; args[n++] = "0"; all_features(); if (PAR_STOP() || !c14_run(args, n, &none, 0, 8, 1)) return; }
    for (int v = 0; v < 2; v++) for (int a = 0; a < (v ? 8 : 4); a++) for (int b = 0; b < (v ? 8 : 4); b++) for (int m = 0; m < 5; m++) { const char *const o = v ? "--x-size" : "--lut-size"; const char *const *vals = v ? bitsS : lutS; int n = 0; args[n++] = o; args[n++] = vals[a]; if (mid[m]) args[n++] = mid[m]; args[n++] = o; args[n++] = vals[b]; args[n++] = "--runs"; args[n++] = "0"; args[n++] = "--min-time"; args[n++] = "0"; all_features(); if (PAR_STOP() || !c14_run(args, n, &none, 0, 8, 1)) return; }
    return;
  }
  if (t == 101) { /* unknown options and values, missing values, at every position */
    const sel none = { 0, -1, -1, -1, -1, -1, -1, -1 };
    static const char *const bad[][2] = { { "--foo", 0 }, { "--extrem", 0 }, { "--extremee", 0 }, { "--tes", 0 }, { "--testt", 0 }, { "-test", 0 }, { "--packe", 0 }, { "--packedd", 0 }, { "--shor", 0 }, { "--shorty", 0 }, { "--sing", 0 }, { "--low-entrop", 0 }, { "--low-entropy-shor", 0 }, { "--mmtff", 0 }, { "--rle-mmt", 0 }, { "--shh", 0 }, { "--x-siz", "8" }, { "--lut-siz", "1" }, { "", 0 }, { "x", 0 }, { "--x-size", "9" }, { "--x-size", "0" }, { "--x-size", "x" }, { "--x-size", "" }, { "--x-size", "5" }, { "--x-size", "7" }, { "--x-size", "1" }, { "--x-size", "2" }, { "--lut-size", "2" }, { "--lut-size", "4" }, { "--lut-size", "x" }, { "--lut-size", "" }, { "--lut-size", "9" }, { "--runs", "-1" }, { "--runs", "-100" }, { "--min-time", "-1" }, { "--max-sim", "avx2" } };
    static const char *const ctx[] = { "--extreme", "--test", "--multi" };
    for (int i = 0; i < (int)(sizeof bad / sizeof bad[0]); i++) for (int pos = 0; pos < 4; pos++) { int n = 0; for (int k = 0; k < 4; k++) { if (k == pos) { args[n++] = bad[i][0]; if (bad[i][1]) args[n++] = bad[i][1]; } if (k < 3) args[n++] = ctx[k]; } args[n++] = "--runs"; args[n++] = "0"; args[n++] = "--min-time"; args[n++] = "0"; all_features(); if (PAR_STOP() || !c14_run(args, n, &none, 0, 8, 1)) return; }
    static const char *const val[] = { "--x-size", "--lut-size", "--runs", "--min-time", "--max-simd" };
    for (int i = 0; i < 5; i++) for (int c = 0; c < 4; c++) { int n = 0; for (int k = 0; k < c; k++) args[n++] = ctx[k]; args[n++] = val[i]; all_features(); if (PAR_STOP() || !c14_run(args, n, &none, 0, 8, 1)) return; }
    return;
  }
  if (t < 108) { /* options which do not concern the selection leave it alone, at every position; --low-entropy-short */
    for (int c = (int)t - 102; c < 729; c += 6) for (int extra = 0; extra < 8; extra++) for (int pos = 0; pos < 3; pos++) {
      int x = c; sel s = { 0, -1, -1, -1, -1, -1, -1, -1 }; s.modes = x % 3 ? 1u << (x % 3 - 1) : 0; x /= 3; s.single = x % 3 - 1; x /= 3; s.shrt = x % 3 - 1; x /= 3; s.packed = x % 3 - 1; x /= 3; s.bits = x % 3 ? bitsV[x % 3 - 1] : -1; x /= 3; s.lut = x % 3 ? lutV[x % 3 - 1] : -1;
      const char *a0[48]; int n0 = build(&s, a0, 1), n = 0; if (extra == 7) { if (s.shrt >= 0) continue; s.shrt = 1; s.modes |= 2; }
      for (int k = 0; k <= n0; k++) { if (k == (pos == 0 ? 0 : n0) || (pos == 1 && 0)) { if (pos != 2 || k == n0) { if (extra & 1 && extra != 7) args[n++] = "--test"; if (extra & 2 && extra != 7) args[n++] = "--sd"; if (extra == 7) args[n++] = "--low-entropy-short"; if (extra == 4 || extra == 5 || extra == 6) { args[n++] = "--max-simd"; args[n++] = "avx2"; } } } if (k < n0) args[n++] = a0[k]; }
      all_features(); if (PAR_STOP() || !c14_run(args, n, &s, !contradictory(&s), extra >= 4 && extra <= 6 ? 7 : 8, 1)) return;
    }
    return;
  }
  /* no option at all: everything is run, with the default repetition count (fake clock) */
  { const sel all = { 0, -1, -1, -1, -1, -1, -1, -1 }; fakeStep = 300000000ull; all_features(); c14_run(args, 0, &all, 1, 8, 1); fakeStep = 1000;
    char *argv[2] = { (char *)"hsrlekit", NULL }; FILE *o = stdout; stdout = devnull; PAR_WHAT("hsrlekit without arguments"); const int st = hx_tool_main(1, argv); stdout = o; if (!st) par_viol("ended with success"); }
}
#include "cli_more.h"
int main(int argc, char **argv)
{
  par_args(argc, argv); _DetectCPUFeatures();
  if (!strcmp(par_prop, "C13")) return par_run(33 + 120 + 16 + 8 + 8 + 1, t_c13);
  if (!strcmp(par_prop, "C14")) return par_run(109, t_c14);
  if (!strcmp(par_prop, "C18")) return c18_main();
  if (!strcmp(par_prop, "C19")) return par_run(c19_tasks(), t_c19);
  if (!strcmp(par_prop, "C20")) return par_run(c20_tasks(), t_c20);
  return 2;
}
