/* ------------------------------------------------------------------ C18: the fuzzer's inputs */
/* the interface below rle_fuzz.c's fuzz(); used for two sections only after it has been seen to produce the same inputs as fuzz() itself */
bool fuzz_create(void **ppState, const size_t sections, const bool iterative) __attribute__((weak));
bool fuzz_state_advance(void *pState) __attribute__((weak));
size_t fuzz_fill_buffer(void *pState, uint8_t *pBuffer) __attribute__((weak));
enum { FZ_SYM = 16, FZ_N1 = 31 };
static uint32_t fzLen[512]; static int fzLens; /* section lengths, in the order of their size */
static void fz_lengths(void) { fzLens = 0; for (uint32_t l = 1; l <= 280; l++) fzLen[fzLens++] = l; for (uint32_t l = 768; l <= 8192; l = l * 17 / 16) fzLen[fzLens++] = l; for (uint32_t l = 65536 - 8; l <= 65536 + 24; l++) fzLen[fzLens++] = l; }
static uint64_t fz_hash(const uint8_t *p, size_t n)
{
  uint64_t a[4] = { 0x9E3779B97F4A7C15ull ^ n, 0xC2B2AE3D27D4EB4Full, 0x165667B19E3779F9ull, 0x27D4EB2F165667C5ull }; size_t i = 0;
  for (; i + 32 <= n; i += 32) for (int k = 0; k < 4; k++) { uint64_t w; memcpy(&w, p + i + 8 * k, 8); a[k] = (a[k] ^ w) * 0xFF51AFD7ED558CCDull; a[k] ^= a[k] >> 29; }
  for (; i < n; i++) { a[i & 3] = (a[i & 3] ^ (p[i] + 1u)) * 0xC4CEB9FE1A85EC53ull; a[i & 3] ^= a[i & 3] >> 31; }
  uint64_t h = a[0]; for (int k = 1; k < 4; k++) { h = (h ^ a[k]) * 0x9FB21C651E98DF25ull; h ^= h >> 32; } return h;
}
static uint64_t fz_mix(uint64_t a, uint64_t b) { a = (a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6))) * 0xD6E8FEB86659FD93ull; return a ^ (a >> 32); }
typedef struct { volatile uint64_t digest[4][4], count[4][4]; volatile int done[4][4], weakOk, orderDiffers; volatile uint64_t sum, cnt; volatile uint8_t sym[FZ_SYM]; volatile int haveSym; } c18_shared;
static c18_shared *c18s;
/* runs fn in a process of its own (the fuzzer keeps state between calls); -1: it did not end by itself */
static int in_child(void (*fn)(void))
{
  fflush(stdout); pid_t p = fork(); if (p < 0) _exit(4);
  if (!p) { hx_armed = 0; signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGILL, SIG_DFL); signal(SIGFPE, SIG_DFL); signal(SIGTRAP, SIG_DFL); const uint64_t e = p_evals, c = p_cases, t = p_trans, n = p_nontriv; fn(); __sync_fetch_and_add(&par->evals, p_evals - e); __sync_fetch_and_add(&par->cases, p_cases - c); __sync_fetch_and_add(&par->trans, p_trans - t); __sync_fetch_and_add(&par->nontriv, p_nontriv - n); _exit(0); }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ; return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
typedef struct { uint32_t n; uint64_t h; } fz_rec;
static fz_rec *fzRec; static uint64_t fzRecs, fzLimit, fzDigest; static int fzStopAtLimit; static uint8_t fzSym[FZ_SYM]; static uint32_t fzSymFrom;
static uint32_t c18_enc(int id, const uint8_t *in, uint32_t n, uint8_t *out, uint32_t m)
{
  if (!in || !out || !n || m < hx_codecs[id].bounds(n)) { par_viol("a codec is called with unusable buffers (%u bytes of input, %u bytes of output)", n, m); _exit(0); }
  if (id == 0) {
    const uint64_t h = fz_hash(in, n); p_cases++; p_evals++; p_trans++; p_nontriv++; fzDigest = fz_mix(fzDigest ^ n, h);
    if (fzRec) { if (fzRecs < fzLimit) { fzRec[fzRecs].n = n; fzRec[fzRecs].h = h; } if (n > fzSymFrom && n >= 16) { fzSymFrom = n; memcpy(fzSym, in, 16); } }
    if (++fzRecs >= fzLimit) { if (fzStopAtLimit) siglongjmp(fzJmp, 1); par_viol("the fuzzer goes on after %llu inputs", (unsigned long long)fzLimit); _exit(0); }
  }
  curSize = m < n + 64 ? m : n + 64; return curSize;
}
static uint32_t c18_dec(int id, const uint8_t *in, uint32_t s, uint8_t *out, uint32_t m) { (void)id; (void)in; (void)s; (void)m; memcpy(out, curIn, curN); return curN; }
static int c18_k, c18_env; static uint64_t c18_max;
/* the first c18_max inputs (0: all) of fuzz(c18_k, true), in one of four environments */
static int c18_sequence(void)
{
  slots_reset(); all_features(); F.kind = 0; ioFail = 0; stdout = devnull; alt_enc = c18_enc; alt_dec = c18_dec; fzRecs = 0; fzDigest = 0; fzStopAtLimit = c18_max != 0; fzLimit = c18_max ? c18_max : 30000;
  g_off = c18_env & 1 ? 0 : 16; fakeNs = c18_env & 1 ? 77777777777ull : 1000000000ull; fakeStep = c18_env & 1 ? 123457 : 1000; if (c18_env & 1) mmap(NULL, 1 << 20, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  const int j = sigsetjmp(fzJmp, 1); int ok = 1;
  if (!j) ok = fuzz((size_t)c18_k, true);
  alt_enc = NULL; alt_dec = NULL; close_all(); return ok;
}
static void c18_publish(int slot) { c18s->digest[slot][c18_env] = fzDigest; c18s->count[slot][c18_env] = fzRecs; __sync_synchronize(); c18s->done[slot][c18_env] = 1; }
static uint64_t fz_pattern(int s, uint32_t n) { static uint8_t *b; if (!b) b = malloc(65560 * 16 + 64); for (uint32_t i = 0; i < n; i++) b[i] = fzSym[i % (uint32_t)s]; return fz_hash(b, n); }
static int rec_cmp(const void *a, const void *b) { const fz_rec *x = a, *y = b; return x->n != y->n ? (x->n < y->n ? -1 : 1) : x->h < y->h ? -1 : x->h > y->h; }
/* one section: the complete sequence through fuzz() itself */
static void c18_one(void)
{
  c18_k = 1; c18_max = 0; fzRec = c18_env == 0 ? malloc(30000 * sizeof *fzRec) : NULL; PAR_WHAT("fuzz(1, true), complete, environment %d", c18_env);
  if (!c18_sequence()) { par_viol("ended without success"); return; }
  c18_publish(0); if (!fzRec) return;
  const uint64_t want = (uint64_t)fzLens * 2 * FZ_N1; if (fzRecs != want) { par_viol("%llu inputs, expected %llu (every section length, kind, symbol length and alignment once)", (unsigned long long)fzRecs, (unsigned long long)want); return; }
  fz_rec *ex = malloc(want * sizeof *ex); uint64_t ne = 0; uint32_t *rnd = calloc(fzLens, 4);
  for (int s = 1; s <= 16; s++) for (int b = 0; b < (s > 1 ? 2 : 1); b++) for (int l = 0; l < fzLens; l++) { const uint32_t n = fzLen[l] * (b ? (uint32_t)s : 1u); ex[ne].n = n; ex[ne++].h = fz_pattern(s, n); rnd[l]++; }
  qsort(ex, ne, sizeof *ex, rec_cmp); qsort(fzRec, fzRecs, sizeof *fzRec, rec_cmp);
  uint64_t e = 0; for (uint64_t i = 0; i < fzRecs; i++) {
    while (e < ne && rec_cmp(&ex[e], &fzRec[i]) < 0) { par_viol("an input of %u bytes consisting of one repeated symbol is never presented", ex[e].n); return; }
    if (e < ne && !rec_cmp(&ex[e], &fzRec[i])) { e++; continue; }
    int l = 0; while (l < fzLens && fzLen[l] != fzRec[i].n) l++;
    if (l == fzLens || !rnd[l]) { par_viol("an input of %u bytes is presented too often or out of range", fzRec[i].n); return; }
    rnd[l]--;
  }
  if (e < ne) { par_viol("an input of %u bytes consisting of one repeated symbol is never presented", ex[e].n); return; }
  for (int i = 0; i < 16; i++) c18s->sym[i] = fzSym[i];
}
static void c18_prefix(void) { static const uint64_t mx[] = { 0, 20000, 6000, 2000 }; const int slot = c18_k == 2 ? 1 : c18_k == 3 ? 2 : 3; c18_max = mx[slot]; fzRec = NULL; PAR_WHAT("fuzz(%d, true), first %llu inputs, environment %d", c18_k, (unsigned long long)c18_max, c18_env); if (!c18_sequence()) { par_viol("ended without success"); return; } c18_publish(slot); }
/* conformance of the interface below fuzz(): the same inputs in the same order, and what the symbol is */
static void c18_conform_a(void) { c18_k = 2; c18_max = 2000; c18_env = 0; fzRec = NULL; if (c18_sequence()) c18_publish(1); }
static void c18_conform_b(void)
{
  void *st = NULL; slots_reset(); g_off = 16; if (!fuzz_create(&st, 2, true)) return; uint8_t *b = mmap(NULL, 4 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); uint64_t d = 0, k = 0;
  do { const size_t n = fuzz_fill_buffer(st, b); if (n > (4u << 20)) return; d = fz_mix(d ^ n, fz_hash(b, n)); } while (++k < 2000 && fuzz_state_advance(st));
  c18s->digest[1][1] = d; c18s->count[1][1] = k; c18s->done[1][1] = 1;
}
static void c18_symbol(void)
{ /* the symbol: bytes which never change at the end of (random, symbol) inputs */
  c18_k = 1; c18_max = 354 * 2; c18_env = 0; fzRec = malloc(30000 * sizeof *fzRec); slots_reset();
  void *st = NULL; if (!fuzz_create(&st, 1, true)) return; uint8_t *b = mmap(NULL, 4 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); size_t best = 0;
  do { const size_t n = fuzz_fill_buffer(st, b); if (n > (4u << 20)) return; if (n > best) { best = n; for (int i = 0; i < 16; i++) c18s->sym[i] = b[i]; } } while (fuzz_state_advance(st));
  c18s->haveSym = best == 65560u * 16;
}
/* two sections: group g = (symbol length, alignment, kind of the first section), all pairs of lengths */
static int fz_groups(int g, int *s, int *bound, int *start) { int k = 0; for (*s = 1; *s <= 16; ++*s) for (*bound = 0; *bound < (*s > 1 ? 2 : 1); ++*bound) for (*start = 0; *start < 2; ++*start) if (k++ == g) return 1; return 0; }
static int fz_is_filler(const uint8_t *p, size_t n) { if (n < 64) return 1; uint8_t seen[256] = { 0 }; int d = 0; for (int i = 0; i < 64; i++) if (!seen[p[i]]++) d++; return d >= 16; }
static int c18_group;
static uint8_t *fzBuf; static const size_t fzCap = (size_t)65560 * 16 * 2;
static void *fz_open(int k) { void *st = NULL; slots_reset(); g_off = 16; if (!fuzz_create(&st, (size_t)k, true)) return NULL; const size_t cap = (fzCap + 4095) & ~(size_t)4095; uint8_t *p = mmap(NULL, cap + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p, cap, PROT_READ | PROT_WRITE); fzBuf = p + cap - fzCap; for (int i = 0; i < 16; i++) fzSym[i] = c18s->sym[i]; return st; }
static void c18_two(void)
{
  int s, bound, start; fz_groups(c18_group, &s, &bound, &start); void *st = fz_open(2); if (!st) return;
  const uint64_t per = (uint64_t)fzLens * fzLens; for (uint64_t i = 0; i < per * (uint64_t)c18_group; i++) if (!fuzz_state_advance(st)) { c18s->orderDiffers = 1; return; }
  uint8_t *pat = malloc(65560 * 16 + 64); const uint32_t f = bound ? (uint32_t)s : 1u; for (uint32_t i = 0; i < 65560u * f; i++) pat[i] = fzSym[i % (uint32_t)s];
  for (uint64_t i = 0; i < per; i++) {
    if (PAR_STOP() || c18s->orderDiffers) return; par->serial[par_wid]++;
    const uint32_t a = fzLen[i / fzLens], b = fzLen[i % fzLens]; const size_t la = start ? (size_t)a * f : a, lb = start ? b : (size_t)b * f;
    PAR_WHAT("two sections, symbols of %d bytes (%saligned), %s first, lengths %u and %u", s, bound ? "" : "un", start ? "symbol" : "filler", a, b);
    const size_t n = fuzz_fill_buffer(st, fzBuf); p_cases++; p_evals++; p_trans++; p_nontriv++;
    if (n != la + lb || memcmp(start ? fzBuf : fzBuf + la, pat, start ? la : lb) || !fz_is_filler(start ? fzBuf + la : fzBuf, start ? lb : la)) { c18s->orderDiffers = 1; return; }
    const int more = fuzz_state_advance(st); if (more != !(i + 1 == per && c18_group == 61)) { c18s->orderDiffers = 1; return; }
  }
}
/* the same in whatever order: what stays the same when an input is generated again is symbol, what changes is filler; multisets are compared by their sums of fingerprints */
static uint64_t c18_key(int start, uint64_t filler, uint64_t symBytes, uint64_t symHash) { return fz_mix(fz_mix(fz_mix(start ? 0x1234567 : 0x7654321, filler), symBytes), symHash); }
static void c18_any(void)
{
  void *st = fz_open(2); if (!st) return; uint8_t *again = malloc(fzCap), *same = malloc(fzCap); uint64_t i = 0, sum = 0, cnt = 0; int more = 1;
  for (; more; i++) {
    if (PAR_STOP()) return; par->serial[par_wid]++; if (i > 8000000) { par_viol("two sections: the sequence does not end after %llu inputs", (unsigned long long)i); return; }
    if ((int)(i % 8) == c18_group) {
      const size_t n = fuzz_fill_buffer(st, fzBuf); memcpy(again, fzBuf, n); memset(same, 1, n); cnt++; p_cases++; p_evals++; p_nontriv++; PAR_WHAT("two sections, input %llu (%zu bytes)", (unsigned long long)i, n);
      for (int r = 0; r < 4; r++) { fuzz_fill_buffer(st, fzBuf); p_trans++; for (size_t k = 0; k < n; k++) same[k] &= fzBuf[k] == again[k]; }
      size_t pre = 0, suf = 0; while (pre < n && same[pre]) pre++; while (suf < n && same[n - 1 - suf]) suf++;
      const int start = pre > 0; const size_t sb = start ? pre : suf; sum += c18_key(start, n - sb, sb, fz_hash(start ? again : again + n - sb, sb));
    }
    more = fuzz_state_advance(st);
  }
  __sync_fetch_and_add(&c18s->sum, sum); __sync_fetch_and_add(&c18s->cnt, cnt);
}
static void c18_any_verdict(void)
{
  uint64_t sum = 0, cnt = 0; for (int i = 0; i < 16; i++) fzSym[i] = c18s->sym[i];
  for (int g = 0; g < 62; g++) { int s, b, start; fz_groups(g, &s, &b, &start); for (int x = 0; x < fzLens; x++) { const uint64_t sb = (uint64_t)fzLen[x] * (b ? (uint64_t)s : 1); const uint64_t h = fz_pattern(s, (uint32_t)sb); for (int y = 0; y < fzLens; y++) { sum += c18_key(start, fzLen[y], sb, h); cnt++; } } }
  PAR_WHAT("two sections, complete sequence"); if (c18s->cnt != cnt) par_viol("%llu inputs, expected %llu", (unsigned long long)c18s->cnt, (unsigned long long)cnt); else if (c18s->sum != sum) par_viol("the inputs are not exactly the pairs of section lengths, kinds, symbol lengths and alignments, each once");
}
static int c18_phase;
static void t_c18(unsigned t)
{
  worker_init(); F.kind = 0; ioFail = 0; g_off = 16; fakeStep = 1000; const int deep = par_depth >= 2; int r = 0;
  if (c18_phase == 1) { c18_group = (int)t; r = in_child(c18_any); if (r) par_viol("generating the inputs failed (%d)", r); return; }
  if (t < 2) { c18_env = (int)t; r = in_child(c18_one); if (r) par_viol("the fuzzer died while presenting its inputs"); return; }
  if (t < 8) { static const int ks[] = { 2, 3, 6 }; c18_k = ks[(t - 2) / 2]; c18_env = (int)(t & 1); r = in_child(c18_prefix); if (r) par_viol("the fuzzer died while presenting its inputs"); return; }
  if (t < 70) { if (!c18s->weakOk) return; c18_group = (int)t - 8; r = in_child(c18_two); if (r) { c18s->orderDiffers = 1; if (r < 0) par_viol("generating this input failed (memory fault)"); } return; }
  /* the failing input is preserved */
  if (failFd < 0) failFd = memfd_create("fail", 0);
  fz_codecMode = 1; fz_iterMax = 0; fz_parts = 8; fz_part = (int)(t - 70) % 8; fz_sect = 1;
  if (t < 78) { static const uint32_t ls[] = { 1, 2, 33, 256, 8, 129, 280 }; for (int i = 0; i < (deep ? 7 : 4); i++) { fz_lo = fz_hi = fz_stop = ls[i]; fz_run(0, 16); if (PAR_STOP()) break; } }
  else { fz_iterMax = deep ? 3 : 1; fz_lo = 1; fz_hi = fz_stop = ~0u; fz_run(1, 16); if (!PAR_STOP()) fz_run(2, 16); }
  close(failFd); failFd = -1; fz_iterMax = 0;
}
static int c18_main(void)
{
  c18s = mmap(NULL, sizeof *c18s, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); fz_lengths();
  { pid_t p = fork(); if (!p) { worker_init(); in_child(c18_conform_a); if (fuzz_create && fuzz_state_advance && fuzz_fill_buffer) { in_child(c18_conform_b); in_child(c18_symbol); } _exit(0); } int st; waitpid(p, &st, 0); }
  c18s->weakOk = c18s->haveSym && c18s->done[1][0] && c18s->done[1][1] && c18s->digest[1][0] == c18s->digest[1][1] && c18s->count[1][0] == 2000 && c18s->count[1][1] == 2000;
  fprintf(stderr, "C18: interface below fuzz() %s\n", c18s->weakOk ? "conforms" : "not available: two sections are explored through fuzz() only");
  memset((void *)c18s->done, 0, sizeof c18s->done);
  const char *stats = par_stats; par_stats = "/dev/null"; int r = par_run(86, t_c18);
  static const char *const nm[] = { "fuzz(1, true)", "fuzz(2, true)", "fuzz(3, true)", "fuzz(6, true)" };
  for (int i = 0; i < 4 && !par->nviol; i++) if (c18s->done[i][0] && c18s->done[i][1] && (c18s->digest[i][0] != c18s->digest[i][1] || c18s->count[i][0] != c18s->count[i][1])) { par_wid = 0; PAR_WHAT("%s twice", nm[i]); par_viol("the inputs differ between two runs"); }
  if (!par->nviol && c18s->orderDiffers) { fprintf(stderr, "C18: inputs come in another order or differ, comparing multisets\n"); c18_phase = 1; par->next = 0; par->stop = 0; par_stats = stats; par_run(8, t_c18); if (!par->nviol) { par_wid = 0; c18_any_verdict(); } }
  par_stats = stats; r = par_report(); return r;
}

/* ------------------------------------------------------------------ C19: the figures of a benchmark */
typedef sel c19_seltype;
enum { BM_ROWS = 64, BM_CALLS = 4096 };
typedef struct { int id; size_t mark; int ne, nd; uint64_t e[BM_CALLS], d[BM_CALLS], eFirst, eLast, dFirst, dLast, eSlept, dSlept; } bm_row;
static bm_row bmRow[BM_ROWS]; static int bmRows; static uint64_t bmDur[BM_CALLS]; static int bmDurs; static uint32_t bmSize; static int bmPat; 
static uint8_t bm_byte(uint32_t i) { switch (bmPat) { default: return (uint8_t)(i & 1 ? 7 : 200); case 1: return (uint8_t)i; case 2: return (uint8_t)(i % 5 == 0 ? i : 3); case 3: return (uint8_t)(i % 3 == 2); } }
static uint32_t bm_enc(int id, const uint8_t *in, uint32_t n, uint8_t *out, uint32_t m)
{
  (void)in; if (bmRows == 0 || bmRow[bmRows - 1].id != id) { if (bmRows == BM_ROWS) return 0; fflush(stdout); bm_row *r = &bmRow[bmRows++]; memset(r, 0, sizeof *r); r->id = id; r->mark = outLen; }
  bm_row *r = &bmRow[bmRows - 1]; const uint64_t d = bmDur[r->ne % bmDurs]; if (r->ne == 0) r->eFirst = fakeNs; if (r->ne < BM_CALLS) r->e[r->ne++] = d; fakeNs += d; r->eLast = fakeNs; r->eSlept = r->dSlept = sleptNs;
  if (m < hx_codecs[id].bounds(n)) { misuse = "compressor called with invalid arguments"; return 0; }
  const uint32_t s = bmSize < m ? bmSize : m; for (uint32_t i = 0; i < s; i++) out[i] = bm_byte(i);
  if (F.kind == K_ENC0 && F.codec == id) { fired = 1; return 0; }
  return curSize = s;
}
static uint32_t bm_dec(int id, const uint8_t *in, uint32_t s, uint8_t *out, uint32_t m)
{
  (void)in; bm_row *r = &bmRow[bmRows - 1]; const uint64_t d = bmDur[(r->nd + 1 + bmDurs / 2) % bmDurs] * 2; if (r->nd == 0) { r->dFirst = fakeNs; r->eSlept = sleptNs - r->eSlept; } if (r->nd < BM_CALLS) r->d[r->nd++] = d; fakeNs += d; r->dLast = fakeNs; r->dSlept = sleptNs;
  if (s < curSize || m < curN) { misuse = "decompressor called with invalid arguments"; return 0; }
  const int f = F.codec == id ? F.kind : 0; if (f) fired = 1; memcpy(out, curIn, curN); if (f == K_FLIP) out[F.pos % curN] ^= 1;
  return f == K_DEC0 ? 0 : f == K_DECM1 ? curN - 1 : curN;
}
static int near1(double got, double want, double half) { return got >= want - half - want * 1e-9 && got <= want + half + want * 1e-9; }
static double mibs(uint64_t n, double ns) { return (double)n / 1048576.0 / (ns / 1e9); }
static int c19_figures(const char *what, uint32_t n, const uint64_t *d, int k, int dry, double avg, double best)
{
  double sum = 0; uint64_t all = ~0ull, meas = ~0ull; for (int i = 0; i < k; i++) { if (i >= dry) { sum += (double)d[i]; if (d[i] < meas) meas = d[i]; } if (d[i] < all) all = d[i]; }
  const double want = mibs(n, sum / (k - dry)); if (!near1(avg, want, 0.051)) { par_viol("%s throughput reported as %.1f MiB/s, measured %.1f MiB/s in %d calls", what, avg, want, k - dry); return 0; }
  if (!near1(best, mibs(n, (double)all), 0.051) && !near1(best, mibs(n, (double)meas), 0.051)) { par_viol("%s maximum reported as %.1f MiB/s, the fastest call had %.1f MiB/s", what, best, mibs(n, (double)all)); return 0; }
  return 1;
}
/* the throughput at the mean plus and minus the standard deviation of the measured calls */
static int c19_spread(const char *what, uint32_t n, const uint64_t *d, int k, int dry, double lo, double hi)
{
  const int m = k - dry; if (m < 2) return 1; double sum = 0, q = 0; for (int i = dry; i < k; i++) sum += (double)d[i]; const double mean = sum / m; for (int i = dry; i < k; i++) q += ((double)d[i] - mean) * ((double)d[i] - mean); const double sd = sqrt(q / (m - 1));
  const double w[2] = { mibs(n, mean + sd), mibs(n, mean - sd) }, got[2] = { lo, hi };
  for (int i = 0; i < 2; i++) { if (i && fabs(mean - sd) < mean * 1e-4) continue; if (!(fabs(got[i] - w[i]) <= 0.51 + fabs(w[i]) * 1e-7)) { par_viol("%s throughput at the mean %s the standard deviation reported as %.0f MiB/s, it is %.1f MiB/s (%d calls)", what, i ? "minus" : "plus", got[i], w[i], m); return 0; } }
  return 1;
}
static int ci_find(const char *p, const char *e, const char *w) { const size_t l = strlen(w); for (; p + l <= e; p++) if (!strncasecmp(p, w, l)) return 1; return 0; }
/* one benchmark: every row's figures against what the stand-ins took and returned */
static int c19_run(const char *const *args, int na, int test, int sd, int runs, int minTime, uint32_t n)
{
  cmd_str(args, na); PAR_WHAT("hsrlekit FILE(%u bytes)%s, %d durations, compressed to %u bytes (%d)%s%s", n, cmdline, bmDurs, bmSize, bmPat, F.kind ? ", " : "", F.kind ? kindName[F.kind] : "");
  all_features(); set_input(n); bmRows = 0; alt_enc = bm_enc; alt_dec = bm_dec; fakeStep = 0; p_cases++; p_nontriv++;
  const int st = run_tool(args, na, 1); alt_enc = NULL; alt_dec = NULL; fakeStep = 1000; int ok = 0;
  if (misuse) { par_viol("%s", misuse); goto out; }
  if (st && !(test && F.kind)) { par_viol("ended with status %d", st); goto out; }
  if (bmRows == 0) { par_viol("nothing was measured"); goto out; }
  double ent; { uint32_t h[256] = { 0 }; int k = 0; double e = 0; for (uint32_t i = 0; i < bmSize; i++) h[bm_byte(i)]++; for (int i = 0; i < 256; i++) if (h[i]) { const double f = h[i] / (double)bmSize; e -= f * log2(f); k++; } ent = k > 1 ? e / log2(k) : -1; }
  for (int r = 0; r < bmRows; r++) {
    const bm_row *w = &bmRow[r]; const char *b = outBuf + w->mark, *e = outBuf + (r + 1 < bmRows ? bmRow[r + 1].mark : outLen); const int dry = test ? 0 : 1; p_evals++;
    const int bad = F.kind && F.codec == w->id;
    if (bad) { if (!ci_find(b, e, "fail")) { par_viol("%s: the failure is not reported", hx_codecs[w->id].name); goto out; } continue; }
    if (ci_find(b, e, "fail")) { par_viol("%s: a failure is reported although the codec works", hx_codecs[w->id].name); goto out; }
    if (w->ne < runs + dry || w->nd < runs + dry) { par_viol("%s: %d and %d calls, %d runs were requested", hx_codecs[w->id].name, w->ne, w->nd, runs); goto out; }
    const uint64_t slackE = w->eSlept, slackD = (test ? 0 : 2500000000ull); /* pauses between the calls count */
    if (minTime && (w->eLast - w->eFirst + slackE < minTime * 1000000000ull || w->dLast - w->dFirst + slackD < minTime * 1000000000ull)) { par_viol("%s: measured for %.3f and %.3f s, %d s were requested", hx_codecs[w->id].name, (double)(w->eLast - w->eFirst) / 1e9, (double)(w->dLast - w->dFirst) / 1e9, minTime); goto out; }
    if (w->ne >= BM_CALLS || w->nd >= BM_CALLS) continue;
    const char *p = e; while (p > b && p[-1] != '\r') p--; char line[400]; size_t l = 0; while (p + l < e && p[l] != '\n' && l < 399) { line[l] = p[l]; l++; } line[l] = 0; const char *q = strchr(line, '|');
    double ratio, ea, em, da, dm, h, e1, e2, d1, d2; int got = 0; if (q) got = sd ? sscanf(q, "| %lf %% | %lf MiB/s (%lf MiB/s) | %lf ~ %lf MiB/s | %lf MiB/s (%lf MiB/s) | %lf ~ %lf MiB/s | %lf", &ratio, &ea, &em, &e1, &e2, &da, &dm, &d1, &d2, &h) == 10 : sscanf(q, "| %lf %% | %lf MiB/s (%lf MiB/s) | %lf MiB/s (%lf MiB/s) | %lf", &ratio, &ea, &em, &da, &dm, &h) == 6;
    if (!got) { par_viol("%s: the row '%s' does not show the figures", hx_codecs[w->id].name, line); goto out; }
    if (!near1(ratio, 100.0 * bmSize / n, 0.0051)) { par_viol("%s: ratio reported as %.2f %%, it is %.2f %%", hx_codecs[w->id].name, ratio, 100.0 * bmSize / n); goto out; }
    if (!c19_figures("encoder", n, w->e, w->ne, dry, ea, em) || !c19_figures("decoder", n, w->d, w->nd, dry, da, dm)) goto out;
    if (sd && (!c19_spread("encoder", n, w->e, w->ne, dry, e1, e2) || !c19_spread("decoder", n, w->d, w->nd, dry, d1, d2))) goto out;
    if (ent >= 0 && !near1(h, 100.0 * bmSize / n * ent, 0.000001)) { par_viol("%s: last column reported as %.7f %%, it is %.7f %%", hx_codecs[w->id].name, h, 100.0 * bmSize / n * ent); goto out; }
  }
  if (F.kind && !test) { int seen = 0; for (int r = 0; r < bmRows; r++) seen |= bmRow[r].id == F.codec; if (!seen) { par_viol("the codec was not exercised"); goto out; } }
  ok = 1;
out: free(outBuf); outBuf = NULL; return ok;
}
static const char *const c19sel[][2] = { { "--sh", 0 }, { "--low-entropy", 0 }, { "--rle-mmtf", 0 }, { "--mmtf", 0 }, { "--x-size", "48" } };
static int c19_args(const char **a, int sel, const char *runs, const char *min, int test, int sd, int order)
{
  int n = 0; if (order) { if (test) a[n++] = "--test"; if (sd) a[n++] = "--sd"; } a[n++] = c19sel[sel][0]; if (c19sel[sel][1]) a[n++] = c19sel[sel][1]; a[n++] = "--runs"; a[n++] = runs; a[n++] = "--min-time"; a[n++] = min; if (!order) { if (sd) a[n++] = "--sd"; if (test) a[n++] = "--test"; } return n;
}
static unsigned c19_tasks(void) { return 128 + 16 + 16 + 1; }
static void t_c19(unsigned t)
{
  worker_init(); F.kind = 0; ioFail = 0; g_off = 16; const char *a[16]; char rs[16], ms[16]; static const uint64_t D[] = { 700, 1300, 9000, 250000 }; const int deep = par_depth >= 2;
  if (t == 160) { /* many runs */
    for (int test = 0; test < 2; test++) for (int sd = 0; sd < 2; sd++) for (int r = 0; r < 6; r++) { static const int rc[] = { 30, 500, 1023, 1024, 1026, 3000 }; bmDur[0] = 1000; bmDur[1] = 2500; bmDur[2] = 400; bmDurs = 3; bmSize = 90; bmPat = 2; snprintf(rs, 16, "%d", rc[r]); const int na = c19_args(a, r % 5, rs, "0", test, sd, 0); if (PAR_STOP() || !c19_run(a, na, test, sd, rc[r], 0, 200)) return; }
    return;
  }
  if (t < 128) { /* every sequence of call durations */
    const int sel = (int)(t % 4), test = (int)(t / 4 % 2), sd = (int)(t / 8 % 2), part = (int)(t / 16);
    for (int runs = 1; runs <= (par_depth >= 3 ? 5 : deep ? 4 : 3); runs++) { const int k = runs + 1; int tot = 1; for (int i = 0; i < k; i++) tot *= 4;
      for (int c = part; c < tot; c += 8) for (int z = 0; z < 6; z++) {
        if (PAR_STOP()) return; int x = c; for (int i = 0; i < k; i++, x /= 4) bmDur[i] = D[x % 4]; bmDurs = k;
        static const uint32_t ns[] = { 100, 1000, 4096, 777, 65536, 2 }; const uint32_t n = ns[z]; if (!deep && n > 5000 && c % 16) continue;
        const uint32_t ss[] = { n / 2 + 1, n, n + 3, 2, n / 3 + 2, 2 }; bmSize = ss[(z + c) % 6]; if (bmSize < 2) bmSize = 2; if (bmSize > n) bmSize = n; bmPat = (c / 6 + z) % 4;
        snprintf(rs, 16, "%d", runs); const int na = c19_args(a, sel, rs, "0", test, sd, c & 1); if (!c19_run(a, na, test, sd, runs, 0, n)) return;
      } }
    return;
  }
  if (t < 144) { /* requested time and runs */
    const unsigned u = t - 128; const int test = (int)(u & 1), sd = (int)(u >> 1 & 1), sel = (int)(u >> 2);
    for (int minTime = 0; minTime < 4; minTime++) for (int runs = 1; runs < 6; runs++) for (int d = 0; d < 5; d++) for (int sp = 0; sp < 2; sp++) {
      static const uint64_t ds[] = { 100000000ull, 260000000ull, 1000000000ull, 999999999ull, 3100000000ull }; bmDur[0] = ds[d]; bmDur[1] = ds[d] / 2; bmDur[2] = ds[d] + 5; bmDurs = 3; bmSize = 50; bmPat = 1;
      if (PAR_STOP()) return; snprintf(rs, 16, "%d", runs); snprintf(ms, 16, "%d", minTime); const int na = c19_args(a, sel, rs, ms, test, sd, sp); if (!c19_run(a, na, test, sd, runs, minTime, 60000)) return;
    }
    return;
  }
  { /* one codec fails: it is marked, the others are measured as usual */
    const unsigned u = t - 144; static const int ks[] = { K_ENC0, K_DEC0, K_DECM1, K_FLIP }; bmDur[0] = 5000; bmDur[1] = 1700; bmDur[2] = 900; bmDurs = 3; bmSize = 60; bmPat = 1; const int sel = 1 + (int)(u % 4), sd = (int)(u / 4 % 2), half = (int)(u / 8);
    for (int k = 0; k < 4; k++) for (int id = half; id < hx_ncodecs; id += 2) {
      attrs_init(); c19_seltype s = { 0, -1, -1, -1, -1, -1, -1, -1 }; if (sel == 1) s.modes = 2; else if (sel == 2) s.modes = 8; else if (sel == 3) s.modes = 16; else s.bits = 48; if (!match(&s, &AT[id])) continue;
      F.kind = ks[k]; F.codec = id; F.pos = (uint32_t)id * 7; if (PAR_STOP()) return; const int na = c19_args(a, sel, "2", "0", 0, sd, k & 1); if (!c19_run(a, na, 0, sd, 2, 0, 500)) { F.kind = 0; return; }
    }
    F.kind = 0;
  }
}

/* ------------------------------------------------------------------ C20: the analysis of a file */
typedef struct { uint64_t runs, runLen, gapLen, runBits[64], runExact[64], gapBits[64], gapExact[64], rec[16], cross[16][16]; } an_side;
typedef struct { an_side s[2]; uint64_t hist[256]; } an_model; /* s[0]: every position, s[1]: positions aligned to the symbol length */
static int an_cell(uint64_t len) { int b = 0; while (len >> (b + 1)) b++; b--; return b < 0 ? 0 : b > 15 ? 15 : b; }
static void an_add(uint64_t *bits, uint64_t *exact, uint64_t len) { int b = 0; while (len >> (b + 1)) b++; bits[b]++; if (len <= 64) exact[len - 1]++; }
/* runs: maximal sequences of positions at which the next j bytes, which lie in the file, equal the j bytes before */
static void an_compute(const uint8_t *d, uint64_t n, uint64_t j, an_model *m)
{
  memset(m, 0, sizeof *m);
  for (int al = 0; al < 2; al++) {
    an_side *s = &m->s[al]; uint8_t mtf[16][16]; memset(mtf, 0, sizeof mtf); uint64_t run = 0, gap = 0, lastGap = 0; const uint64_t step = al ? j : 1;
    for (uint64_t i = j; i < n; i += step) {
      const int eq = i + j <= n && !memcmp(d + i, d + i - j, j);
      if (eq && !run) { int k = 0; while (k < 16 && memcmp(mtf[k], d + i, j)) k++; if (k < 16) s->rec[k]++; else k = 15; memmove(mtf[1], mtf[0], 16 * (size_t)k); memset(mtf[0], 0, 16); memcpy(mtf[0], d + i, j); if (!al) m->hist[d[i]]++; if (gap) { an_add(s->gapBits, s->gapExact, gap); s->gapLen += gap; lastGap = gap; gap = 0; } run = al ? 1 : j; }
      else if (eq) run++;
      else { if (run) { an_add(s->runBits, s->runExact, run); s->runLen += run; s->runs++; s->cross[an_cell(lastGap)][an_cell(run)]++; run = 0; } gap++; }
    }
    if (gap) { an_add(s->gapBits, s->gapExact, gap); s->gapLen += gap; } else if (run) { an_add(s->runBits, s->runExact, run); s->runLen += run; s->runs++; }
  }
}
static int pct_ok(double got, double part, double all, double half) { if (all == 0) return 1; return near1(got, part * 100.0 / all, half); }
static const char *after(const char *p, const char *w) { const char *q = p ? strstr(p, w) : NULL; return q ? q + strlen(w) : NULL; }
static const char *ln(const char *p) { static char b[512]; size_t l = 0; while ((p[l] == '\n' || p[l] == ' ') && l < 32) { b[l] = p[l]; l++; } while (p[l] && p[l] != '\n' && l < 511) { b[l] = p[l]; l++; } b[l] = 0; return b; }
static int num(const char **pp, const char *skip, double *v) { const char *p = *pp; if (!p) return 1; char *e; *v = strtod(p, &e); if (e == p) return 1; p = e; for (; *skip && *p == *skip; skip++) p++; *pp = p; return 0; }
static int an_hist(const char *p, const uint64_t *h, double total, const char *what)
{
  for (int r = 0; r < 16; r++) { char tag[8]; snprintf(tag, 8, "\n%X | ", r); p = after(p, tag); for (int c = 0; c < 16; c++) { double v; if (num(&p, " | ", &v)) { par_viol("%s: row %X is missing or incomplete", what, r); return 0; } if (!pct_ok(v, (double)h[c << 4 | r], total, 0.0051)) { par_viol("%s: byte %02X reported with %.2f %%, it has %.2f %%", what, c << 4 | r, v, h[c << 4 | r] * 100.0 / total); return 0; } } if (p) p -= 1; }
  return 1;
}
static void an_dump(char *o, size_t cap, const uint8_t *d, uint32_t n) { size_t l = 0; for (uint32_t i = 0; i < n && l + 4 < cap; i++) l += (size_t)snprintf(o + l, cap - l, "%02x", d[i]); }
static int c20_one(const uint8_t *d, uint32_t n, int tail)
{
  static const char *const args[] = { "--analyze", "--sh", "--runs", "1", "--min-time", "0" }; char hex[120]; an_dump(hex, sizeof hex, d, n); PAR_WHAT("hsrlekit --analyze, file of %u bytes: %s", n, hex);
  all_features(); set_input_data(d, n); F.kind = 0; p_cases++; p_nontriv++;
  for (int i = 0; i < 24; i++) for (int k = 0; k < 64; k++) slots[i].base[SLOTCAP - 64 + k] = (uint8_t)(tail ? d[(n + (uint32_t)k) % n] : 0xEE); /* what lies behind the data */
  const int st = run_tool(args, 6, 1); int ok = 0; const char *p = outBuf;
  if (st) { par_viol("ended with status %d%s", st, st == 139 ? " (memory fault)" : ""); goto out; }
  if (nran != 1) { par_viol("the selected codec was not measured"); goto out; }
  { uint64_t tot = 0; p = after(p, "Analysis Complete."); while (p && *p == ' ') p++; if (!p || sscanf(ln(p), "%" SCNu64, &tot) != 1 || tot != n) { par_viol("%" PRIu64 " bytes reported in total", tot); goto out; } }
  static an_model m, m1; p_evals++;
  for (uint64_t j = 1; j <= 16; j++) {
    an_compute(d, n, j, &m); if (j == 1) m1 = m; char tag[32]; snprintf(tag, 32, "RLE Length %2" PRIu64 "\n", j); p = after(p, tag); static const char *const line[] = { "Non-Aligned: Repeating:", "Aligned:     Repeating:" };
    for (int al = 0; al < 2; al++) { uint64_t c, l, g; double pc; p = after(p, line[al]); if (!p || sscanf(ln(p), "%" SCNu64 " (%" SCNu64 " Bytes, %lf %%, %" SCNu64 " Bytes Distinct)", &c, &l, &pc, &g) != 4) { par_viol("symbol length %" PRIu64 ": summary missing", j); goto out; }
      if (c != m.s[al].runs || l != m.s[al].runLen || g != m.s[al].gapLen || !pct_ok(pc, (double)l, n, 0.0051)) { par_viol("symbol length %" PRIu64 " (%saligned): %" PRIu64 " runs, %" PRIu64 " repeating (%.2f %%), %" PRIu64 " distinct reported, expected %" PRIu64 ", %" PRIu64 ", %" PRIu64, j, al ? "" : "un", c, l, pc, g, m.s[al].runs, m.s[al].runLen, m.s[al].gapLen); goto out; } }
    p = after(p, "AprxLen"); p = after(p, "-\n");
    for (int k = 0; k < 64; k++) { uint64_t v[12]; int used = 0; if (!p || sscanf(ln(p), "%" SCNu64 " Bit: | %" SCNu64 " | %" SCNu64 " || %" SCNu64 " Bytes: | %" SCNu64 " | %" SCNu64 " || %" SCNu64 " Bit: | %" SCNu64 " | %" SCNu64 " || %" SCNu64 " Symbols: | %" SCNu64 " | %" SCNu64 "%n", v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, v + 8, v + 9, v + 10, v + 11, &used) != 12) { par_viol("symbol length %" PRIu64 ": table of lengths incomplete", j); goto out; }
      p += used; const uint64_t w[12] = { k + 1ull, m.s[0].runBits[k], m.s[0].gapBits[k], k + 1ull, m.s[0].runExact[k], m.s[0].gapExact[k], k + 1ull, m.s[1].runBits[k], m.s[1].gapBits[k], k + 1ull, m.s[1].runExact[k], m.s[1].gapExact[k] };
      for (int x = 0; x < 12; x++) if (v[x] != w[x]) { par_viol("symbol length %" PRIu64 ", table of lengths, row %d, column %d: %" PRIu64 " reported, expected %" PRIu64, j, k + 1, x, v[x], w[x]); goto out; } }
    p = after(p, "References"); p = after(p, "-\n");
    for (int k = 0; k < 16; k++) { uint64_t r, a, b; double pa, pb; int used = 0; if (!p || sscanf(ln(p), "%" SCNu64 " | %" SCNu64 " (%lf %%) | %" SCNu64 " (%lf %%)%n", &r, &a, &pa, &b, &pb, &used) != 5) { par_viol("symbol length %" PRIu64 ": table of references incomplete", j); goto out; } p += used;
      if (r != k + 1ull || a != m.s[0].rec[k] || b != m.s[1].rec[k] || !pct_ok(pa, (double)a, (double)m.s[0].runs, 0.00051) || !pct_ok(pb, (double)b, (double)m.s[1].runs, 0.00051)) { par_viol("symbol length %" PRIu64 ", references to the %d. last symbol: %" PRIu64 " (%.3f %%) and %" PRIu64 " (%.3f %%) reported, expected %" PRIu64 " and %" PRIu64, j, k + 1, a, pa, b, pb, m.s[0].rec[k], m.s[1].rec[k]); goto out; } }
    p = after(p, "Copy Length vs RLE Length Bits"); p = after(p, "-\n");
    for (int k = 0; k < 16; k++) { char lab[8]; int used = 0; if (!p || sscanf(ln(p), "%7s |%n", lab, &used) != 1) { par_viol("symbol length %" PRIu64 ": table of copy and run lengths incomplete", j); goto out; } p += used;
      for (int al = 0; al < 2; al++) { for (int c = 0; c < 16; c++) { double v; if (num(&p, "", &v)) { par_viol("symbol length %" PRIu64 ": table of copy and run lengths incomplete", j); goto out; } if (!pct_ok(v, (double)m.s[al].cross[k][c], (double)m.s[al].runs, 0.051)) { par_viol("symbol length %" PRIu64 " (%saligned), copy lengths of %d against run lengths of %d bits: %.1f %% reported, expected %.1f %%", j, al ? "" : "un", k + 1, c + 1, v, m.s[al].cross[k][c] * 100.0 / m.s[al].runs); goto out; } } { const char *x = p; while (*x == ' ' || (al && *x == '|')) x++; if (*x != (al ? '\n' : '|')) { par_viol("symbol length %" PRIu64 ": the row of copy and run lengths has more than 16 columns", j); goto out; } p = al ? x : x + 1; } } }
    if (j == 1) { p = after(p, "RLE-Symbol Histogram:"); if (!an_hist(p, m1.hist, (double)m1.s[0].runs, "histogram of repeated symbols")) goto out; }
  }
  { uint64_t h[256] = { 0 }; for (uint32_t i = 0; i < n; i++) h[d[i]]++; p = after(p, "\nHistogram:"); if (!an_hist(p, h, n, "histogram")) goto out; }
  ok = 1;
out: free(outBuf); outBuf = NULL; return ok;
}
enum { C20_PARTS = 16 };
static unsigned c20_tasks(void) { return C20_PARTS * 6; }
static uint32_t c20_put(uint8_t *d, uint32_t n, int kind, uint32_t len, uint32_t seed)
{ /* kind 1..16: a run of symbols of that length (0: zero bytes); 17: bytes without repetition */
  for (uint32_t i = 0; i < len; i++) d[n + i] = kind == 17 ? (uint8_t)((n + i) * 37 + (n + i) / 7 * 11 + seed) : kind == 0 ? 0 : (uint8_t)(0x41 + seed * 16 + i % (uint32_t)kind); return n + len;
}
static void t_c20(unsigned t)
{
  worker_init(); attrs_init(); ioFail = 0; g_off = 16; fakeStep = 1000; const int deep = par_depth >= 2; static uint8_t d[70000]; const unsigned part = t % C20_PARTS, kind = t / C20_PARTS; uint64_t k = 0;
#define C20(n) do { if (k++ % C20_PARTS == part) { if (PAR_STOP() || !c20_one(d, (uint32_t)(n), (int)(k / C20_PARTS & 1))) return; } } while (0)
  if (kind == 0) { /* all words over two letters */ for (uint32_t n = 1; n <= (deep ? 13u : 10u); n++) for (uint32_t w = 0; w < (1u << n); w++) { for (uint32_t i = 0; i < n; i++) d[i] = w >> i & 1 ? 'b' : (n & 1 ? 0 : 'a'); C20(n); } return; }
  if (kind == 1) { /* all words over three letters */ uint32_t tot = 1; for (uint32_t n = 1; n <= (deep ? 8u : 6u); n++) { tot *= 3; for (uint32_t w = 0; w < tot; w++) { uint32_t x = w; for (uint32_t i = 0; i < n; i++, x /= 3) d[i] = (uint8_t)(x % 3); C20(n); } } return; }
  if (kind == 2) { /* words over two letters which fill the buffer up to its end: repeated and with filler in front */ for (uint32_t n = 32; n <= 64; n += 32) for (uint32_t w = 0; w < (deep ? 4096u : 1024u); w++) for (int rep = 0; rep < 2; rep++) { c20_put(d, 0, 17, n, w); for (uint32_t i = 0; i < n; i++) if (rep || i >= n - 12) d[i] = w >> (i % 12) & 1 ? 'b' : 'a'; C20(n); } return; }
  if (kind == 3) { /* one run: symbol length x run length x gap in front x tail */ static const uint32_t ls[] = { 1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 47, 63, 64, 65, 66, 80, 127, 128, 129, 255, 256, 257, 300 }, gs[] = { 0, 1, 2, 7, 16, 63, 64, 65, 130 }, ts[] = { 0, 1, 5, 20, 64, 65 };
    for (int s = 0; s <= 16; s++) for (int l = 0; l < 24; l++) for (int g = 0; g < 9; g++) for (int e = 0; e < 6; e++) { if (!deep && (s + l + g + e) % 6) continue; uint32_t n = c20_put(d, 0, 17, gs[g], 3); n = c20_put(d, n, s, ls[l], 1); n = c20_put(d, n, 17, ts[e], 9); C20(n); } return; }
  if (kind == 4) { /* several runs with recurring symbols: all sequences over three symbols (with more symbols in between) */ for (int s = 1; s <= 16; s++) for (uint32_t w = 0; w < (deep ? 729u : 81u); w++) { uint32_t n = 0, x = w; for (int r = 0; r < (deep ? 6 : 4); r++, x /= 3) { n = c20_put(d, n, s, (uint32_t)s * 3 + (w + (uint32_t)r) % 3, 1 + x % 3); n = c20_put(d, n, 17, 1 + (w + (uint32_t)r) % 4, w); } C20(n); }
    for (int many = 14; many < 20; many++) for (int back = 1; back <= 18; back++) { uint32_t n = 0; for (int r = 0; r < many + 1; r++) { n = c20_put(d, n, 1, 6, (uint32_t)(r == many ? (many - back < 0 ? 0 : many - back) : r)); n = c20_put(d, n, 17, 2, 5); } for (uint32_t i = 0; i < n; i++) d[i] = d[i]; C20(n); } return; }
  { /* large files */ static const uint32_t ns[] = { 99, 100, 101, 200, 1000, 4096, 8192, 30000, 65536, 65537 }; for (int z = 0; z < 10; z++) for (int s = 0; s <= 17; s++) { if (!deep && ns[z] > 10000 && s % 3) continue; for (int h = 0; h < 2; h++) { const uint32_t n = ns[z]; c20_put(d, 0, s, n, 1); if (h) c20_put(d, n / 3, 17, n / 3, 2); C20(n); } } }
}
