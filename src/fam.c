#include "fam.h"
const char *fam_names[G_COUNT] = { "units", "grid", "gridp", "two", "lut", "thresh", "lits", "periodic", "le", "sh", "blocks", "bytes", "big", "pairs", "grow", "waste", "seq", "many" };

#define BEGIN(f) do { f->n = 0; } while (0)
static inline int want(fam_ctx *f) { return !f->stop && (f->idx++ % f->nshards) == f->shard; }
static inline void emit(fam_ctx *f) { if (f->n == 0 || f->n > f->cap) return; f->emitted++; if (f->cb(f)) f->stop = 1; }
static inline void run(fam_ctx *f, int sym, long bytes) { if (bytes > 0 && f->n + (size_t)bytes <= f->cap) f->n += hx_put_run(f->buf + f->n, sym, f->c->width, (size_t)bytes); }
static inline void lit(fam_ctx *f, long bytes, unsigned salt) { if (bytes > 0 && f->n + (size_t)bytes <= f->cap) f->n += hx_put_lit(f->buf + f->n, (size_t)bytes, salt); }
#define LEN(a) (int)(sizeof(a) / sizeof((a)[0]))

/* sorted list of distinct longs */
typedef struct { long v[4096]; int n; } lst;
static void add(lst *l, long v) { if (v < 0 || l->n >= 4096) return; for (int i = 0; i < l->n; i++) if (l->v[i] == v) return; l->v[l->n++] = v; }
static void addr(lst *l, long a, long b) { for (long i = a; i <= b; i++) add(l, i); }

/* ---- all strings over small alphabets of units: whole symbols, near-symbols, single bytes ---- */
static void g_units(fam_ctx *f)
{
  const int W = f->c->width;
  static const struct { int pre, suf; } cx[] = { { 0, 0 }, { 70, 0 }, { 0, 70 }, { 37, 66 } };
  static const int alpha[][2] = { { 8, 9 }, { 0, 1 }, { 8, 10 } };
  const int na = f->depth >= 3 ? 3 : f->depth >= 2 ? 2 : 1, ncx = f->depth >= 2 ? 4 : f->depth >= 1 ? 3 : 2;
  for (int a = 0; a < na; a++) for (int x = 0; x < ncx; x++) {
    if (W == 1) {
      const int maxk = f->depth >= 3 ? 13 : f->depth >= 2 ? 10 : f->depth >= 1 ? 8 : 6; /* alphabet A,B,literal */
      for (int k = 1; k <= maxk; k++) { long tot = 1; for (int i = 0; i < k; i++) tot *= 3;
        for (long v = 0; v < tot; v++) { if (!want(f)) continue; BEGIN(f); lit(f, cx[x].pre, 1); long t = v; for (int i = 0; i < k; i++, t /= 3) { if (t % 3 == 2) lit(f, 1, 40 + i); else run(f, alpha[a][t % 3], 1); } lit(f, cx[x].suf, 2); emit(f); } }
    } else {
      const int maxk = f->depth >= 3 ? 9 : f->depth >= 2 ? 7 : f->depth >= 1 ? 6 : 5; /* A, B, first byte of A, literal byte */
      for (int k = 1; k <= maxk; k++) { long tot = 1L << (2 * k);
        for (long v = 0; v < tot; v++) { if (!want(f)) continue; BEGIN(f); lit(f, cx[x].pre, 1); for (int i = 0; i < k; i++) { int u = (v >> (2 * i)) & 3; if (u == 0) run(f, alpha[a][0], W); else if (u == 1) run(f, alpha[a][1], W); else if (u == 2) run(f, alpha[a][0], 1); else lit(f, 1, 40 + i); } lit(f, cx[x].suf, 2); emit(f); } }
    }
  }
}

/* ---- all byte strings up to a length over {A, B} (bytes) ---- */
static void g_bytes(fam_ctx *f)
{
  static const uint8_t al[][2] = { { 0x00, 0x41 }, { 0x7F, 0x80 }, { 0xFF, 0x7E } };
  const int maxk = f->depth >= 3 ? 16 : f->depth >= 2 ? 12 : f->depth >= 1 ? 10 : 8;
  for (int a = 0; a < (f->depth >= 2 ? 3 : 1); a++)
    for (int k = 1; k <= maxk; k++) for (long v = 0; v < (1L << k); v++) { if (!want(f)) continue; BEGIN(f); for (int i = 0; i < k; i++) f->buf[f->n++] = al[a][(v >> i) & 1]; emit(f); }
}

/* ---- literal prefix, one run, literal suffix ---- */
static void g_grid(fam_ctx *f)
{
  const int W = f->c->width;
  static lst P, R, S; P.n = R.n = S.n = 0;
  add(&P, 0); add(&P, 1); add(&P, W); add(&P, 17); if (f->depth >= 1) { add(&P, W - 1); add(&P, W + 1); add(&P, 33); add(&P, 15); add(&P, 66); }
  addr(&R, 0, 4 * W + 12); if (f->depth >= 1) { for (int i = 4; i <= 40; i++) for (int d = -1; d <= 1; d++) add(&R, (long)i * 4 + d); addr(&R, 252, 262); }
  if (f->depth >= 3) addr(&R, 0, 300);
  if (f->depth >= 2) addr(&S, 0, 70); else if (f->depth >= 1) { addr(&S, 0, 36); addr(&S, 62, 66); } else { addr(&S, 0, 18); addr(&S, 31, 33); add(&S, 65); }
  static const int sy[] = { 8, 0, 13 };
  const int ns = f->depth >= 2 ? 3 : f->depth >= 1 ? 2 : 1;
  for (int s = 0; s < ns; s++) for (int p = 0; p < P.n; p++) for (int r = 0; r < R.n; r++) for (int t = 0; t < S.n; t++) { if (!want(f)) continue; BEGIN(f); lit(f, P.v[p], 3); run(f, sy[s], R.v[r]); lit(f, S.v[t], 7); emit(f); }
}
static void g_gridp(fam_ctx *f) /* full prefix range, few runs: position of a run relative to vector blocks */
{
  const int W = f->c->width;
  static lst R; R.n = 0; add(&R, 2 * W); add(&R, 3 * W); add(&R, 2 * W + 3); add(&R, 12); add(&R, 33); if (f->depth >= 2) { add(&R, 2 * W - 1); add(&R, 3 * W + 1); add(&R, 64); add(&R, 5); add(&R, 4 * W + 2); }
  static const long S[] = { 0, 1, 40, 100 };
  const int maxp = f->depth >= 3 ? 200 : f->depth >= 1 ? 140 : 70;
  for (int s = 0; s < 2; s++) for (int p = 0; p <= maxp; p++) for (int r = 0; r < R.n; r++) for (int t = 0; t < LEN(S); t++) { if (!want(f)) continue; BEGIN(f); lit(f, p, 5); run(f, s ? 0 : 8, R.v[r]); lit(f, S[t], 9); emit(f); }
}

/* ---- two runs with a gap, all relations between their symbols ---- */
static void g_two(fam_ctx *f)
{
  const int W = f->c->width;
  static const int sp[][2] = { { 8, 8 }, { 8, 9 }, { 0, 0 }, { 0, 8 }, { 8, 1 }, { 3, 3 }, { 8, 10 }, { 2, 6 } };
  static lst R, G; R.n = G.n = 0;
  static lst R2; R2.n = 0;
  const int d = f->depth;
  add(&R, 2 * W); add(&R, 3 * W + 1); add(&R, 12); add(&R, 20);
  if (d >= 1) { add(&R, 2 * W + 1); add(&R, 3 * W); add(&R, 5); add(&R, 40); }
  if (d >= 2) { add(&R, 3); add(&R, 4); add(&R, 6); add(&R, 7); add(&R, 8); add(&R, 9); add(&R, 2 * W - 1); add(&R, 4 * W); add(&R, 70); }
  for (int i = 0; i < R.n; i++) add(&R2, R.v[i]);
  if (d >= 1) { add(&R2, 1); add(&R2, W); add(&R2, 130); }
  addr(&G, 0, d >= 1 ? 2 * W + 10 : W + 4); if (d >= 1) { addr(&G, 15, 18); addr(&G, 31, 33); addr(&G, 62, 66); addr(&G, 126, 130); } if (d >= 2) { addr(&G, 0, 40); addr(&G, 254, 258); }
  if (d >= 3) { addr(&G, 0, 140); addr(&G, 500, 520); addr(&G, 1020, 1030); }
  static const long S[] = { 0, 3, 40, 1, 100 };
  const int ns = d >= 2 ? 5 : d >= 1 ? 3 : 2, nsp = d >= 2 ? 8 : d >= 1 ? 5 : 3; static const long P[] = { 0, 17, 3 };
  for (int p = 0; p < (d >= 2 ? 3 : d >= 1 ? 2 : 1); p++) for (int s = 0; s < nsp; s++) for (int a = 0; a < R.n; a++) for (int g = 0; g < G.n; g++) for (int b = 0; b < R2.n; b++) for (int t = 0; t < ns; t++) {
    if (!want(f)) continue; BEGIN(f); lit(f, P[p], 3); run(f, sp[s][0], R.v[a]); lit(f, G.v[g], 11); run(f, sp[s][1], R2.v[b]); lit(f, S[t], 7); emit(f); }
}

/* ---- symbol table evolution: all sequences of runs over the initial table entries and new symbols ---- */
static void g_lut(fam_ctx *f)
{
  const int W = f->c->width, d = f->depth;
  static const int syms[] = { 0, 1, 2, 3, 4, 5, 6, 8, 11, 12, 9 };
  const int ns = d >= 3 ? 11 : 9, maxm = d >= 3 ? 6 : d >= 2 ? 5 : d >= 1 ? 4 : 3;
  for (int m = 1; m <= maxm; m++) for (int g = 0; g < (m <= 3 ? 3 : m <= 4 ? 2 : 1); g++) {
    static const long gap[] = { 1, 0, 9 };
    long tot = 1; for (int i = 0; i < m; i++) tot *= ns;
    for (long v = 0; v < tot; v++) { if (!want(f)) continue; BEGIN(f); long t = v; for (int i = 0; i < m; i++, t /= ns) { run(f, syms[t % ns], W < 4 ? 3 * W + 4 : 2 * W + 1); lit(f, gap[g], 50 + i); } if (m & 1) lit(f, 45, 60); emit(f); }
  }
  /* fill the whole table with new symbols first, then all sequences of accesses by table position */
  static const int fill[] = { 8, 11, 12, 14, 15, 9, 10, 7 };
  const int m2 = d >= 2 ? 4 : d >= 1 ? 3 : 2;
  for (int nf = 1; nf <= 8; nf += (d >= 2 ? 1 : 3)) { long tot = 1; for (int i = 0; i < m2; i++) tot *= 9;
    for (long v = 0; v < tot; v++) { if (!want(f)) continue; BEGIN(f); for (int i = 0; i < nf; i++) { run(f, fill[i], 3 * W + 4); lit(f, 2, 70 + i); } long t = v; for (int i = 0; i < m2; i++, t /= 9) { int k = (int)(t % 9); run(f, k == 8 ? 2 : fill[k], 3 * W + 4); lit(f, 1, 80 + i); } emit(f); } }
}

/* ---- length fields: every size class boundary of run and gap lengths, combined ---- */
static void g_thresh(fam_ctx *f)
{
  const int W = f->c->width, d = f->depth;
  static lst L; L.n = 0;
  static const long base[] = { 32, 64, 128, 256, 512, 1024, 2048 };
  const int nb = d >= 2 ? 7 : d >= 1 ? 6 : 4;
  add(&L, 3 * W); add(&L, 14);
  for (int b = 0; b < nb; b++) {
    for (int e = (d >= 2 ? -3 : -1); e <= (d >= 2 ? 5 : 3); e++) add(&L, base[b] + e);
    if (W > 1 && base[b] * W <= 16384) for (int e = (d >= 2 ? -2 : -1); e <= (d >= 2 ? 4 : 2); e++) add(&L, (base[b] + e) * W);
    if (d >= 2 && W > 1 && base[b] * W <= 16384) for (int e = -2; e <= 4; e++) add(&L, (base[b] + e) * W + 1);
  }
  static const int s2[] = { 8, 0, 2, 9, 6 };
  const int nsy = d >= 2 ? 5 : d >= 1 ? 3 : 2;
  /* gap boundary x run boundary */
  for (int s = 0; s < nsy; s++) for (int g = 0; g < L.n; g++) for (int r = 0; r < L.n; r++) { if (L.v[g] > 4096 && L.v[r] > 4096) continue; if (!want(f)) continue; BEGIN(f); run(f, 8, 3 * W + 3); lit(f, L.v[g], 4); run(f, s2[s], L.v[r]); lit(f, (g + r) % 3 * 20, 5); emit(f); }
  /* run boundary at the very start / everything a run / only literals after */
  for (int s = 0; s < nsy; s++) for (int r = 0; r < L.n; r++) for (int p = 0; p < 3; p++) for (int t = 0; t < 3; t++) { if (!want(f)) continue; BEGIN(f); lit(f, p * 9, 4); run(f, s2[s], L.v[r]); if (t) { lit(f, t * 3, 5); run(f, s2[s], 4 * W + 2); } if (t == 2) lit(f, 50, 6); emit(f); }
}

/* ---- uniform inputs of every length ---- */
static void g_lits(fam_ctx *f)
{
  const int max = f->depth >= 3 ? 3000 : f->depth >= 2 ? 700 : f->depth >= 1 ? 400 : 150;
  for (int n = 1; n <= max; n++) { if (want(f)) { BEGIN(f); lit(f, n, (unsigned)n); emit(f); } for (int s = 0; s < 9; s++) { if (s > 1 && s < 7 && f->depth < 2) continue; if (want(f)) { BEGIN(f); run(f, s, n); emit(f); } } }
}

/* ---- periodic run/gap patterns, optionally rotating over several symbols ---- */
static void g_periodic(fam_ctx *f)
{
  const int W = f->c->width, d = f->depth; static const int rot[] = { 1, 2, 3, 4, 5, 8, 9 }; static const int sy[] = { 8, 0, 12, 2, 11, 9, 14, 6, 15 };
  static lst R, G; R.n = G.n = 0;
  addr(&R, 1, d >= 2 ? 20 : d >= 1 ? 12 : 6); add(&R, 2 * W); add(&R, 3 * W); add(&R, 2 * W + 1); add(&R, 3 * W + 2); if (d >= 1) { add(&R, 24); add(&R, 33); add(&R, 5 * W); }
  addr(&G, 0, d >= 2 ? 20 : d >= 1 ? 9 : 3); add(&G, 16); add(&G, 33); if (d >= 2) { add(&G, 64); add(&G, 130); }
  static const int K[] = { 3, 25, 9, 60 };
  for (int k = 0; k < (d >= 2 ? 4 : 2); k++) for (int q = 0; q < (d >= 1 ? 7 : 4); q++) for (int r = 0; r < R.n; r++) for (int g = 0; g < G.n; g++) { if (!want(f)) continue; BEGIN(f); for (int i = 0; i < K[k]; i++) { run(f, sy[i % rot[q]], R.v[r]); lit(f, G.v[g], 20 + i); } emit(f); }
}

/* ---- low entropy codecs: number of distinct symbols x run lengths x final run ---- */
static void put(fam_ctx *f, int b, long n) { if (n > 0 && f->n + (size_t)n <= f->cap) { memset(f->buf + f->n, b, (size_t)n); f->n += (size_t)n; } }
static void g_le(fam_ctx *f)
{
  const int d = f->depth;
  static const int ns[] = { 1, 2, 3, 254, 255, 256, 4, 5, 8, 127, 128, 200 };
  static const int rl[] = { 1, 2, 3, 4, 5, 6, 16, 31, 32, 33, 34, 64, 254, 255, 256, 257, 510, 511 };
  static const int lr[] = { 0, 1, 2, 3, 31, 32, 33, 254, 255, 256, 257, 509, 510, 511, 512, 600, 5, 17 };
  for (int a = 0; a < (d >= 2 ? LEN(ns) : 6); a++) for (int r = 0; r < LEN(rl); r++) for (int l = 0; l < (d >= 1 ? LEN(lr) : 8); l++) for (int st = 0; st < 2; st++) {
    if (!want(f)) continue; BEGIN(f); for (int i = 0; i < ns[a]; i++) put(f, (i * (st ? 7 : 1) + (st ? 3 : 0)) & 255, rl[r]); put(f, 0x55, lr[l]); emit(f); }
  /* isolated occurrences, then long final run; head/tail windows */
  for (int k = 0; k <= (d >= 2 ? 40 : 12); k++) for (int l = 0; l < LEN(lr); l++) for (int t = 0; t <= 2; t++) for (int h = 0; h < 2; h++) { if (!want(f)) continue; BEGIN(f); if (h) lit(f, 300, 9); for (int i = 0; i < k; i++) { put(f, 0xAA, 1); put(f, i & 15, 1); } put(f, 0xAA, lr[l] * (d >= 2 ? 3 : 1)); put(f, 0x11, t); emit(f); }
  /* two rle symbols with every pair of run lengths */
  for (int a = 1; a <= (d >= 2 ? 36 : 8); a++) for (int b = 1; b <= (d >= 2 ? 36 : 8); b++) for (int k = 2; k <= 20; k += 9) for (int g = 0; g <= 3; g++) { if (!want(f)) continue; BEGIN(f); for (int i = 0; i < k; i++) { put(f, 0x00, a); put(f, 0xC1, b); lit(f, g, 3 + i); } put(f, 0, 300 * (g & 1)); emit(f); }
}

/* ---- sh codec: run/copy block size classes, rle-symbol density in copies, secondary symbols ---- */
static void g_sh(fam_ctx *f)
{
  const int d = f->depth;
  static lst R, C; R.n = C.n = 0;
  addr(&R, 9, 16); add(&R, 0); add(&R, 3); add(&R, 40); addr(&R, 267, 271); if (d >= 2) { addr(&R, 1, 20); addr(&R, 253, 275); }
  addr(&C, 1, 9); addr(&C, 13, 16); addr(&C, 159, 164); addr(&C, 260, 264); addr(&C, 414, 419); addr(&C, 575, 580); if (d >= 2) { addr(&C, 1, 30); addr(&C, 155, 170); addr(&C, 250, 275); addr(&C, 405, 425); addr(&C, 822, 836); }
  static const int dens[] = { 0, 2, 3, 4, 9 }; static const int rs[] = { 0x7F, 0x00, 0x41 }; static const int sec[] = { 0x80, 0x7E, 0x13 };
  for (int s = 0; s < 3; s++) for (int a = 0; a < R.n; a++) for (int c = 0; c < C.n; c++) for (int k = 0; k < 5; k++) for (int q = 0; q < 4; q++) for (int b = 0; b < (d >= 1 ? 6 : 3); b++) {
    static const long r2[] = { 20, 0, 15, 11, 14, 300 };
    if (!want(f)) continue; BEGIN(f); put(f, rs[s], R.v[a]);
    for (long i = 0; i < C.v[c]; i++) { if (dens[k] && i % dens[k] == 0) put(f, rs[s], 1); else if (q < 3 && i % 3 == 1) put(f, sec[q], 1); else if (q < 3 && i % 5 == 2) put(f, sec[(q + 1) % 3], 1); else lit(f, 1, (unsigned)i); }
    put(f, b & 1 ? 0x22 : rs[s], r2[b]); if (b >= 3) lit(f, 5, 9); emit(f); }
  /* all words over runs of the current symbol, two others and literals; in an encoded copy block (dense in the run symbol) or in a plain one */
  enum { M = 13 }; long tot = 1;
  for (int m = 1; m <= (d >= 2 ? 5 : d >= 1 ? 4 : 3); m++) { tot *= M; for (int x = 0; x < 3; x++) for (long v = 0; v < tot; v++) {
    if (!want(f)) continue; BEGIN(f); long z = v; if (x) put(f, 0x41, 20); if (x == 2) for (int i = 0; i < 170; i++) put(f, i % 2 ? 0x41 : (i / 2 * 7) & 63, 1);
    for (int i = 0; i < m; i++, z /= M) { static const uint8_t sy[] = { 0, 0, 0, 0, 1, 1, 1, 2, 2, 2 }, ln[] = { 1, 2, 14, 40, 1, 2, 20, 1, 2, 11 }; const int k = (int)(z % M); if (k < 10) put(f, sy[k] == 0 ? (x ? 0x41 : 0x7F) : sy[k] == 1 ? 0xB0 : 0xC5, ln[k]); else lit(f, k == 10 ? 1 : k == 11 ? 3 : 20, 60 + (unsigned)i); }
    emit(f); } }
}

/* ---- 16/32 byte block transforms: sequences of sections of index-width classes ---- */
static void section(fam_ctx *f, int type, int blocks, uint8_t *cur)
{
  for (int b = 0; b < blocks; b++) for (int l = 0; l < 16; l++) {
    uint8_t v; /* consecutive blocks select history indices: 0: same as before (rle 0), 1: rotate among 2, 2: among 4, 3: among 8, 4: among 16, 5: full */
    switch (type) { case 0: v = cur[0]; break; case 1: v = (uint8_t)(cur[0] + (b & 1)); break; case 2: v = (uint8_t)((b * (l % 3 + 1) + l) & 3); break; case 3: v = (uint8_t)((b * (l % 5 + 1) + l) & 7); break; case 4: v = (uint8_t)((b * (l % 7 + 1) + l) & 15); break; default: v = (uint8_t)(b * 37 + l * 11); break; }
    if (f->n < f->cap) f->buf[f->n++] = v;
  }
  cur[0] = (uint8_t)(cur[0] + 3);
}
static void g_blocks(fam_ctx *f)
{
  const int d = f->depth; static const int bc[] = { 1, 2, 3, 4, 5, 6, 7, 12, 31, 32, 33, 127, 128, 129 };
  const int n2 = d >= 1 ? LEN(bc) : 8;
  for (int t1 = 0; t1 < 6; t1++) for (int b1 = 0; b1 < LEN(bc); b1++) for (int t2 = 0; t2 < 6; t2++) for (int b2 = 0; b2 < n2; b2++) for (int t3 = 0; t3 < (d >= 2 ? 6 : 2); t3++) for (int tail = 0; tail < 16; tail += (d >= 2 ? 3 : 7)) {
    if (!want(f)) continue; BEGIN(f); uint8_t cur = 0x41; section(f, t1, bc[b1], &cur); section(f, t2, bc[b2], &cur); if (t3) section(f, t3 - 1, 2, &cur); lit(f, tail, 4); emit(f); }
  for (int n = 1; n <= (d >= 2 ? 200 : 80); n++) for (int t = 0; t < 6; t++) { if (!want(f)) continue; BEGIN(f); uint8_t cur = 9; section(f, t, n / 16 + 1, &cur); f->n = (size_t)n; emit(f); }
}

/* ---- pairs of arbitrary bytes around runs (carry/borrow and sign classes) ---- */
static void g_pairs(fam_ctx *f)
{
  const int W = f->c->width, d = f->depth; static const uint8_t e[] = { 0x00, 0x01, 0x7E, 0x7F, 0x80, 0x81, 0xFE, 0xFF };
  const int rl = 3 * W + 5;
  for (int a = 0; a < (d >= 2 ? 256 : 8); a++) for (int b = 0; b < 8; b++) for (int p = 0; p < 2; p++) for (int q = 0; q < 3; q++) {
    if (!want(f)) continue; BEGIN(f); uint8_t A = d >= 2 ? (uint8_t)a : e[a]; lit(f, p * 35, 3); put(f, A, rl); put(f, e[b], q == 0 ? 1 : q == 1 ? W : rl); put(f, A, rl); if (q) { lit(f, 4, 5); put(f, e[b], rl); } emit(f); }
}

/* ---- lengths beyond 16/20/24 bit fields ---- */
static void g_big(fam_ctx *f)
{
  const int W = f->c->width, d = f->depth;
  static lst L; L.n = 0;
  static const long base[] = { 4096, 32768, 65536, 1 << 20, 1 << 17, 1 << 21, 1 << 24 };
  for (int b = 0; b < 7; b++) {
    const int huge = base[b] >= (1 << 20);
    const int lo = huge ? (d >= 2 ? -1 : 0) : -3, hi = huge ? (d >= 2 ? 3 : 1) : d >= 2 ? 6 : 4;
    for (int e = lo; e <= hi; e++) add(&L, base[b] + e);
    if (W > 1 && base[b] * W < (d >= 2 ? (1L << 23) + 64 : (1 << 20) + 64)) for (int e = lo; e <= hi; e++) { add(&L, (base[b] + e) * W); if (d >= 2) add(&L, (base[b] + e) * W + 1); }
    if (base[b] == 65536 || base[b] == 32768) for (int e = 0; e < 5; e++) { add(&L, base[b] + 127 + e); add(&L, base[b] + 254 + e); }
  }
  static const int s2[] = { 8, 0, 9, 6, 2 };
  for (int s = 0; s < (d >= 2 ? 5 : 3); s++) for (int k = 0; k < L.n; k++) for (int m = 0; m < 4; m++) {
    if (L.v[k] >= (1 << 20) - 8 && s > (d >= 2 ? 1 : 0) && d < 3) continue;
    if (L.v[k] > (long)f->cap - 4096) continue;
    if (!want(f)) continue; BEGIN(f);
    const long small = 3 * W + 3;
    switch (m) {
      case 0: run(f, 8, small); lit(f, 7, 1); run(f, s2[s], L.v[k]); break;                       /* big run last */
      case 1: run(f, 8, small); lit(f, L.v[k], 2); run(f, s2[s], small); lit(f, 3, 1); break;     /* big gap */
      case 2: lit(f, 5, 3); run(f, s2[s], L.v[k]); lit(f, 9, 1); run(f, 8, small); lit(f, 40, 2); break; /* big run, then small */
      case 3: run(f, 8, small); lit(f, L.v[k], 2); run(f, s2[s], L.v[k]); lit(f, L.v[k] / 7, 2); break; /* both big, big tail */
    }
    emit(f); }
}

/* ---- growth: every periodic pattern (run length, gap length, number of rotating symbols, optional second short run) whose stream grows faster per period than the output bound does,
   repeated until the bound must be exceeded; patterns without such growth are decided by the comparison of two and four (or four and eight) periods ---- */
uint64_t fam_screened;
static void g_grow_build(fam_ctx *f, int K, int q, long r, long g, int second) { static const int sy[] = { 8, 0, 12, 2, 11, 9, 14, 6, 15 }; BEGIN(f); for (int i = 0; i < K; i++) { run(f, sy[i % q], r); if (second) { lit(f, 3, 90); run(f, sy[(i + second) % 9], 2 * f->c->width + 1); } lit(f, g, 20 + i); } }
static void g_grow(fam_ctx *f)
{
  const int W = f->c->width, d = f->depth; static uint8_t *out; static size_t outCap; static lst R, G; R.n = G.n = 0;
  if (!out) { outCap = (f->cap < (8u << 20) ? f->cap : 8u << 20) * 2 + (1 << 20); out = malloc(outCap); }
  addr(&R, 1, 2 * W + 12); addr(&R, 3 * W, 3 * W + 2); if (d >= 2) addr(&R, 1, 4 * W + 20);
  addr(&G, 0, d >= 2 ? 40 : 10); addr(&G, 14, 17); addr(&G, 30, 33); addr(&G, 60, 65); addr(&G, 124, 130); addr(&G, 253, 258); addr(&G, 509, 514); addr(&G, 1021, 1026); addr(&G, 2045, 2050); addr(&G, 65532, 65536); if (d >= 2) { addr(&G, 250, 300); addr(&G, 4093, 4098); addr(&G, 65526, 65540); add(&G, 131072); add(&G, 1 << 20); }
  static const int Q[] = { 1, 9, 2, 5, 3, 4, 8 };
  for (int q0 = 0; q0 < (d >= 2 ? 7 : 4); q0++) for (int g = 0; g < G.n; g++) for (int r = 0; r < R.n; r++) for (int second = 0; second < (d >= 2 ? 3 : 2); second++) {
    const int q = Q[q0], big = G.v[g] > 4096; if (d < 2 && second && (G.v[g] > 260 || q0 == 3)) continue; if (big && (q0 > 1 || (second && d < 2) || (d < 2 && !(R.v[r] >= 2 * W && R.v[r] <= 2 * W + 4) && !(R.v[r] >= 3 && R.v[r] <= 12)))) continue;
    if (!want(f)) continue;
    const int K1 = (big ? 2 : 4) * q, K2 = 2 * K1; const size_t unit = (size_t)R.v[r] + (size_t)G.v[g] + (second ? 3 + 2 * (size_t)W + 1 : 0);
    if (unit * (size_t)K2 > f->cap || unit * (size_t)K2 * 2 > outCap) continue;
    static const int lvs[] = { LV_NONE, LV_SSE2, LV_AVX2 }; long amplify = 0; fam_screened++;
    long e[2][3], b[2]; size_t n[2];
    for (int h = 0; h < 2; h++) {
      g_grow_build(f, h ? K2 : K1, q, R.v[r], G.v[g], second); n[h] = f->n; b[h] = f->c->bounds((uint32_t)f->n);
      for (int l = 0; l < 3; l++) { uint32_t v = 0; int sig; if (lvs[l] >= hx_levels_available) { e[h][l] = 0; continue; } hx_set_level(lvs[l]); HX_TRY(v = f->c->enc(f->buf, (uint32_t)f->n, out, (uint32_t)(outCap < 0x7fffffff ? outCap : 0x7fffffff)), sig); e[h][l] = v; if (sig || (long)v > b[h]) amplify = -1; }
    }
    if (!amplify) for (int l = 0; l < 3; l++) { if (!e[0][l] || !e[1][l]) continue; const long x = (e[1][l] - e[0][l]) - (b[1] - b[0]); if (x > 0) { const long c = (b[0] - e[0][l]) / x + 2; const long k = K1 + c * (K2 - K1); if (!amplify || k < amplify) amplify = k; } }
    if (!amplify) continue; if (amplify > 0 && (size_t)amplify * unit > f->cap) continue;
    if (amplify > 0) g_grow_build(f, (int)amplify, q, R.v[r], G.v[g], second);
    emit(f);
  }
}

/* ---- a long gap, then a group of runs each too short to be worth a block of their own ---- */
static void g_waste(fam_ctx *f)
{
  const int W = f->c->width, d = f->depth; static lst R, G; R.n = G.n = 0;
  addr(&R, 1, d >= 1 ? 12 : 6); add(&R, W); add(&R, 2 * W); add(&R, 2 * W + 1); add(&R, 3 * W); if (d >= 2) addr(&R, 1, 3 * W + 4);
  add(&G, 126); add(&G, 130); add(&G, 300); if (d >= 1) { addr(&G, 253, 258); add(&G, 500); add(&G, 2100); }
  static const long H[] = { 1, 30, 2, 90, 5, 200 }; static const long S[] = { 40, 0, 3 };
  for (int first = 0; first < 2; first++) for (int g = 0; g < G.n; g++) for (int r = 0; r < R.n; r++) for (int k = 1; k <= (d >= 2 ? 7 : 5); k++) for (int h = 0; h < (d >= 2 ? 6 : d >= 1 ? 4 : 2); h++) for (int t = 0; t < (d >= 2 ? 3 : 2); t++) for (int o = 0; o < 2; o++) {
    if (!want(f)) continue; BEGIN(f); if (first) run(f, 8, 60); lit(f, G.v[g], 4); for (int i = 0; i < k; i++) { run(f, o && i == 1 ? 9 : 8, R.v[r]); lit(f, i == k - 1 ? S[t] : H[h], 7 + (unsigned)i); } if (t == 0) run(f, 8, 25); emit(f); }
}

/* ---- all words over a menu of segments ---- */
static void g_seq(fam_ctx *f)
{
  const int W = f->c->width, d = f->depth; enum { M = 10 };
  const int maxm = d >= 3 ? 6 : d >= 2 ? 5 : d >= 1 ? 4 : 3; long tot = 1;
  for (int m = 1; m <= maxm; m++) { tot *= M; for (long v = 0; v < tot; v++) {
    if (!want(f)) continue; BEGIN(f); long z = v;
    for (int i = 0; i < m; i++, z /= M) switch (z % M) {
      case 0: run(f, 8, 2 * W); break; case 1: run(f, 8, 3 * W + 1); break; case 2: run(f, 8, W); break; case 3: run(f, 8, 24 + W); break;
      case 4: run(f, 9, 2 * W + 1); break; case 5: run(f, 9, 5 * W + 6); break; case 6: run(f, 0, 3 * W); break;
      case 7: lit(f, 1, 30 + (unsigned)i); break; case 8: lit(f, 18, 31 + (unsigned)i); break; default: lit(f, 270, 32 + (unsigned)i); break; }
    emit(f); } }
}

/* ---- more than 2^16 (2^20) runs, streams beyond 2^16 and 2^24 bytes: counters and offsets ---- */
static void g_many(fam_ctx *f)
{
  const int W = f->c->width, d = f->depth; static const int sy[] = { 8, 0, 12, 2, 11, 9, 14, 6, 15 };
  const struct { int q; long r, g, k; } P[] = { { 1, 3 * W + 5, 5, 66000 }, { 9, 2 * W + 2, 1, 66000 }, { 5, 3 * W + 5, 300, 58000 }, { 9, 3 * W + 1, 2, 263000 }, { 1, W + 2, 3, 140000 }, { 3, 20 + 4 * W, 40, 131100 }, { 2, 300, 258, 66000 }, { 9, 3 * W + 7, 4, 1049000 } };
  for (int i = 0; i < (d >= 2 ? 8 : 3); i++) for (int t = 0; t < (d >= 2 ? 2 : 1); t++) {
    if ((size_t)(P[i].r + P[i].g) * (size_t)P[i].k > f->cap) continue; if (!want(f)) continue;
    BEGIN(f); if (t) lit(f, 70000, 3); for (long k = 0; k < P[i].k; k++) { run(f, sy[(k + k / 1000) % P[i].q], P[i].r); lit(f, P[i].g, (unsigned)(20 + k * 3)); } emit(f); }
}

void fam_run(fam_ctx *f, unsigned mask)
{
  static void (*const fn[G_COUNT])(fam_ctx *) = { g_units, g_grid, g_gridp, g_two, g_lut, g_thresh, g_lits, g_periodic, g_le, g_sh, g_blocks, g_bytes, g_big, g_pairs, g_grow, g_waste, g_seq, g_many };
  for (int i = 0; i < G_COUNT && !f->stop; i++) {
    if (!(mask >> i & 1)) continue;
    const int fam = f->c->fam;
    if (i == G_LUT && fam != FAM_LUT && fam != FAM_SHORT && !(fam == FAM_X)) continue;
    if (i == G_LE && !(fam == FAM_LE || fam == FAM_SH || (fam == FAM_X && f->c->width == 1) || (fam == FAM_SHORT && f->c->width == 1))) continue;
    if ((i == G_GROW || i == G_WASTE || i == G_SEQ) && (fam == FAM_MMTF || fam == FAM_BITMMTF)) continue;
    if (i == G_SH && fam != FAM_SH) continue;
    if (i == G_BLOCKS && fam != FAM_RLEMMTF && fam != FAM_MMTF && fam != FAM_BITMMTF) continue;
    f->family = i; fn[i](f);
  }
}
