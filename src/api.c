/* C06 rejection, C08 move-to-front transforms, C09 sub-sections & statistics interface, C17 runs compress */
#include "par.h"
#include "fam.h"
#include "rle.h"
#include "simd_platform.h"
#undef IN
#undef OUT
static hx_arena A_in, A_c, A_out, A_x;
static const hx_arena *const arenas[] = { &A_in, &A_c, &A_out, &A_x };
static char wb[96];
static const char *where(void) { return hx_fault_where(wb, sizeof wb, (const hx_arena **)arenas, 4); }
static int all_are(const uint8_t *p, size_t n, uint8_t v) { for (size_t i = 0; i < n; i++) if (p[i] != v) return 0; return 1; }
#define LV(l) hx_level_names[l]
#define CAP (24u << 20)
static void arenas_init(void) { if (A_in.base) return; hx_arena_init(&A_in, "input", CAP); hx_arena_init(&A_c, "compressed", CAP); hx_arena_init(&A_out, "output", CAP); hx_arena_init(&A_x, "scratch", CAP); }
static const hx_codec *C;

/* ------------------------------------------------------------------ C06 */
static uint8_t src[CAP]; static uint32_t N;
#define UNT 0xC5
/* a call that has to be rejected: returns 0 and leaves [chk, chk + len) as it was */
static int rejected(codec_fn fn, const uint8_t *in, uint32_t n, uint8_t *out, uint32_t m, uint8_t *chk, size_t len, const char *what)
{
  int sig; uint32_t r = 0; p_evals++;
  PAR_CALL(r = fn(in, n, out, m), sig);
  if (sig) { par_viol("%s: %s at %s instead of being rejected", what, par_sig(sig), where()); return 0; }
  if (r) { par_viol("%s: accepted (returned %u)", what, r); return 0; }
  if (!all_are(chk, len, UNT)) { par_viol("%s: rejected, but output buffer was modified", what); return 0; }
  return 1;
}
static void c06_input(void)
{
  static uint8_t st[CAP]; char w[160];
  const int transform = C->fam == FAM_MMTF || C->fam == FAM_BITMMTF;
  const uint32_t B = C->bounds(N); uint8_t *pin = A_in.end - N; memcpy(pin, src, N); p_cases++;
  for (int lv = 0; lv < hx_levels_available && !PAR_STOP(); lv++) {
    const int mayFail = lv == LV_NONE && hx_needs_sse2(C);
    hx_set_level(lv); PAR_WHAT("codec=%s level=%s n=%u data=%02x%02x%02x..", C->name, LV(lv), N, src[0], N > 1 ? src[1] : 0, N > 2 ? src[2] : 0);
    uint8_t *full = A_c.end - B; int sig; uint32_t r = 0;
    memset(A_c.end - B - 64, UNT, B + 64);
    /* missing buffers, empty input */
    for (int k = 0; k < 2; k++) {
      const uint32_t os = k ? 0xFFFFFFFFu : B;
      if (!rejected(C->enc, NULL, N, full, os, full, B, "compress(pIn = NULL)")) return;
      if (!rejected(C->enc, pin, N, NULL, os, full, B, "compress(pOut = NULL)")) return;
      if (!rejected(C->enc, NULL, N, NULL, os, full, B, "compress(pIn = pOut = NULL)")) return;
      if (!rejected(C->enc, A_in.end, 0, full, os, full, B, "compress(inSize = 0)")) return;
      if (!rejected(C->enc, NULL, 0, full, os, full, B, "compress(pIn = NULL, inSize = 0)")) return;
    }
    /* every output size below the bound; the buffer really is only that large */
    for (uint32_t m = 0; m < B; m++) {
      if (N > 700 && m > 80 && m + 400 < B && m % 61) continue;
      snprintf(w, sizeof w, "compress(outSize = %u) with bound %u", m, B);
      uint8_t *o = A_c.end - m; if (!rejected(C->enc, pin, N, o, m, o - 64, m + 64, w)) return;
      p_nontriv++;
    }
    /* the bound itself and more is accepted */
    PAR_CALL(r = C->enc(pin, N, full, B), sig); p_evals++;
    if (sig) { par_viol("compress(outSize = bound): %s at %s", par_sig(sig), where()); return; }
    if (r == 0) { if (mayFail) continue; par_viol("compress(outSize = bound) rejected"); return; }
    memcpy(st, full, r);
    uint8_t *o2 = A_c.base; uint32_t r2 = 0; PAR_CALL(r2 = C->enc(pin, N, o2, B + 1 + N % 200), sig);
    if (sig || r2 != r || memcmp(o2, st, r)) { par_viol("compress(outSize = bound + %u): different result (%u, expected %u)", 1 + N % 200, r2, r); return; }
    /* decoder */
    uint8_t *ps = A_c.end - r; memcpy(ps, st, r);
    uint8_t *po = A_out.end - N - 128; memset(po - 64, UNT, N + 128 + 64);
    if (!rejected(C->dec, NULL, r, po, N, po, N + 128, "decompress(pIn = NULL)")) return;
    if (!rejected(C->dec, ps, r, NULL, N, po, N + 128, "decompress(pOut = NULL)")) return;
    if (!rejected(C->dec, NULL, r, NULL, N, po, N + 128, "decompress(pIn = pOut = NULL)")) return;
    if (!rejected(C->dec, A_c.end, 0, po, N, po, N + 128, "decompress(inSize = 0)")) return;
    for (uint32_t m = 0; m < N; m++) {
      if (N > 700 && m > 80 && m + 200 < N && m % 61) continue;
      snprintf(w, sizeof w, "decompress(outSize = %u) of %u bytes", m, N);
      uint8_t *o = A_out.end - m; if (!rejected(C->dec, ps, r, o, m, o - 64, m + 64, w)) return;
    }
    if (!transform) for (uint32_t m = 0; m < r; m++) {
      if (N > 700 && m > 80 && m + 200 < r && m % 61) continue;
      snprintf(w, sizeof w, "decompress(inSize = %u) of a stream of %u bytes", m, r);
      uint8_t *t = A_c.end - m; memcpy(t, st, m); memset(po - 64, UNT, N + 128 + 64);
      if (!rejected(C->dec, t, m, po, N, po - 64, N + 128 + 64, w)) return;
      p_nontriv++;
    }
    uint8_t *pf = A_c.end - B; memcpy(pf, st, r);
    PAR_CALL(r2 = C->dec(pf, r, po, N), sig); p_evals++;
    if (sig || r2 != N || memcmp(po, src, N)) { par_viol("decompress with exact sizes: rejected or wrong (%u)", r2); return; }
  }
}
static void c06_big(void)
{
  /* inputs above the maximum: nothing of them may be touched */
  if (C->fam == FAM_MMTF || C->fam == FAM_BITMMTF) return;
  const int wrap = C->fam == FAM_LE || C->fam == FAM_SH; /* no maximum but the one of the 32 bit bound */
  static const uint32_t big[] = { (1u << 30) + 1, (1u << 30) + 2, (1u << 30) + 255, 0x7FFFFFFFu, 0x80000000u, 0x80000001u, 0xC0000000u, 0xFDFFFFFFu, 0xFE03F80Fu, 0xFE100000u, 0xFF000000u, 0xFFFFFE00u, 0xFFFFFED4u, 0xFFFFFED5u, 0xFFFFFF00u, 0xFFFFFFF0u, 0xFFFFFFFEu, 0xFFFFFFFFu };
  char w[128];
  if (C->bounds(1u << 30) < (1u << 30)) { PAR_WHAT("codec=%s", C->name); par_viol("bound of 2^30 is %u", C->bounds(1u << 30)); return; }
  for (int lv = 0; lv < hx_levels_available; lv++) for (size_t b = 0; b < sizeof big / sizeof big[0]; b++) for (int k = 0; k < 4; k++) {
    const uint32_t os = k == 0 ? 0 : k == 1 ? 4096 : k == 2 ? big[b] : 0xFFFFFFFFu; hx_set_level(lv); p_cases++; p_nontriv++;
    PAR_WHAT("codec=%s level=%s", C->name, LV(lv)); snprintf(w, sizeof w, "compress(inSize = %u, outSize = %u)", big[b], os);
    if (wrap && C->bounds(big[b])) { if (C->bounds(big[b]) < big[b]) { par_viol("bound of %u is %u", big[b], C->bounds(big[b])); return; } continue; }
    if (C->bounds(big[b])) { par_viol("bound of %u is %u, expected 0 (unsupported)", big[b], C->bounds(big[b])); return; }
    uint8_t *in = A_in.end - 64, *o = A_c.end - 4096; memset(in, 0x41, 64); memset(o, UNT, 4096);
    if (!rejected(C->enc, in, big[b], o, os, o, 4096, w)) return;
    in = A_in.end; if (!rejected(C->enc, in, big[b], o, os, o, 4096, w)) return;
  }
}
static void c06_misc(void)
{
  PAR_WHAT("rle8_low_entropy_decompressed_size"); int sig; uint32_t r = 0;
  for (uint32_t n = 0; n < 8; n++) { uint8_t *p = A_in.end - n; memset(p, 0x11, n); PAR_CALL(r = rle8_low_entropy_decompressed_size(p, n), sig); p_evals++; if (sig || r) { par_viol("size query of %u bytes: %s / %u", n, sig ? par_sig(sig) : "ok", r); return; } }
  { /* section counts and sizes whose bound does not fit */
    static const uint32_t cs[] = { 1, 2, 3, 1u << 16, (1u << 28) + 5, (1u << 29) - 40, (1u << 29) - 1, 1u << 29, (1u << 29) + 1, 3u << 28, 1u << 30, 0x7FFFFFFFu, 0x80000000u, 0xC0000000u, 0xFFFFFFFEu, 0xFFFFFFFFu }, ns[] = { 1, 4, 64, 0x10000, 0x40000000u, 0x80000001u, 0xFFFF0000u, 0xFFFFFED0u, 0xFFFFFFFFu };
    for (size_t a = 0; a < sizeof cs / sizeof cs[0]; a++) for (size_t b = 0; b < sizeof ns / sizeof ns[0]; b++) {
      const uint32_t bd = rle8m_compress_bounds(cs[a], ns[b]); p_cases++; p_nontriv++; PAR_WHAT("rle8m_compress with %u sub-sections, %u bytes", cs[a], ns[b]);
      if (bd) { if ((uint64_t)bd < (uint64_t)ns[b] + 4ull * (cs[a] - 1)) { par_viol("bound %u", bd); return; } continue; }
      for (int k = 0; k < 3; k++) { uint8_t *in = A_in.end - 64, *o = A_c.end - 4096; memset(in, 0x41, 64); memset(o, UNT, 4096); r = 0; PAR_CALL(r = rle8m_compress(cs[a], in, ns[b], o, k == 0 ? 4096 : k == 1 ? 0x7FFFFFFFu : 0xFFFFFFFFu), sig); p_evals++; if (sig || r || !all_are(o, 4096, UNT)) { par_viol("%s instead of a rejection", sig ? par_sig(sig) : r ? "accepted" : "output modified"); return; } }
    }
  }
  PAR_WHAT("rle8_low_entropy_decompressed_size"); PAR_CALL(r = rle8_low_entropy_decompressed_size(NULL, 100), sig); if (sig || r) par_viol("size query of NULL");
}
static void t_c06(unsigned t)
{
  arenas_init(); const int ci = (int)(t / 4), part = (int)(t % 4); C = &hx_codecs[ci]; if (!strstr(C->name, par_filter)) return;
  const int W = C->width;
  if (part == 0) { c06_big(); if (ci == 0) c06_misc(); }
  int k = 0;
  static const int rl[] = { 0, 1, 2, 3, 5, 9, 13, 20, 33, 64, 130, 300 }, pl[] = { 0, 1, 7, 16, 40, 100 };
  static const int rl2[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 40, 63, 64, 65, 126, 130, 255, 256, 300, 600, 1100 };
  const int *R = par_depth >= 2 ? rl2 : rl; const int nr = par_depth >= 2 ? (int)(sizeof rl2 / sizeof rl2[0]) : (int)(sizeof rl / sizeof rl[0]);
  for (int s = 0; s < 2; s++) for (int p = 0; p < 6; p++) for (int r = 0; r < nr; r++) for (int q = 0; q < 3; q++) {
    if (k++ % 4 != part) continue; if (PAR_STOP()) return;
    N = 0; N += (uint32_t)hx_put_lit(src + N, (size_t)pl[p], 3); N += (uint32_t)hx_put_run(src + N, s ? 0 : 8, W, (size_t)R[r]); if (q) { N += (uint32_t)hx_put_lit(src + N, (size_t)q * 5, 5); N += (uint32_t)hx_put_run(src + N, q == 1 ? 11 : 8, W, (size_t)(3 * W + 4)); }
    if (N) c06_input();
  }
}

/* ------------------------------------------------------------------ C08 */
typedef struct { const char *name; codec_fn enc, dec; int lanes, bit; } xf;
static const xf xfs[] = { { "mmtf128", mmtf128_encode, mmtf128_decode, 16, 0 }, { "mmtf256", mmtf256_encode, mmtf256_decode, 32, 0 }, { "bitmmtf8", bitmmtf8_encode, bitmmtf8_decode, 1, 1 }, { "bitmmtf16", bitmmtf16_encode, bitmmtf16_decode, 2, 1 } };
static void model_enc(const xf *x, const uint8_t *in, uint32_t n, uint8_t *out)
{
  if (x->bit) { for (uint32_t i = 0; i < n; i++) { if (x->lanes == 2 && (n & 1) && i == n - 1) out[i] = in[i]; else out[i] = (uint8_t)(in[i] ^ (i >= (uint32_t)x->lanes ? in[i - (uint32_t)x->lanes] : 0)); } return; }
  static uint8_t h[32][256]; for (int l = 0; l < x->lanes; l++) for (int i = 0; i < 256; i++) h[l][i] = (uint8_t)i;
  for (uint32_t i = 0; i < n; i++) { uint8_t *H = h[i % (uint32_t)x->lanes]; int k = 0; while (H[k] != in[i]) k++; out[i] = (uint8_t)k; memmove(H + 1, H, (size_t)k); H[0] = in[i]; }
}
static void model_dec(const xf *x, const uint8_t *in, uint32_t n, uint8_t *out)
{
  if (x->bit) { for (uint32_t i = 0; i < n; i++) { if (x->lanes == 2 && (n & 1) && i == n - 1) out[i] = in[i]; else out[i] = (uint8_t)(in[i] ^ (i >= (uint32_t)x->lanes ? out[i - (uint32_t)x->lanes] : 0)); } return; }
  static uint8_t h[32][256]; for (int l = 0; l < x->lanes; l++) for (int i = 0; i < 256; i++) h[l][i] = (uint8_t)i;
  for (uint32_t i = 0; i < n; i++) { uint8_t *H = h[i % (uint32_t)x->lanes]; int k = in[i]; uint8_t v = H[k]; out[i] = v; memmove(H + 1, H, (size_t)k); H[0] = v; }
}
static const xf *X;
/* one transform call: placement pl 0: both flush right, 1: both flush left (page aligned), 2+: alignments */
static int c08_call(codec_fn fn, const char *dir, const uint8_t *data, uint32_t n, const uint8_t *want, int lv, int pl, uint32_t ia, uint32_t oa)
{
  uint8_t *pi, *po; uint32_t m = n;
  if (pl == 0) { pi = A_in.end - n; po = A_out.end - n; } else if (pl == 1) { pi = A_in.base; po = A_out.base; } else { pi = A_in.base + 4096 + ia; po = A_out.base + 4096 + oa; m = n + (ia & 3); }
  memcpy(pi, data, n); if (pl) memset(pi + n, 0x77, 64);
  memset(po, (uint8_t)~want[0], n); if (pl != 1) memset(po - 64, UNT, 64); if (pl != 0) memset(po + n, UNT, 64);
  int sig; uint32_t r = 0; PAR_CALL(r = fn(pi, n, po, m), sig); p_evals++;
  if (sig) { par_viol("%s: %s at %s (n=%u, placement %d in+%u out+%u)", dir, par_sig(sig), where(), n, pl, ia, oa); return 0; }
  if (r == 0 && lv == LV_NONE && !X->bit) return 1;
  if (r != n) { par_viol("%s: returned %u, expected %u", dir, r, n); return 0; }
  if (memcmp(po, want, n)) { uint32_t i = 0; while (po[i] == want[i]) i++; par_viol("%s: byte %u is 0x%02x, model 0x%02x (n=%u, placement %d in+%u out+%u)", dir, i, po[i], want[i], n, pl, ia, oa); return 0; }
  if ((pl != 1 && !all_are(po - 64, 64, UNT)) || (pl != 0 && !all_are(po + n, 64, UNT))) { par_viol("%s: wrote outside the %u output bytes", dir, n); return 0; }
  if (memcmp(pi, data, n)) { par_viol("%s: modified its input", dir); return 0; }
  return 1;
}
static int c08_case(const uint8_t *data, uint32_t n, int deep)
{
  static uint8_t e[CAP], d[CAP]; if (!n || PAR_STOP()) return 0;
  model_enc(X, data, n, e); model_dec(X, data, n, d); p_cases++; if (memcmp(e, data, n)) p_nontriv++;
  PAR_WHAT("%s n=%u data=%02x%02x%02x%02x%02x%02x..", X->name, n, data[0], n > 1 ? data[1] : 0, n > 2 ? data[2] : 0, n > 3 ? data[3] : 0, n > 4 ? data[4] : 0, n > 5 ? data[5] : 0);
  for (int lv = 0; lv < hx_levels_available; lv++) {
    hx_set_level(lv); if (!deep && (lv == LV_SSSE3 || lv == LV_AVX || lv == LV_AVX512)) continue; /* no code of their own; explored with the deep set */
    for (int pl = 0; pl < 2; pl++) {
      if (!c08_call(X->enc, "encode", data, n, e, lv, pl, 0, 0)) return 0;
      if (!c08_call(X->dec, "decode(encode)", e, n, data, lv, pl, 0, 0)) return 0;
      if (!c08_call(X->dec, "decode", data, n, d, lv, pl, 0, 0)) return 0;
      if (!c08_call(X->enc, "encode(decode)", d, n, data, lv, pl, 0, 0)) return 0;
    }
    if (deep) for (uint32_t ia = 0; ia < 33; ia++) for (uint32_t oa = 0; oa < 64; oa += (deep > 1 ? 1 : oa % 16 == 15 || oa % 16 == 0 ? 1 : 7)) {
      if (!c08_call(X->enc, "encode", data, n, e, lv, 2, ia, oa)) return 0;
      if (!c08_call(X->dec, "decode", e, n, data, lv, 2, oa & 31, ia)) return 0;
    }
  }
  return 1;
}
static void t_c08(unsigned t)
{
  arenas_init(); X = &xfs[t % 4]; const unsigned shard = t / 4, ns = 16; uint64_t k = 0; const int L = X->bit ? 16 : X->lanes, dp = par_depth;
  static uint8_t b[CAP];
#define MINE (k++ % ns == shard)
  /* every length, contents: literal, constants, ramp; alignment exploration */
  for (uint32_t n = 1; n <= (uint32_t)(dp >= 2 ? 200 : 100); n++) for (int c = 0; c < 5; c++) if (MINE) { for (uint32_t i = 0; i < n; i++) b[i] = c == 0 ? (uint8_t)(i * 37 + 11) : c == 1 ? 0xFF : c == 2 ? 0 : c == 3 ? (uint8_t)(i / (uint32_t)L) : (uint8_t)(i % 3 ? 0x80 : i); c08_case(b, n, dp >= 2 ? 2 : n % 3 == 0 ? 1 : 0); if (PAR_STOP()) return; }
  /* one lane deviates from a uniform block: lane x value x background x position in a sequence of blocks */
  for (int l = 0; l < L; l++) for (int v = 0; v < 256; v++) for (int bg = 0; bg < (dp >= 2 ? 6 : 3); bg++) for (int at = 0; at < 3; at++) if (MINE) {
    static const uint8_t bgs[] = { 0, 0xFF, 0x7F, 0x80, 1, 0xFE }; memset(b, bgs[bg], (size_t)L * 3); b[at * L + l] = (uint8_t)v; c08_case(b, (uint32_t)(L * 3 + (v & 1 ? l : 0)), 0); if (PAR_STOP()) return; }
  /* all sequences of blocks from a menu */
  const int M = 7, maxk = dp >= 2 ? 6 : 5; long tot = 1;
  for (int q = 1; q <= maxk; q++) { tot *= M; for (long s = 0; s < tot; s++) if (MINE) {
    long z = s; uint32_t n = 0; for (int i = 0; i < q; i++, z /= M) for (int l = 0; l < L; l++) { int m = (int)(z % M); b[n++] = (uint8_t)(m == 0 ? 0 : m == 1 ? 0xFF : m == 2 ? l : m == 3 ? 255 - l : m == 4 ? l * 16 + 3 : m == 5 ? (l & 1 ? 0x80 : 0x7F) : (l == 5 ? 0xFE : 1)); }
    c08_case(b, n - (uint32_t)(s % 3 ? 0 : q), 0); if (PAR_STOP()) return; } }
  /* byte strings over a small alphabet */
  for (int q = 1; q <= (dp >= 2 ? 9 : 7); q++) { long tt = 1; for (int i = 0; i < q; i++) tt *= 4; for (long s = 0; s < tt; s++) if (MINE) { static const uint8_t al[] = { 0, 1, 0x80, 0xFF }; for (int i = 0; i < q; i++) b[i] = al[(s >> (2 * i)) & 3]; c08_case(b, (uint32_t)q, 0); if (PAR_STOP()) return; } }
  /* long: all 256 values per lane in different orders */
  for (int o = 1; o < 256; o += dp >= 2 ? 2 : 10) if (MINE) { uint32_t n = 0; for (int i = 0; i < 300; i++) for (int l = 0; l < L; l++) b[n++] = (uint8_t)(i * o + l * (o | 4)); c08_case(b, n + (uint32_t)(o % 5 ? 0 : 0), o % 20 == 1); if (PAR_STOP()) return; }
  /* lengths beyond 16 and 20 bits */
  static const uint32_t bn[] = { 65535, 65536, 65537, 65536 * 2 + 31, (1 << 20) + 17 }; for (int i = 0; i < (dp >= 2 ? 5 : 4); i++) for (int c = 0; c < 3; c++) if (MINE) { for (uint32_t x = 0; x < bn[i]; x++) b[x] = c == 0 ? (uint8_t)(x * 37 + (x >> 8)) : c == 1 ? (uint8_t)(x >> 12) : (uint8_t)((x & 511) < 64 ? x : x % 3); c08_case(b, bn[i], 0); if (PAR_STOP()) return; }
}

/* ------------------------------------------------------------------ C09 */
static int c09_m(const uint8_t *data, uint32_t n, uint32_t s)
{
  static uint8_t st[CAP]; const uint32_t B = rle8m_compress_bounds(s, n); uint8_t *pin = A_in.end - n, *pc = A_c.end - B; memcpy(pin, data, n); p_cases++; if (s > 1) p_nontriv++;
  int sig; uint32_t r = 0;
  PAR_WHAT("rle8m n=%u sub-sections=%u data=%02x%02x%02x..", n, s, data[0], n > 1 ? data[1] : 0, n > 2 ? data[2] : 0);
  memset(pc - 64, UNT, 64);
  PAR_CALL(r = rle8m_compress(s, pin, n, pc, B), sig); p_evals++;
  if (sig) { par_viol("rle8m_compress: %s at %s (bound %u)", par_sig(sig), where(), B); return 0; }
  if (r == 0 || r > B) { par_viol("rle8m_compress returned %u (bound %u)", r, B); return 0; }
  if (!all_are(pc - 64, 64, UNT)) { par_viol("rle8m_compress wrote before the buffer"); return 0; }
  if (memcmp(pin, data, n)) { par_viol("rle8m_compress modified its input"); return 0; }
  memcpy(st, pc, r);
  for (int lv = 0; lv < hx_levels_available; lv++) {
    hx_set_level(lv); uint8_t *po = A_out.end - 128 - n; memset(po - 64, UNT, n + 192); for (uint32_t i = 0; i < n; i++) po[i] = (uint8_t)~data[i];
    uint32_t d = 0; PAR_CALL(d = rle8m_decompress(pc, r, po, n), sig); p_evals++;
    if (sig) { par_viol("rle8m_decompress at level %s: %s at %s", LV(lv), par_sig(sig), where()); return 0; }
    if (d != n || memcmp(po, data, n)) { par_viol("rle8m_decompress at level %s: returned %u, wrong data", LV(lv), d); return 0; }
    if (!all_are(po - 64, 64, UNT)) { par_viol("rle8m_decompress wrote before the buffer"); return 0; }
    if (memcmp(pc, st, r)) { par_viol("rle8m_decompress modified its input"); return 0; }
  }
  return 1;
}
/* statistics gathered from one input, used for another */
static int c09_info(const uint8_t *sd, uint32_t sn, const uint8_t *data, uint32_t n, const char *what)
{
  static uint8_t hdr[1024];
  for (int mode = 0; mode < 2; mode++) for (int variant = 0; variant < 2; variant++) {
    rle8_low_entropy_compress_info_t ci; rle8_low_entropy_decompress_info_t di; int sig; bool ok = false; uint32_t h = 0, h2 = 0, r = 0; p_cases++;
    PAR_WHAT("%s: statistics(%s) of %u bytes, %s data of %u bytes", what, mode ? "max frequency" : "all", sn, variant ? "short" : "normal", n);
    uint8_t *ps = A_x.end - sn; memcpy(ps, sd, sn);
    memset(&ci, 0x5A, sizeof ci); memset(&di, 0xA5, sizeof di);
    PAR_CALL(ok = mode ? rle8_low_entropy_get_compress_info_only_max_frequency(ps, sn, &ci) : rle8_low_entropy_get_compress_info(ps, sn, &ci), sig);
    if (sig || !ok) { par_viol("gathering statistics failed (%s at %s)", sig ? par_sig(sig) : "false", sig ? where() : "-"); return 0; }
    PAR_CALL(h = rle8_low_entropy_write_compress_info(&ci, hdr, 256 / 8 + 1 + 256), sig);
    if (sig || !h || h > 256 / 8 + 1 + 256) { par_viol("storing statistics returned %u", h); return 0; }
    const uint32_t cap = 2 * n + 2; uint8_t *pin = A_in.end - n, *pc = A_c.end - cap; memcpy(pin, data, n);
    PAR_CALL(r = (variant ? rle8_low_entropy_short_compress_with_info : rle8_low_entropy_compress_with_info)(pin, n, &ci, pc, cap), sig); p_evals++;
    if (sig) { par_viol("compress_with_info: %s at %s", par_sig(sig), where()); return 0; }
    if (!r || r > cap) { par_viol("compress_with_info returned %u with %u bytes of space", r, cap); return 0; }
    if (memcmp(pin, data, n)) { par_viol("compress_with_info modified its input"); return 0; }
    if (r > n) p_nontriv++;
    static uint8_t st[CAP]; memcpy(st, pc, r);
    /* every smaller buffer: either 0 or the same stream, nothing outside */
    if (n <= 80) for (uint32_t m = 0; m < cap; m++) { uint8_t *pm = A_c.end - m; uint32_t q = 0; PAR_CALL(q = (variant ? rle8_low_entropy_short_compress_with_info : rle8_low_entropy_compress_with_info)(pin, n, &ci, pm, m), sig); p_evals++; if (sig) { par_viol("compress_with_info with %u bytes of space: %s at %s", m, par_sig(sig), where()); return 0; } if (q && (q != r || memcmp(pm, st, r))) { par_viol("compress_with_info with %u bytes of space: %u, expected %u or 0", m, q, r); return 0; } }
    PAR_CALL(h2 = rle8_low_entropy_read_decompress_info(hdr, h, &di), sig);
    if (sig || h2 != h) { par_viol("reading statistics consumed %u of %u bytes", h2, h); return 0; }
    pc = A_c.end - r - 128; memcpy(pc, st, r); memset(pc + r, 0x33, 128); /* the decoders may look ahead in the compressed buffer */
    for (int lv = 0; lv < hx_levels_available; lv++) {
      hx_set_level(lv); uint8_t *po = A_out.end - 128 - n; memset(po - 64, UNT, n + 192); for (uint32_t i = 0; i < n; i++) po[i] = (uint8_t)~data[i];
      uint32_t d = 0; PAR_CALL(d = (variant ? rle8_low_entropy_short_decompress_with_info : rle8_low_entropy_decompress_with_info)(pc, pc + r, &di, po, n), sig); p_evals++;
      if (sig) { par_viol("decompress_with_info at level %s: %s at %s", LV(lv), par_sig(sig), where()); return 0; }
      if (d != n || memcmp(po, data, n)) { uint32_t i = 0; while (i < n && po[i] == data[i]) i++; par_viol("decompress_with_info at level %s: returned %u, expected %u, first difference at %u", LV(lv), d, n, i); return 0; }
      if (!all_are(po - 64, 64, UNT)) { par_viol("decompress_with_info wrote before the buffer"); return 0; }
    }
  }
  return 1;
}
static unsigned c09_part, c09_parts; static uint64_t c09_k; static uint64_t c09_info_k;
static int c09_cb(fam_ctx *f)
{
  if (PAR_STOP()) return 1;
  const uint32_t n = (uint32_t)f->n; if (n > 3000) return 0;
  /* every section count for short inputs, all boundaries of the division for longer ones */
  if (n <= (par_depth >= 2 ? 300u : 64u)) { for (uint32_t s = 1; s <= n; s++) if (!c09_m(f->buf, n, s)) return 1; }
  else { const uint32_t ss[] = { 1, 2, 3, 4, 5, 7, 8, 16, n / 257, n / 256, n / 255, n / 33, n / 32, n / 16, n / 3, n / 2, n - 1, n }; for (int i = 0; i < 18; i++) if (ss[i] && !c09_m(f->buf, n, ss[i])) return 1; }
  if (n > 2 && (n % 3 == 0 || par_depth >= 2)) for (uint32_t s = n + 1; s <= n + 2; s++) { /* more sections than bytes: has to stay inside the bound and be lossless if accepted */
    const uint32_t B = rle8m_compress_bounds(s, n); uint8_t *pin = A_in.end - n, *pc = A_c.end - B; memcpy(pin, f->buf, n); int sig; uint32_t r = 0; PAR_WHAT("rle8m n=%u sub-sections=%u", n, s); PAR_CALL(r = rle8m_compress(s, pin, n, pc, B), sig); p_evals++;
    if (sig) { par_viol("rle8m_compress: %s at %s", par_sig(sig), where()); return 1; }
    if (r) { uint8_t *po = A_out.end - 128 - n; uint32_t d = 0; PAR_CALL(d = rle8m_decompress(pc, r, po, n), sig); if (sig || d != n || memcmp(po, f->buf, n)) { par_viol("more sections than bytes: accepted, but not lossless"); return 1; } } }
  /* rejections */
  { const uint32_t n0 = n; uint8_t *pin = A_in.end - n0; memcpy(pin, f->buf, n0); int sig; uint32_t r = 0; const uint32_t B = rle8m_compress_bounds(2, n0); uint8_t *pc = A_c.end - B; memset(pc, UNT, B); PAR_WHAT("rle8m rejection n=%u", n0);
    PAR_CALL(r = rle8m_compress(0, pin, n0, pc, B), sig); p_evals++; if (sig || r || !all_are(pc, B, UNT)) { par_viol("0 sub-sections: %s %u", sig ? par_sig(sig) : "returned", r); return 1; }
    for (uint32_t m = 0; m < B; m += (n0 < 40 ? 1 : 13)) { uint8_t *pm = A_c.end - m; PAR_CALL(r = rle8m_compress(2, pin, n0, pm, m), sig); p_evals++; if (sig || r || !all_are(pm, m, UNT)) { par_viol("outSize %u below the bound %u: %s %u", m, B, sig ? par_sig(sig) : "returned", r); return 1; } } 
    PAR_CALL(r = rle8m_compress(1, NULL, n0, pc, B), sig); if (sig || r) { par_viol("pIn = NULL"); return 1; } PAR_CALL(r = rle8m_compress(1, pin, n0, NULL, B), sig); if (sig || r) { par_viol("pOut = NULL"); return 1; } PAR_CALL(r = rle8m_compress(1, pin, 0, pc, B), sig); if (sig || r) { par_viol("inSize = 0"); return 1; }
    if (n0 >= 2) { PAR_CALL(r = rle8m_compress(2, pin, n0, pc, B), sig); if (!sig && r) { static uint8_t st[CAP]; memcpy(st, pc, r); uint8_t *po = A_out.end - 128 - n0;
      for (uint32_t m = 0; m < r; m += (m < 20 || m + 20 > r ? 1 : 7)) { uint8_t *pt = A_c.end - m; memcpy(pt, st, m); memset(po, UNT, n0 + 128); uint32_t d = 0; PAR_CALL(d = rle8m_decompress(pt, m, po, n0), sig); p_evals++; if (sig || d || !all_are(po, n0 + 128, UNT)) { par_viol("stream truncated to %u of %u: %s %u", m, r, sig ? par_sig(sig) : "returned", d); return 1; } }
      pc = A_c.end - B; memcpy(pc, st, r);
      for (uint32_t m = 0; m < n0; m++) { uint8_t *pm = A_out.end - m; memset(pm, UNT, m); uint32_t d = 0; PAR_CALL(d = rle8m_decompress(pc, r, pm, m), sig); p_evals++; if (sig || d || !all_are(pm, m, UNT)) { par_viol("output size %u of %u: %s %u", m, n0, sig ? par_sig(sig) : "returned", d); return 1; } } } } }
  /* statistics from itself, from a rotation, from disjoint data and from one byte */
  static uint8_t sd[CAP]; const uint8_t *buf = f->buf;
  if (!c09_info(buf, n, buf, n, "own")) return 1;
  for (uint32_t i = 0; i < n; i++) sd[i] = (uint8_t)(buf[i] + 1); if (!c09_info(sd, n, buf, n, "shifted")) return 1;
  for (uint32_t i = 0; i < n; i++) sd[i] = (uint8_t)~buf[n - 1 - i]; if (!c09_info(sd, n, buf, n, "complement")) return 1;
  if (!c09_info(buf, 1, buf, n, "first byte")) return 1;
  if (!c09_info(buf + n - 1, 1, buf, n, "last byte")) return 1;
  if (++c09_info_k % 5 == 0) { uint32_t q = 0; for (int i = 0; i < 256; i++) { sd[q++] = (uint8_t)i; sd[q++] = (uint8_t)i; } if (!c09_info(sd, q, buf, n, "all pairs")) return 1; q = 0; for (int i = 0; i < 256; i++) for (int j = 0; j <= (i & 3); j++) sd[q++] = (uint8_t)(i * 7); if (!c09_info(sd, q, buf, n, "all mixed")) return 1; }
  return 0;
}
static void t_c09(unsigned t)
{
  arenas_init(); static uint8_t buf[CAP]; static const hx_codec *le; for (int i = 0; !le; i++) if (hx_codecs[i].fam == FAM_LE) le = &hx_codecs[i];
  fam_ctx f = { .c = le, .depth = par_depth >= 2 ? 1 : 0, .shard = t, .nshards = 256, .buf = buf, .cap = 4096, .cb = c09_cb };
  /* more than 2^16 sections, offsets beyond 2^16 and 2^24 */
  { static const uint32_t bn[] = { 70001, 140003, 300007, 17 << 20 }; static const uint32_t ss[] = { 255, 256, 257, 4096, 32769, 65535, 65536, 65537, 1, 2, 3, 70001 }; unsigned k = 0;
    for (int i = 0; i < 4; i++) for (int j = 0; j < 12; j++) for (int c = 0; c < 3; c++) { if (i == 3 && (c || (j != 2 && j != 9 && j != 6 && par_depth < 2))) continue; if (k++ % 256 != t || PAR_STOP()) continue;
      for (uint32_t x = 0; x < bn[i]; x++) buf[x] = c == 0 ? (uint8_t)(x * 97 + (x >> 8)) : c == 1 ? (uint8_t)(x % 40 < 30 ? x / 4000 : x * 7) : (uint8_t)(x / 1000 % 2 ? 9 : x * x >> 3); if (!c09_m(buf, bn[i], ss[j])) return; } }
  fam_run(&f, 1u << G_LE | 1u << G_LITS | 1u << G_BYTES | 1u << G_UNITS | 1u << G_PERIODIC | (par_depth >= 2 ? 1u << G_TWO | 1u << G_GRID | 1u << G_THRESH | 1u << G_PAIRS : 1u << G_PAIRS));
}

/* ------------------------------------------------------------------ C17 */
static uint32_t c17_size(int sym, uint32_t k, uint32_t lit, uint32_t run, int distinct, uint32_t pre, int lv)
{
  N = 0; if (pre) N += (uint32_t)hx_put_lit(src, pre, 99);
  static const int ds[] = { 8, 11, 12, 14, 15, 0, 2, 6 };
  for (uint32_t i = 0; i < k; i++) { N += (uint32_t)hx_put_run(src + N, distinct ? ds[i % 8] : sym, C->width, run); if (lit) N += (uint32_t)hx_put_lit(src + N, lit, 30 + i); }
  uint8_t *pin = A_in.end - N; memcpy(pin, src, N); const uint32_t B = C->bounds(N); int sig; uint32_t r = 0; hx_set_level(lv);
  PAR_WHAT("codec=%s level=%s pre=%u runs=%u x %u bytes, %s symbol, %u literals between", C->name, LV(lv), pre, k, run, distinct ? "changing" : "same", lit);
  p_cases++; p_evals++;
  PAR_CALL(r = C->enc(pin, N, A_c.end - B, B), sig);
  if (sig) { par_viol("compress: %s at %s", par_sig(sig), where()); return 0; }
  if (!r && !(lv == LV_NONE && hx_needs_sse2(C))) par_viol("compress returned 0");
  return r;
}
int c17_measure; /* print the observed maxima instead of judging */
static void t_c17(unsigned t)
{
  arenas_init(); C = &hx_codecs[t]; if (!strstr(C->name, par_filter) || C->fam == FAM_MMTF || C->fam == FAM_BITMMTF) return;
  const uint32_t W = (uint32_t)C->width; const int one = strstr(C->name, "single") || strstr(C->name, "only_max") || C->fam == FAM_SH; /* one symbol only is ever compressed */
  const int le = C->fam == FAM_LE; const uint32_t chunk = strstr(C->name, "short") ? 32 : 255;
  const uint32_t hdr = le ? 8 + 32 + 1 + 256 : C->fam == FAM_SH ? 64 : 32;
  const uint32_t perRun = C->fam == FAM_RLEMMTF ? 128 : 3 * W + 24;
  static const uint32_t runs0[] = { 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 700, 1000, 1023, 1024, 1025, 4096, 20000, 65535, 65536, 70000, 262144 };
  static const uint32_t lits[] = { 0, 1, 2, 5, 13, 16, 33, 70, 130, 300 }; static const uint32_t pres[] = { 0, 1, 7, 16, 31, 100 }; static const uint32_t ks[] = { 1, 2, 3, 8, 20, 60 };
  long worst = 0; char worstWhat[256] = "";
  for (int lv = 0; lv < hx_levels_available; lv++) {
    if (!(lv == LV_NONE || lv == LV_SSE2 || lv == LV_SSSE3 || lv == LV_AVX2)) continue;
    for (int d = 0; d < (one ? 1 : 2); d++) for (int sy = 0; sy < (d ? 1 : 4); sy++) for (int r = 0; r < 22; r++) for (int l = 0; l < 10; l++) for (int p = 0; p < (par_depth >= 2 ? 6 : 3); p++) for (int k = 0; k < (par_depth >= 2 ? 6 : 5); k++) {
      static const int syms[] = { 8, 0, 2, 13 };
      const uint32_t run = runs0[r] < 1024 ? runs0[r] * W : runs0[r]; if (run < 64 * W && run < 64) continue; if (run < 64 * W) continue;
      if ((uint64_t)ks[k] * (run + lits[l]) > (par_depth >= 2 ? 1u << 20 : 300000u) && k > 0) continue;
      if (C->fam == FAM_SH && lits[l] == 0) continue; /* this codec does not look for a run that ends the input */
      if (PAR_STOP()) return;
      const uint32_t size = c17_size(syms[sy], ks[k], lits[l], run, d, pres[p], lv); if (!size) { if (PAR_STOP()) return; continue; }
      uint64_t allowed = hdr + (uint64_t)pres[p] + (uint64_t)ks[k] * lits[l] + (uint64_t)perRun * ks[k];
      if (le) allowed += (uint64_t)ks[k] * 2 * (run / chunk + 2) + (pres[p] + (uint64_t)ks[k] * lits[l]); /* literals equal to a run symbol take two bytes */
      if (C->fam == FAM_SH) allowed += (uint64_t)(pres[p] + ks[k] * lits[l]) / 8 + 2 * ks[k];
      p_nontriv++;
      if (c17_measure) { long over = (long)size - (long)(allowed - perRun * ks[k]); long per = over / (long)ks[k]; if (per > worst) { worst = per; snprintf(worstWhat, sizeof worstWhat, "%s", par->what[par_wid]); } continue; }
      if (size > allowed) { par_viol("%u bytes compressed to %u, expected at most %llu", N, size, (unsigned long long)allowed); return; }
    }
    /* a run after a long gap: from the start of the data (pre) or from the previous run (lit); short runs */
    static const uint32_t gaps[] = { 130, 255, 256, 300, 520, 1030, 2060, 4100, 20000, 65535, 65537, 70000, 131072, 1048570, 1048580, 1100000 }, runs1[] = { 34, 40, 70, 130, 300, 3000, 70000 };
    for (int g = 0; g < 16; g++) for (int r = 0; r < 7; r++) for (int m = 0; m < 4; m++) for (int d = 0; d < (one ? 1 : 2); d++) {
      if (C->fam == FAM_SH && !(m & 1)) continue;
      if (gaps[g] > 140000 && (par_depth < 2 ? r % 3 != 1 : 0)) continue;
      const uint32_t k = m < 2 ? 1 : 2, run = runs1[r] * W, lit = m == 0 ? 0 : m == 1 ? 5 : gaps[g], pre = m < 2 ? gaps[g] : 3; if (PAR_STOP()) return;
      const uint32_t size = c17_size(8, k, lit, run, d, pre, lv); if (!size) { if (PAR_STOP()) return; continue; }
      uint64_t allowed = hdr + (uint64_t)pre + (uint64_t)k * lit + (uint64_t)(perRun + (C->fam == FAM_RLEMMTF ? 0 : 6)) * k;
      if (le) allowed += (uint64_t)k * 2 * (run / chunk + 2) + (pre + (uint64_t)k * lit) / 16;
      if (C->fam == FAM_SH) allowed += (uint64_t)(pre + k * lit) / 8 + 2 * k;
      if (C->fam == FAM_RLEMMTF) allowed += (uint64_t)(pre + k * lit) / 32;
      p_nontriv++;
      if (c17_measure) { long over = (long)size - (long)(allowed - perRun * k); long per = over / (long)k; if (per > worst) { worst = per; snprintf(worstWhat, sizeof worstWhat, "%s", par->what[par_wid]); } continue; }
      if (size > allowed) { par_viol("%u bytes compressed to %u, expected at most %llu", N, size, (unsigned long long)allowed); return; }
    }
    /* incompressible data grows by a constant only */
    for (uint32_t n = 1; n <= (par_depth >= 2 ? 70000u : 3000u); n += n < 300 ? 1 : 61) { memset(src, 0, 0); N = (uint32_t)hx_put_lit(src, n, 7); uint8_t *pin = A_in.end - n; memcpy(pin, src, n); const uint32_t B = C->bounds(n); int sig; uint32_t s = 0; hx_set_level(lv); PAR_WHAT("codec=%s level=%s literals n=%u", C->name, LV(lv), n); PAR_CALL(s = C->enc(pin, n, A_c.end - B, B), sig); p_evals++; p_cases++;
      if (sig || s > B || B > n + n / 64 + 512) { par_viol("grew to %u (bound %u)", s, B); return; } }
  }
  if (c17_measure) printf("%-60s perRun=%u observed=%ld %s\n", C->name, perRun, worst, worstWhat);
}

int main(int argc, char **argv)
{
  par_args(argc, argv); c17_measure = getenv("C17_MEASURE") != NULL; hx_set_level(0);
  if (!strcmp(par_prop, "C06")) return par_run((unsigned)hx_ncodecs * 4, t_c06);
  if (!strcmp(par_prop, "C08")) return par_run(4 * 16, t_c08);
  if (!strcmp(par_prop, "C09")) return par_run(256, t_c09);
  if (!strcmp(par_prop, "C17")) return par_run((unsigned)hx_ncodecs, t_c17);
  fprintf(stderr, "unknown property\n"); return 2;
}
