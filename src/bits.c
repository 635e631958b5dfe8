/* C22: the bit packing functions (bitpack.h): unpacking restores what was packed, for every length, position and value */
#include "par.h"
#define inline
#include "bitpack.h"
#undef inline
typedef uint8_t *(*enc_t)(const uint8_t *, uint8_t *, const size_t); typedef const uint8_t *(*dec_t)(const uint8_t *, uint8_t *, const size_t);
/* ret: the functions return the end of the packed data; the others return nothing and the unpacking function takes the packed size */
typedef struct { const char *name; void *enc, *dec; int bits, step, aligned, ret, twin; } fn;
#define F(base, al, bits, step, ret) { "bitpack_*" #base, (void *)bitpack_encode##base, (void *)bitpack_decode##base, bits, step, al, ret }
static fn T[] = {
  F(1_sse2_unaligned, 0, 1, 16, 0), F(1_sse2_aligned, 1, 1, 16, 0),
  F(2_sse2_unaligned, 0, 2, 64, 0), F(2_sse2_aligned, 1, 2, 64, 0), F(2_sse2_unaligned_m128i, 0, 2, 16, 1),
  F(3_3_sse2_unaligned, 0, 3, 48, 0), F(3_3_sse2_aligned, 1, 3, 48, 0), F(3_6_sse2_unaligned, 0, 3, 96, 0), F(3_6_sse2_aligned, 1, 3, 96, 0), F(3_sse2_unaligned_m128i, 0, 3, 16, 1),
  F(4_sse2_unaligned, 0, 4, 1, 1), F(4_sse2_aligned, 1, 4, 1, 1), F(4_sse2_unaligned_m128i, 0, 4, 16, 1) };
enum { NT = sizeof T / sizeof T[0], CAP = 1 << 16 };
static hx_arena A_u, A_p, A_r; static uint8_t v[CAP], first[CAP];
static const char *where(void) { static char b[128]; static const hx_arena *as[] = { &A_u, &A_p, &A_r }; return hx_fault_where(b, sizeof b, as, 3); }
static int one(const fn *f, uint32_t n, const char *what)
{
  const uint32_t s = (uint32_t)(((uint64_t)n * f->bits + 7) / 8); p_cases++; p_nontriv++; p_evals++;
  for (int place = 0; place < 2; place++) {
    /* at the end (place 0) or at the start of the mapped memory; aligned variants as far as the sizes allow */
    uint8_t *in = place ? A_u.base : A_u.end - n, *out = place ? A_p.base : A_p.end - s, *re = place ? A_r.base : A_r.end - n;
    if (f->aligned && !place) { in -= (uintptr_t)in & 15; out -= (uintptr_t)out & 15; re -= (uintptr_t)re & 15; }
    PAR_WHAT("%s, %u values, %s, %s", f->name, n, what, place ? "lower guard" : "upper guard");
    memcpy(in, v, n); uint8_t *const outEnd = out + s, *const reEnd = re + n; const size_t so = (size_t)(A_p.end - outEnd) < 64 ? (size_t)(A_p.end - outEnd) : 64, sr = (size_t)(A_r.end - reEnd) < 64 ? (size_t)(A_r.end - reEnd) : 64; memset(out, 0xEE, s); memset(outEnd, 0xEE, so); memset(re, 0xEE, n); memset(reEnd, 0xEE, sr); int sig; uint8_t *e = NULL; const uint8_t *d = NULL;
    PAR_CALL(e = ((enc_t)f->enc)(in, out, n), sig); if (sig) { par_viol("packing: %s at %s", par_sig(sig), where()); return 0; }
    if (f->ret && e != outEnd) { par_viol("packing returns an end %ld bytes after the start, expected %u", (long)(e - out), s); return 0; }
    if (memcmp(in, v, n)) { par_viol("packing modifies its input"); return 0; }
    for (size_t i = 0; i < so; i++) if (outEnd[i] != 0xEE) { par_viol("packing writes byte %zu behind the packed data", i); return 0; }
    if (place == 0) memcpy(first, out, s); else if (memcmp(first, out, s)) { par_viol("the packed data depends on the address"); return 0; }
    PAR_CALL(d = ((dec_t)f->dec)(out, re, f->ret ? n : s), sig); if (sig) { par_viol("unpacking: %s at %s", par_sig(sig), where()); return 0; }
    if (f->ret && d != outEnd) { par_viol("unpacking returns an end %ld bytes after the start, expected %u", (long)(d - out), s); return 0; }
    if (memcmp(re, v, n)) { uint32_t i = 0; while (re[i] == v[i]) i++; par_viol("value %u of %u is %u after unpacking, %u was packed", i, n, re[i], v[i]); return 0; }
    if (memcmp(first, out, s)) { par_viol("unpacking modifies its input"); return 0; }
    for (size_t i = 0; i < sr; i++) if (reEnd[i] != 0xEE) { par_viol("unpacking writes byte %zu behind the values", i); return 0; }
  }
  if (f->aligned) { const fn *u = f - 1; uint8_t *out = A_p.end - s, *in = A_u.end - n; memcpy(in, v, n); int sig; memset(out, 0, s); PAR_CALL(((enc_t)u->enc)(in, out, n), sig); if (sig || memcmp(out, first, s)) { par_viol("the packed data differs from the unaligned variant's"); return 0; } }
  return !PAR_STOP();
}
static void task(unsigned t)
{
  static int done; if (!done) { done = 1; hx_arena_init(&A_u, "values", CAP); hx_arena_init(&A_p, "packed data", CAP); hx_arena_init(&A_r, "unpacked values", CAP); }
  const fn *f = &T[t % NT]; const unsigned part = t / NT; const uint8_t mx = (uint8_t)((1 << f->bits) - 1); char w[64];
  const uint32_t maxN = (4u << par_depth) * (f->step < 16 ? 16 : f->step > 32 ? 96 : f->step); 
  for (uint32_t n = 0; n <= maxN; n += f->step) for (int bg = 0; bg < 3; bg++) {
    for (uint32_t p = part; p < n || p == part; p += 8) { for (int x = 0; x <= mx; x++) { for (uint32_t i = 0; i < n; i++) v[i] = bg == 0 ? 0 : bg == 1 ? mx : (uint8_t)((i * 7 + i / 5) & mx); if (n) v[p % n] = (uint8_t)x; snprintf(w, 64, "value %u = %d, others %s", p, x, bg == 0 ? "0" : bg == 1 ? "largest" : "mixed"); if (!one(f, n, w)) return; } if (!n) break; }
    /* two positions at once */
    if (n <= (64u << par_depth) && bg < 2) for (uint32_t p = part; p < n; p += 8) for (uint32_t q = 0; q < p; q++) { memset(v, bg ? mx : 0, n); v[p] = bg ? 0 : mx; v[q] = bg ? 0 : mx; snprintf(w, 64, "values %u and %u differ, others %s", p, q, bg ? "largest" : "0"); if (!one(f, n, w)) return; }
  }
  /* long data */
  for (uint32_t k = part; k < 400; k += 8) { const uint32_t n = k * (f->step < 16 ? 13 : f->step); if (n > CAP / 2) break; for (uint32_t i = 0; i < n; i++) v[i] = (uint8_t)((i * 11 + i / 13 + i / 97) & mx); if (!one(f, n, "mixed values")) return; }
}
int main(int argc, char **argv) { par_args(argc, argv); return par_run(NT * 8, task); }
