#ifndef HX_H
#define HX_H
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <stdarg.h>
#include <signal.h>

/* ---- codecs under check (public API of rle.h) ---- */
enum { FAM_X, FAM_LUT, FAM_SHORT, FAM_LE, FAM_SH, FAM_RLEMMTF, FAM_MMTF, FAM_BITMMTF };
typedef uint32_t (*codec_fn)(const uint8_t *, const uint32_t, uint8_t *, const uint32_t);
typedef struct {
  const char *name;
  codec_fn enc, dec;
  uint32_t (*bounds)(const uint32_t);
  int width, aligned, fam;
} hx_codec;
extern const hx_codec hx_codecs[];
extern const int hx_ncodecs;
int hx_codec_by_name(const char *);
/* true for the codecs rle.h documents as failing without SSE2 */
int hx_needs_sse2(const hx_codec *);

/* ---- SIMD levels ---- */
enum { LV_NONE, LV_SSE2, LV_SSSE3, LV_SSE41, LV_AVX, LV_AVX2, LV_AVX512, LV_COUNT };
extern const char *hx_level_names[LV_COUNT];
extern int hx_levels_available;          /* number of usable levels on this CPU */
void hx_set_level(int lv);
void hx_only_avx512f(void); /* withdraws every AVX-512 subset but F */

/* ---- guarded memory ---- */
typedef struct { uint8_t *base, *end; size_t cap; const char *name; } hx_arena;
/* [guard][cap bytes][guard] */
void hx_arena_init(hx_arena *, const char *name, size_t cap);

/* ---- protected calls: returns 0 if completed, signal number otherwise ---- */
extern sigjmp_buf hx_jmp; extern volatile sig_atomic_t hx_armed;
extern void *volatile hx_fault_addr; extern volatile int hx_fault_sig;
void hx_install_handlers(void);
#define HX_TRY(stmt, sigvar) do { int _s = sigsetjmp(hx_jmp, 0); if (!_s) { hx_armed = 1; stmt; hx_armed = 0; sigvar = 0; } else { sigvar = _s; } } while (0)
const char *hx_fault_where(char *buf, size_t n, const hx_arena **as, int na);

/* ---- input construction ---- */
#define HX_NSYM 16
size_t hx_put_run(uint8_t *p, int sym, int width, size_t bytes);
size_t hx_put_lit(uint8_t *p, size_t bytes, unsigned salt);
#endif
