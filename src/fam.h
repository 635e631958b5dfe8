#ifndef FAM_H
#define FAM_H
#include "hx.h"
/* Exhaustive, deterministic enumeration of inputs for a codec of a given symbol width.
   Every family is a full cartesian product of stated ranges (see DESIGN.md); sharding partitions the index space. */
enum { G_UNITS, G_GRID, G_GRIDP, G_TWO, G_LUT, G_THRESH, G_LITS, G_PERIODIC, G_LE, G_SH, G_BLOCKS, G_BYTES, G_BIG, G_PAIRS, G_GROW, G_WASTE, G_SEQ, G_MANY, G_COUNT };
extern const char *fam_names[G_COUNT];
typedef struct fam_ctx {
  const hx_codec *c; int depth; unsigned shard, nshards;
  uint64_t idx, emitted; int family;
  uint8_t *buf; size_t cap, n;
  int (*cb)(struct fam_ctx *);  /* return nonzero to stop */
  void *user; int stop;
} fam_ctx;
extern uint64_t fam_screened; /* periodic patterns decided without amplification */
void fam_run(fam_ctx *, unsigned mask);
#endif
