/* forked workers over a task list with shared counters and counterexample files */
#ifndef PAR_H
#define PAR_H
#include "hx.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
typedef struct { volatile unsigned next, nviol; volatile int stop; volatile uint64_t evals, cases, trans, nontriv; volatile uint64_t serial[64]; char what[64][256]; } par_shared;
extern par_shared *par; extern int par_wid;
extern uint64_t p_evals, p_cases, p_trans, p_nontriv;
extern const char *par_prop, *par_out, *par_stats, *par_filter; extern int par_depth, par_jobs, par_deadline;
void par_args(int argc, char **argv);
int par_report(void);
int par_run(unsigned ntasks, void (*task)(unsigned));
extern void (*par_stuck)(void); extern volatile int par_busy;
void par_viol(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define PAR_STOP() (par->stop)
#define PAR_CALL(stmt, sig) do { p_trans++; par->serial[par_wid]++; HX_TRY(stmt, sig); } while (0)
#define PAR_WHAT(...) snprintf(par->what[par_wid], 256, __VA_ARGS__)
const char *par_sig(int s);
#endif
