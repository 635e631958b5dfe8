#include "par.h"
par_shared *par; int par_wid; uint64_t p_evals, p_cases, p_trans, p_nontriv;
const char *par_prop = "?", *par_out = ".", *par_stats, *par_filter = ""; int par_depth = 1, par_jobs = 8, par_deadline;
static double t0; static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static char samples[8][256]; static int nsamples;

void par_args(int argc, char **argv)
{
  t0 = now();
  for (int i = 1; i + 1 < argc; i += 2) {
    const char *a = argv[i], *v = argv[i + 1];
    if (!strcmp(a, "--prop")) par_prop = v; else if (!strcmp(a, "--depth")) par_depth = atoi(v); else if (!strcmp(a, "--jobs")) par_jobs = atoi(v); else if (!strcmp(a, "--out")) par_out = v;
    else if (!strcmp(a, "--stats")) par_stats = v; else if (!strcmp(a, "--deadline")) par_deadline = atoi(v); else if (!strcmp(a, "--codec")) par_filter = v; else { fprintf(stderr, "unknown option %s\n", a); exit(2); }
  }
  par = mmap(NULL, sizeof *par, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
const char *par_sig(int s) { return s == SIGALRM ? "does not terminate" : s == SIGSEGV || s == SIGBUS ? "memory fault" : s == SIGILL ? "illegal instruction" : s == SIGFPE ? "arithmetic fault" : "signal"; }
void par_viol(const char *fmt, ...)
{
  char d[1024]; va_list ap; va_start(ap, fmt); vsnprintf(d, sizeof d, fmt, ap); va_end(ap);
  unsigned k = __sync_fetch_and_add(&par->nviol, 1); par->stop = 1;
  if (k >= 6) return;
  char path[512]; snprintf(path, sizeof path, "%s/%s-%u-%d.replay", par_out, par_prop, k, (int)getpid());
  FILE *f = fopen(path, "w"); if (f) { fprintf(f, "property=%s\ncase=%s\ndetail=%s\n", par_prop, par->what[par_wid], d); fclose(f); }
  fflush(stdout); dprintf(STDOUT_FILENO, "VIOLATION property=%s replay=%s %s: %s\n", par_prop, path, par->what[par_wid], d);
}
void (*par_stuck)(void); volatile int par_busy; static uint64_t last; static int stuck;
static void on_tick(int s, siginfo_t *si, void *u)
{
  (void)s; (void)si; (void)u;
  if (par_deadline && now() - t0 > par_deadline && !par->stop) par->stop = 2;
  if (par_stuck && par_busy && par->serial[par_wid] == last) { if (++stuck >= 60) { par_stuck(); stuck = 0; } return; }
  if (par->serial[par_wid] == last && hx_armed) { if (++stuck >= 90) { stuck = 0; hx_armed = 0; siglongjmp(hx_jmp, SIGALRM); } } else { stuck = 0; last = par->serial[par_wid]; }
}
int par_run(unsigned ntasks, void (*task)(unsigned))
{
  pid_t pids[64]; if (par_jobs > 60) par_jobs = 60; if (par_jobs < 1) par_jobs = 1; fflush(stdout);
  for (int w = 0; w < par_jobs; w++) {
    pids[w] = fork(); if (pids[w]) continue;
    par_wid = w; hx_install_handlers();
    struct sigaction sa = { 0 }; sa.sa_sigaction = on_tick; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER | SA_RESTART; sigaction(SIGALRM, &sa, NULL);
    struct itimerval it = { { 1, 0 }, { 1, 0 } }; setitimer(ITIMER_REAL, &it, NULL);
    for (;;) { unsigned t = __sync_fetch_and_add(&par->next, 1); if (t >= ntasks || par->stop) break; task(t); }
    __sync_fetch_and_add(&par->evals, p_evals); __sync_fetch_and_add(&par->cases, p_cases); __sync_fetch_and_add(&par->trans, p_trans); __sync_fetch_and_add(&par->nontriv, p_nontriv);
    fflush(stdout); _exit(0);
  }
  for (int w = 0; w < par_jobs; w++) {
    int st; while (waitpid(pids[w], &st, 0) < 0 && errno == EINTR) ;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { par_wid = w; par_viol("the process died (status 0x%x) in this case", st); }
    if (nsamples < 8 && par->what[w][0]) snprintf(samples[nsamples++], 256, "%s", par->what[w]);
  }
  return par_report();
}
int par_report(void)
{
  FILE *f = par_stats ? fopen(par_stats, "w") : stdout;
  fprintf(f, "{\"evaluations\": %llu, \"cases\": %llu, \"transitions\": %llu, \"nontrivial\": %llu, \"violations\": %u, \"complete\": %s, \"wall\": %.2f, \"samples\": [", (unsigned long long)par->evals, (unsigned long long)par->cases, (unsigned long long)par->trans, (unsigned long long)par->nontriv, par->nviol, par->stop == 2 ? "false" : "true", now() - t0);
  for (int i = 0; i < nsamples; i++) { fprintf(f, "%s\"", i ? ", " : ""); for (char *c = samples[i]; *c; c++) if (*c == '"' || *c == '\\') fprintf(f, "\\%c", *c); else if ((unsigned char)*c >= 32) fputc(*c, f); fputc('"', f); }
  fprintf(f, "]}\n"); if (par_stats) fclose(f);
  return par->nviol ? 1 : 0;
}
