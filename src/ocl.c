/* C21: decompression on an OpenCL device. The library's OpenCL host code and kernels run on a stand-in for the OpenCL runtime: kernels are compiled from the
   source the library passes, buffers end at guard pages, handles are validated, every call can be made to fail, transfers happen at once or as late as allowed. */
#include "par.h"
#include "fam.h"
#include "rle.h"
#undef IN
#undef OUT
#include <dlfcn.h>
#define CL_USE_DEPRECATED_OPENCL_1_2_APIS
#define CL_USE_DEPRECATED_OPENCL_2_0_APIS
#include "CL/cl.h"
bool rle8m_opencl_init(const size_t, const size_t, const size_t); void rle8m_opencl_destroy(); uint32_t rle8m_opencl_decompress(const uint8_t *, const uint32_t, uint8_t *, const uint32_t);

/* ------------------------------------------------------------------ the stand-in */
enum { T_CTX = 1, T_QUEUE, T_MEM, T_PROG, T_KERNEL, NOBJ = 256, NAREN = 24, ACAP = 1 << 20, NCMD = 64, NARG = 12 };
static const char *const tname[] = { "?", "context", "queue", "buffer", "program", "kernel" };
typedef struct { int type, live; size_t size; uint8_t *mem; int arena; const char *src; void *fn; int nargs; int set[NARG]; size_t argSize[NARG]; uint8_t arg[NARG][16]; } obj;
typedef struct { int kind; obj *m, *k; size_t off, size; void *host; uint64_t a[NARG]; int na; obj *am[NARG]; size_t groups, local; } cmd;
static obj objs[NOBJ]; static int nobjs; static hx_arena aren[NAREN]; static char arenUsed[NAREN]; static cmd cmds[NCMD]; static int ncmds;
static int calls, failAt = -1, failAt2 = -1, fired, lost, deferred, reverse; static const char *misuse; static char misuseBuf[200]; static int platform1, device1; static size_t kernelRuns, groupRuns;
static void bad(const char *fmt, ...) { if (misuse) return; va_list ap; va_start(ap, fmt); vsnprintf(misuseBuf, sizeof misuseBuf, fmt, ap); va_end(ap); misuse = misuseBuf; }
static int fault(void) { const int c = calls++; if (c == failAt || c == failAt2) { fired++; return 1; } return 0; }
static obj *get(const void *h, int type, const char *fn) { obj *o = (obj *)h; if (o < objs || o >= objs + nobjs || ((char *)o - (char *)objs) % sizeof(obj)) { bad("%s: no valid %s", fn, tname[type]); return NULL; } if (o->type != type || !o->live) { bad("%s: %s %s", fn, tname[type], o->live ? "expected" : "already released"); return NULL; } return o; }
static obj *mk(int type) { if (nobjs == NOBJ) { bad("objects are created without end"); return NULL; } obj *o = &objs[nobjs++]; memset(o, 0, sizeof *o); o->type = type; o->live = 1; o->arena = -1; return o; }
static char *kernSrc;
static void *dl;
static const char prelude[] =
  "#include <stdint.h>\n#include <stdbool.h>\n#include <stddef.h>\ntypedef unsigned char uchar; typedef unsigned short ushort; typedef unsigned int uint; typedef uint64_t ulong;\n"
  "#define __kernel __attribute__((visibility(\"default\")))\n#define kernel __kernel\n#define __global\n#define global\n#define __local\n#define local\n#define __constant const\n#define constant const\n#define __private\n#define private\n#define __read_only\n#define __write_only\n#define read_only\n#define write_only\n#define restrict\n"
  "__attribute__((visibility(\"default\"))) volatile int hx_group, hx_local, hx_groups, hx_lsize = 1;\n#define inline static inline\n"
  "static size_t get_group_id(uint d) { return d ? 0 : hx_group; }\nstatic size_t get_local_id(uint d) { return d ? 0 : hx_local; }\nstatic size_t get_global_id(uint d) { return d ? 0 : (size_t)hx_group * hx_lsize + hx_local; }\nstatic size_t get_num_groups(uint d) { return d ? 1 : hx_groups; }\nstatic size_t get_global_size(uint d) { return d ? 1 : (size_t)hx_groups * hx_lsize; }\nstatic size_t get_local_size(uint d) { return d ? 1 : hx_lsize; }\nstatic uint get_work_dim(void) { return 1; }\nstatic size_t get_global_offset(uint d) { return 0; }\n"
  "#define min(a, b) ({ __typeof__(a) _a = (a); __typeof__(b) _b = (b); _a < _b ? _a : _b; })\n#define max(a, b) ({ __typeof__(a) _a = (a); __typeof__(b) _b = (b); _a > _b ? _a : _b; })\n#line 1 \"kernel\"\n";
static int compile(const char *src)
{ /* the kernels as host code */
  if (dl && kernSrc && !strcmp(src, kernSrc)) return 0;
  char dir[] = "./oclXXXXXX", c[64], so[64], cmdl[256]; if (!mkdtemp(dir)) return 1; snprintf(c, 64, "%s/k.c", dir); snprintf(so, 64, "%s/k.so", dir); FILE *f = fopen(c, "w"); if (!f) return 1; fputs(prelude, f); fputs(src, f); fclose(f);
  snprintf(cmdl, sizeof cmdl, "gcc -O1 -w -fPIC -shared -fvisibility=hidden -fno-strict-aliasing -o %s %s > %s/log 2>&1", so, c, dir); int r = system(cmdl);
  if (!r) { void *h = dlopen(so, RTLD_NOW | RTLD_LOCAL); if (h) { dl = h; free(kernSrc); kernSrc = strdup(src); } else { fprintf(stderr, "%s\n", dlerror()); r = 1; } } else { snprintf(cmdl, sizeof cmdl, "head -c 2000 %s/log >&2", dir); if (system(cmdl)) r = 1; }
  snprintf(cmdl, sizeof cmdl, "rm -rf %s", dir); if (system(cmdl)) r = 1; return r;
}
static int nparams(const char *src, const char *name) { const size_t l = strlen(name); for (const char *p = src; (p = strstr(p, name)); p += l) { const char *q = p + l; while (*q == ' ') q++; if (*q != '(' || (p > src && (p[-1] == '_' || (p[-1] >= 'a' && p[-1] <= 'z')))) continue; int n = 1; for (q++; *q && *q != ')'; q++) if (*q == ',') n++; return n; } return -1; }
static void run_group(const cmd *c, int g, uint8_t *const *memOf)
{
  uint64_t a[NARG] = { 0 }; for (int i = 0; i < c->na; i++) a[i] = c->am[i] ? (uint64_t)(memOf ? memOf[i] : c->am[i]->mem) : c->a[i];
  volatile int *G = dlsym(dl, "hx_group"), *L = dlsym(dl, "hx_local"), *NG = dlsym(dl, "hx_groups"), *LS = dlsym(dl, "hx_lsize");
  if (!G || !L || !NG || !LS) { fprintf(stderr, "stand-in broken\n"); _exit(2); } { *G = g; *NG = (int)c->groups; *LS = (int)c->local; }
  for (size_t l = 0; l < c->local; l++) { if (L) *L = (int)l; ((void (*)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t))c->k->fn)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]); }
  groupRuns++;
}
/* All interleavings of the groups at once: every group is run alone on every buffer content of a set; if the bytes the groups write are disjoint and do not depend on what the others may
   have written, every interleaving gives the same result. */
static uint8_t *keep, *own, *res, *runA;
static void run_kernel(const cmd *c)
{
  kernelRuns++; size_t tot = 0; int mems = 0; for (int i = 0; i < c->na; i++) if (c->am[i]) { tot += c->am[i]->size; mems++; }
  if (c->groups * tot > 60000 || tot > ACAP) { for (size_t g = 0; g < c->groups; g++) run_group(c, (int)(reverse ? c->groups - 1 - g : g), NULL); return; }
  if (!keep) { keep = malloc(ACAP); own = malloc(ACAP); res = malloc(ACAP); runA = malloc(ACAP); }
  size_t o = 0; for (int i = 0; i < c->na; i++) if (c->am[i]) { memcpy(keep + o, c->am[i]->mem, c->am[i]->size); o += c->am[i]->size; }
  memset(own, 0, tot); memcpy(res, keep, tot);
#define PUT(src) do { size_t o_ = 0; for (int i = 0; i < c->na; i++) if (c->am[i]) { memcpy(c->am[i]->mem, (src) + o_, c->am[i]->size); o_ += c->am[i]->size; } } while (0)
#define GET(dst) do { size_t o_ = 0; for (int i = 0; i < c->na; i++) if (c->am[i]) { memcpy((dst) + o_, c->am[i]->mem, c->am[i]->size); o_ += c->am[i]->size; } } while (0)
  /* pass 0: on the present contents; the bytes it changes. Pass 1: on the contents with every byte that some group has written inverted */
  static uint8_t *wr[64]; if (c->groups > 64) { for (size_t g = 0; g < c->groups; g++) run_group(c, (int)(reverse ? c->groups - 1 - g : g), NULL); return; }
  for (size_t g = 0; g < c->groups; g++) { if (!wr[g]) wr[g] = malloc(ACAP); PUT(keep); run_group(c, (int)g, NULL); GET(wr[g]); }
  memcpy(runA, keep, tot); for (size_t g = 0; g < c->groups; g++) for (size_t i = 0; i < tot; i++) if (wr[g][i] != keep[i]) runA[i] = (uint8_t)~keep[i];
  for (size_t g = 0; g < c->groups && !misuse; g++) {
    PUT(runA); run_group(c, (int)g, NULL); static uint8_t *x; if (!x) x = malloc(ACAP); GET(x);
    for (size_t i = 0; i < tot; i++) { const int w0 = wr[g][i] != keep[i], w1 = x[i] != runA[i]; if (!w0 && !w1) continue; const uint8_t v = w0 ? wr[g][i] : x[i];
      if (w0 && w1 && wr[g][i] != x[i]) { bad("the result of work group %zu depends on what other groups have written", g); break; }
      if (own[i] && own[i] != g + 1) { bad("work groups %d and %zu write the same byte", own[i] - 1, g); break; } own[i] = (uint8_t)(g + 1); res[i] = v; }
  }
  PUT(res);
}
static void exec_cmd(cmd *c)
{
  if (c->kind == 0) { if (c->m->mem) memcpy(c->m->mem + c->off, c->host, c->size); }
  else if (c->kind == 1) memcpy(c->host, c->m->mem + c->off, c->size);
  else run_kernel(c);
}
static void flush(void) { for (int i = 0; i < ncmds; i++) exec_cmd(&cmds[i]); ncmds = 0; }
static void push(cmd c, int blocking) { if (ncmds == NCMD) flush(); cmds[ncmds++] = c; if (!deferred || blocking) flush(); }
#define RET(v) do { if (errcode_ret) *errcode_ret = (v); } while (0)
#undef CL_API_CALL
#define CL_API_CALL
cl_int clGetPlatformIDs(cl_uint n, cl_platform_id *p, cl_uint *k) { if (fault()) return CL_OUT_OF_HOST_MEMORY; if ((p && !n) || (!p && !k)) return CL_INVALID_VALUE; if (k) *k = 1; if (p) p[0] = (cl_platform_id)&platform1; return CL_SUCCESS; }
cl_int clGetDeviceIDs(cl_platform_id p, cl_device_type t, cl_uint n, cl_device_id *d, cl_uint *k) { if (fault()) return CL_DEVICE_NOT_FOUND; if (p != (cl_platform_id)&platform1) { bad("clGetDeviceIDs: no valid platform"); return CL_INVALID_PLATFORM; } if ((d && !n) || (!d && !k)) return CL_INVALID_VALUE; if (k) *k = 1; if (d) d[0] = (cl_device_id)&device1; return CL_SUCCESS; }
static int dev(cl_device_id d, const char *fn) { if (d == (cl_device_id)&device1) return 1; bad("%s: no valid device", fn); return 0; }
cl_context clCreateContext(const cl_context_properties *pr, cl_uint n, const cl_device_id *d, void (CL_CALLBACK *nf)(const char *, const void *, size_t, void *), void *u, cl_int *errcode_ret) { if (fault()) { RET(CL_OUT_OF_HOST_MEMORY); return NULL; } if (n != 1 || !d || !dev(d[0], "clCreateContext")) { RET(CL_INVALID_VALUE); return NULL; } RET(CL_SUCCESS); return (cl_context)mk(T_CTX); }
cl_command_queue clCreateCommandQueue(cl_context c, cl_device_id d, cl_command_queue_properties p, cl_int *errcode_ret) { if (fault()) { RET(CL_OUT_OF_HOST_MEMORY); return NULL; } if (!get(c, T_CTX, "clCreateCommandQueue") || !dev(d, "clCreateCommandQueue")) { RET(CL_INVALID_VALUE); return NULL; } RET(CL_SUCCESS); return (cl_command_queue)mk(T_QUEUE); }
cl_mem clCreateBuffer(cl_context c, cl_mem_flags f, size_t n, void *h, cl_int *errcode_ret)
{
  if (fault()) { RET(CL_MEM_OBJECT_ALLOCATION_FAILURE); return NULL; } if (!get(c, T_CTX, "clCreateBuffer")) { RET(CL_INVALID_CONTEXT); return NULL; } if (n == 0 || n > ACAP) { RET(CL_INVALID_BUFFER_SIZE); return NULL; }
  int a = 0; while (a < NAREN && arenUsed[a]) a++; if (a == NAREN) { bad("buffers are created without end"); RET(CL_MEM_OBJECT_ALLOCATION_FAILURE); return NULL; }
  obj *o = mk(T_MEM); if (!o) { RET(CL_OUT_OF_HOST_MEMORY); return NULL; } arenUsed[a] = 1; o->arena = a; o->size = n; o->mem = aren[a].end - n; memset(o->mem - (n < ACAP - 64 ? 64 : 0), 0xA7, n); if (h) memcpy(o->mem, h, n); RET(CL_SUCCESS); return (cl_mem)o;
}
cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char **s, const size_t *l, cl_int *errcode_ret)
{
  if (fault()) { RET(CL_OUT_OF_HOST_MEMORY); return NULL; } if (!get(c, T_CTX, "clCreateProgramWithSource") || n == 0 || !s) { RET(CL_INVALID_VALUE); return NULL; }
  static char *cur; size_t tot = 0; for (cl_uint i = 0; i < n; i++) tot += l && l[i] ? l[i] : strlen(s[i]); char *b = malloc(tot + 1); tot = 0; for (cl_uint i = 0; i < n; i++) { const size_t k = l && l[i] ? l[i] : strlen(s[i]); memcpy(b + tot, s[i], k); tot += k; } b[tot] = 0; if (cur && !strcmp(cur, b)) free(b); else cur = b;
  obj *o = mk(T_PROG); if (o) o->src = cur; RET(o ? CL_SUCCESS : CL_OUT_OF_HOST_MEMORY); return (cl_program)o;
}
cl_int clBuildProgram(cl_program p, cl_uint n, const cl_device_id *d, const char *opt, void (CL_CALLBACK *nf)(cl_program, void *), void *u) { if (fault()) return CL_BUILD_PROGRAM_FAILURE; obj *o = get(p, T_PROG, "clBuildProgram"); if (!o) return CL_INVALID_PROGRAM; if (n && (!d || !dev(d[0], "clBuildProgram"))) return CL_INVALID_VALUE; if (compile(o->src)) { bad("the kernels do not compile"); return CL_BUILD_PROGRAM_FAILURE; } o->set[0] = 1; return CL_SUCCESS; }
cl_int clGetProgramBuildInfo(cl_program p, cl_device_id d, cl_program_build_info i, size_t n, void *v, size_t *r) { if (r) *r = 1; if (v && n) *(char *)v = 0; return CL_SUCCESS; }
cl_kernel clCreateKernel(cl_program p, const char *name, cl_int *errcode_ret)
{
  if (fault()) { RET(CL_OUT_OF_HOST_MEMORY); return NULL; } obj *o = get(p, T_PROG, "clCreateKernel"); if (!o || !o->set[0]) { bad("clCreateKernel: the program is not built"); RET(CL_INVALID_PROGRAM_EXECUTABLE); return NULL; }
  void *f = dlsym(dl, name); if (!f) { RET(CL_INVALID_KERNEL_NAME); return NULL; } obj *k = mk(T_KERNEL); if (k) { k->fn = f; k->nargs = nparams(o->src, name); } RET(k ? CL_SUCCESS : CL_OUT_OF_HOST_MEMORY); return (cl_kernel)k;
}
cl_int clSetKernelArg(cl_kernel k, cl_uint i, size_t n, const void *v)
{
  if (fault()) return CL_OUT_OF_HOST_MEMORY; obj *o = get(k, T_KERNEL, "clSetKernelArg"); if (!o) return CL_INVALID_KERNEL; if (i >= NARG || (o->nargs >= 0 && (int)i >= o->nargs)) return CL_INVALID_ARG_INDEX; if (n > 16 || !v) return CL_INVALID_ARG_SIZE;
  o->set[i] = 1; o->argSize[i] = n; memset(o->arg[i], 0, 16); memcpy(o->arg[i], v, n); return CL_SUCCESS;
}
static int xfer(cl_command_queue q, cl_mem m, cl_bool b, size_t off, size_t n, void *h, int kind, const char *fn)
{
  if (fault() || lost) return CL_OUT_OF_RESOURCES; if (!get(q, T_QUEUE, fn)) return CL_INVALID_COMMAND_QUEUE; obj *o = get(m, T_MEM, fn); if (!o) return CL_INVALID_MEM_OBJECT; if (!h || n == 0 || off + n > o->size) return CL_INVALID_VALUE;
  cmd c = { 0 }; c.kind = kind; c.m = o; c.off = off; c.size = n; c.host = h; push(c, b); return CL_SUCCESS;
}
cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool b, size_t off, size_t n, const void *h, cl_uint ne, const cl_event *wl, cl_event *e) { return xfer(q, m, b, off, n, (void *)h, 0, "clEnqueueWriteBuffer"); }
cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool b, size_t off, size_t n, void *h, cl_uint ne, const cl_event *wl, cl_event *e) { return xfer(q, m, b, off, n, h, 1, "clEnqueueReadBuffer"); }
cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint dim, const size_t *go, const size_t *gs, const size_t *ls, cl_uint ne, const cl_event *wl, cl_event *e)
{
  if (fault() || lost) return CL_OUT_OF_RESOURCES; if (!get(q, T_QUEUE, "clEnqueueNDRangeKernel")) return CL_INVALID_COMMAND_QUEUE; obj *o = get(k, T_KERNEL, "clEnqueueNDRangeKernel"); if (!o) return CL_INVALID_KERNEL; if (dim < 1 || dim > 3 || !gs || gs[0] == 0) return CL_INVALID_VALUE; for (cl_uint i = 1; i < dim; i++) if (gs[i] != 1) return CL_INVALID_WORK_DIMENSION;
  cmd c = { 0 }; c.kind = 2; c.k = o; c.local = ls && ls[0] ? ls[0] : 1; if (gs[0] % c.local) return CL_INVALID_WORK_GROUP_SIZE; c.groups = gs[0] / c.local; c.na = o->nargs >= 0 ? o->nargs : 0; if (o->nargs < 0) for (int i = 0; i < NARG; i++) if (o->set[i]) c.na = i + 1;
  for (int i = 0; i < c.na; i++) { if (!o->set[i]) { bad("argument %d of the kernel is not set", i); return CL_INVALID_KERNEL_ARGS; } memcpy(&c.a[i], o->arg[i], 8); obj *m = (obj *)c.a[i]; if (o->argSize[i] == sizeof(cl_mem) && m >= objs && m < objs + nobjs) { if (!get(m, T_MEM, "kernel argument")) return CL_INVALID_KERNEL_ARGS; c.am[i] = m; } }
  push(c, 0); return CL_SUCCESS;
}
cl_int clFinish(cl_command_queue q) { if (fault()) { lost = 1; ncmds = 0; return CL_OUT_OF_RESOURCES; } if (!get(q, T_QUEUE, "clFinish")) return CL_INVALID_COMMAND_QUEUE; flush(); return CL_SUCCESS; }
cl_int clFlush(cl_command_queue q) { return get(q, T_QUEUE, "clFlush") ? CL_SUCCESS : CL_INVALID_COMMAND_QUEUE; }
static cl_int rel(void *h, int t, const char *fn) { obj *o = get(h, t, fn); if (!o) return CL_INVALID_VALUE; flush(); o->live = 0; if (o->arena >= 0) { arenUsed[o->arena] = 0; o->mem = NULL; } return CL_SUCCESS; }
cl_int clReleaseKernel(cl_kernel k) { return rel(k, T_KERNEL, "clReleaseKernel"); }
cl_int clReleaseProgram(cl_program k) { return rel(k, T_PROG, "clReleaseProgram"); }
cl_int clReleaseMemObject(cl_mem k) { return rel(k, T_MEM, "clReleaseMemObject"); }
cl_int clReleaseCommandQueue(cl_command_queue k) { return rel(k, T_QUEUE, "clReleaseCommandQueue"); }
cl_int clReleaseContext(cl_context k) { return rel(k, T_CTX, "clReleaseContext"); }
cl_int clReleaseDevice(cl_device_id d) { dev(d, "clReleaseDevice"); return CL_SUCCESS; }
cl_int clRetainDevice(cl_device_id d) { return CL_SUCCESS; }

/* memory the host code allocates ends at a guard page; a block freed is never mapped again */
enum { NBLK = 64 }; static struct { void *p; hx_arena a; size_t n; } blk[NBLK]; static int nblk;
void *hxo_malloc(size_t n)
{
  if (fault()) return NULL; for (int i = 0; i < NBLK; i++) if (!blk[i].p) { hx_arena_init(&blk[i].a, "heap", n + 16); blk[i].n = n; blk[i].p = blk[i].a.end - ((n + 7) & ~7ull); memset(blk[i].p, 0xC3, n); nblk++; return blk[i].p; } bad("memory is allocated without end"); return NULL;
}
void *hxo_calloc(size_t a, size_t b) { void *p = hxo_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void hxo_free(void *p) { if (!p) return; for (int i = 0; i < NBLK; i++) if (blk[i].p == p) { munmap(blk[i].a.base - 65536, blk[i].a.cap + 2 * 65536); blk[i].p = NULL; nblk--; return; } bad("memory is released which is not allocated"); }
void *hxo_realloc(void *p, size_t n) { if (!p) return hxo_malloc(n); for (int i = 0; i < NBLK; i++) if (blk[i].p == p) { void *q = hxo_malloc(n); if (!q) return NULL; memcpy(q, p, blk[i].n < n ? blk[i].n : n); hxo_free(p); return q; } bad("memory is resized which is not allocated"); return NULL; }
int hxo_printf(const char *f, ...) { return 0; }
int hxo_printf_chk(int l, const char *f, ...) { return 0; }
int hxo_puts(const char *s) { return 0; }
int hxo_putchar(int c) { return c; }

/* ------------------------------------------------------------------ exploration */
extern uint8_t __start_hxodata[] __attribute__((weak)), __stop_hxodata[] __attribute__((weak)), __start_hxobss[] __attribute__((weak)), __stop_hxobss[] __attribute__((weak));
static uint8_t *snapD, *snapB; static uint8_t *src, *cur; static hx_arena A_s, A_o, A_i;
static void fresh(void)
{
  if (!snapD) { snapD = malloc((size_t)(__stop_hxodata - __start_hxodata) + 1); snapB = malloc((size_t)(__stop_hxobss - __start_hxobss) + 1); memcpy(snapD, __start_hxodata, (size_t)(__stop_hxodata - __start_hxodata)); memcpy(snapB, __start_hxobss, (size_t)(__stop_hxobss - __start_hxobss)); }
  memcpy(__start_hxodata, snapD, (size_t)(__stop_hxodata - __start_hxodata)); memcpy(__start_hxobss, snapB, (size_t)(__stop_hxobss - __start_hxobss));
  for (int i = 0; i < nobjs; i++) if (objs[i].live && objs[i].arena >= 0) arenUsed[objs[i].arena] = 0; nobjs = 0; ncmds = 0; lost = 0; calls = 0; fired = 0; misuse = NULL; for (int i = 0; i < NBLK; i++) if (blk[i].p) { munmap(blk[i].a.base - 65536, blk[i].a.cap + 2 * 65536); blk[i].p = NULL; } nblk = 0;
}
static void ocl_init(void)
{
  static int done; if (done) return; done = 1; hx_set_level(LV_NONE); for (int i = 0; i < NAREN; i++) hx_arena_init(&aren[i], "device buffer", ACAP); hx_arena_init(&A_s, "stream", 2 * ACAP); hx_arena_init(&A_o, "output", 2 * ACAP); hx_arena_init(&A_i, "input", ACAP); src = malloc(ACAP);
}
static const char *where(void) { static char b[128]; static const hx_arena *as[NAREN + NBLK + 3]; int k = 0; as[k++] = &A_s; as[k++] = &A_o; as[k++] = &A_i; for (int i = 0; i < NAREN; i++) as[k++] = &aren[i]; for (int i = 0; i < NBLK; i++) if (blk[i].p) as[k++] = &blk[i].a; return hx_fault_where(b, sizeof b, as, k); }
typedef struct { uint32_t n, s; uint8_t *data, *stream; } strm;
/* one decompression; 1: as expected (success, or failure if a call was made to fail) */
static int dec_one(const strm *m, uint32_t slack)
{ /* slack: larger output buffer, bytes after the stream */
  uint8_t *ps = A_s.end - m->s - slack, *po = A_o.end - m->n - slack; memcpy(ps, m->stream, m->s); for (uint32_t i = 0; i < slack; i++) ps[m->s + i] = (uint8_t)(i * 3 + 1); memset(po - 32, 0x5E, m->n + slack + 32); int sig; uint32_t r = 0; const int f0 = fired; p_evals++;
  PAR_CALL(r = rle8m_opencl_decompress(ps, m->s + slack, po, m->n + slack), sig); lost = 0;
  if (sig) { par_viol("decompression: %s at %s", par_sig(sig), where()); return 0; }
  if (misuse) { par_viol("decompression: %s", misuse); return 0; }
  const int nowFired = fired != f0; if (ncmds) flush();
  if (nowFired) { if (r) { par_viol("a failed OpenCL call was not noticed"); return 0; } return 1; }
  if (r != m->n) { par_viol("decompression returned %u instead of %u", r, m->n); return 0; }
  if (memcmp(po, m->data, m->n)) { uint32_t i = 0; while (po[i] == m->data[i]) i++; par_viol("output differs at byte %u of %u (%02X instead of %02X)", i, m->n, po[i], m->data[i]); return 0; }
  for (uint32_t i = 0; i < slack; i++) if (po[m->n + i] != 0x5E) { par_viol("byte %u behind the data was written", i); return 0; } for (int i = 1; i <= 32; i++) if (po[-i] != 0x5E) { par_viol("a byte before the output was written"); return 0; }
  if (memcmp(ps, m->stream, m->s)) { par_viol("the stream was modified"); return 0; }
  return 1;
}
static int destroy_one(void)
{
  int sig; PAR_CALL(rle8m_opencl_destroy(), sig); if (sig) { par_viol("release: %s at %s", par_sig(sig), where()); return 0; } if (misuse) { par_viol("release: %s", misuse); return 0; }
  for (int i = 0; i < nobjs; i++) if (objs[i].live) { par_viol("a %s was never released", tname[objs[i].type]); return 0; } if (nblk) { par_viol("allocated memory was never released"); return 0; } return 1;
}
static int mk_stream(strm *m, const uint8_t *d, uint32_t n, uint32_t sections)
{
  const uint32_t B = rle8m_compress_bounds(sections, n); m->data = malloc(n); memcpy(m->data, d, n); m->stream = malloc(B); m->n = n; m->s = rle8m_compress(sections, m->data, n, m->stream, B); if (!m->s) { free(m->data); free(m->stream); return 0; } return 1;
}
static int one_case(const uint8_t *d, uint32_t n, uint32_t sections)
{
  strm m; if (!mk_stream(&m, d, n, sections)) return 1; int ok = 0; p_cases++; if (m.s < n) p_nontriv++;
  for (int v = 0; v < 2; v++) {
    deferred = v; reverse = v; failAt = -1; fresh(); PAR_WHAT("%u bytes (%02x %02x %02x %02x...) in %u sections, transfers %s, groups %s", n, d[0], n > 1 ? d[1] : 0, n > 2 ? d[2] : 0, n > 3 ? d[3] : 0, sections, v ? "late" : "at once", v ? "in reverse order" : "in order");
    if (!dec_one(&m, v ? 37 : 0) || !destroy_one()) goto out;
  }
  ok = 1;
out: free(m.data); free(m.stream); return ok;
}
static int cb(fam_ctx *f)
{
  if (PAR_STOP()) return 1; const uint8_t *d = f->buf; const uint32_t n = (uint32_t)f->n; if (n > 3000 && par_depth < 2 && f->idx % 7) return 0;
  const uint32_t ss[] = { 1, 2, 3, 4, 5, 7, 8, 16, 31, n / 2, n - 1, n }; uint32_t last = 0; const int full = n <= 24;
  for (uint32_t i = 0; full ? i < n : i < 12; i++) { const uint32_t s = full ? i + 1 : ss[i]; if (s == 0 || s > n || s <= last || s > 4096) continue; if (s > 64 && n > 400 && i < 11) continue; last = s; if (!one_case(d, n, s)) return 1; }
  return 0;
}
/* histories of calls, with every single failure */
enum { NS = 6 }; static strm S[NS]; static uint32_t SSec[NS];
static void mk_pool(void)
{
  static int done; if (done) return; done = 1; uint8_t *b = src; uint32_t n;
  n = 9; memset(b, 7, n); SSec[0] = 1; mk_stream(&S[0], b, n, 1);                                            /* one run symbol */
  for (n = 0; n < 40; n++) b[n] = (uint8_t)(n / 10); SSec[1] = 3; mk_stream(&S[1], b, 40, 3);                /* several run symbols */
  for (n = 0; n < 300; n++) b[n] = (uint8_t)(n < 200 ? 3 : n * 5); SSec[2] = 9; mk_stream(&S[2], b, 300, 9); /* larger */
  for (n = 0; n < 64; n++) b[n] = (uint8_t)(n * 3); SSec[3] = 2; mk_stream(&S[3], b, 64, 2);                 /* no run symbols */
  for (n = 0; n < 40; n++) b[n] = (uint8_t)(n < 30 ? 200 : n); SSec[4] = 20; mk_stream(&S[4], b, 40, 20);    /* many sections, little data */
  for (n = 0; n < 1200; n++) b[n] = (uint8_t)(n / 300 * 80); SSec[5] = 1; mk_stream(&S[5], b, 1200, 1);      /* one section, much data */
}
enum { NOPS = NS + 3 };
static int op(int o)
{
  if (o < NS) return S[o].s ? dec_one(&S[o], 0) : 1;
  if (o == NS + 2) return destroy_one();
  const int f0 = fired; int sig; bool r = false; PAR_CALL(r = o == NS ? rle8m_opencl_init(24, 64, 3) : rle8m_opencl_init(600, 2000, 12), sig);
  if (sig) { par_viol("initialisation: %s at %s", par_sig(sig), where()); return 0; } if (misuse) { par_viol("initialisation: %s", misuse); return 0; }
  if (r != (fired == f0)) { par_viol("initialisation reports %s", r ? "success although an OpenCL call failed" : "a failure although no call failed"); return 0; } return 1;
}
static int history(const int *h, int len, int fail, int late)
{
  char t[128], more[24] = ""; if (failAt2 >= 0) snprintf(more, 24, " and %d", failAt2); size_t l = 0; for (int i = 0; i < len; i++) l += (size_t)snprintf(t + l, sizeof t - l, h[i] < NS ? " dec%d" : h[i] == NS ? " init-small" : h[i] == NS + 1 ? " init-large" : " destroy", h[i]); PAR_WHAT("calls:%s; %s%d%s fails, transfers %s", t, fail < 0 ? "none " : failAt2 >= 0 ? "OpenCL/allocation calls " : "OpenCL/allocation call ", fail, more, late ? "late" : "at once");
  fresh(); failAt = fail; deferred = late; reverse = 0; p_cases++; if (fail >= 0) p_nontriv++; for (int i = 0; i < len; i++) if (!op(h[i])) return -1; const int c = calls; failAt = -1; const int f2 = failAt2; failAt2 = -1; const int ok = destroy_one(); failAt2 = f2; if (!ok) return -1; return c;
}
enum { TF = 128 };
static void task(unsigned t)
{
  ocl_init();
  static const hx_codec *le; for (int i = 0; !le; i++) if (hx_codecs[i].fam == FAM_LE) le = &hx_codecs[i];
  if (t < TF) { fam_ctx f = { .c = le, .depth = par_depth - 1, .shard = t, .nshards = TF, .buf = src, .cap = 4096, .cb = cb }; fam_run(&f, 1u << G_LE | 1u << G_LITS | 1u << G_BYTES | 1u << G_UNITS | 1u << G_PERIODIC | 1u << G_PAIRS | (par_depth >= 2 ? 1u << G_TWO | 1u << G_GRID | 1u << G_THRESH : 0)); return; }
  t -= TF;
  if (t < 81) { mk_pool(); int h[6]; const int D = par_depth + 2;
    for (int len = 1; len <= D; len++) { int tot = 1; for (int i = 0; i < len; i++) tot *= NOPS; for (int x = 0; x < tot; x++) { if ((unsigned)(x % 81) != t) continue; int y = x; for (int i = 0; i < len; i++, y /= NOPS) h[i] = y % NOPS;
      for (int late = 0; late < 2; late++) { const int c = history(h, len, -1, late); if (c < 0) return; for (int k = 0; k < c; k++) { if (PAR_STOP()) return; if (history(h, len, k, late) < 0) return; if (len <= (par_depth >= 3 ? 3 : 2)) for (int k2 = k + 1; k2 < c; k2++) { failAt2 = k2; const int r = history(h, len, k, late); failAt2 = -1; if (r < 0 || PAR_STOP()) return; } } } } }
    return; }
  /* invalid calls are rejected before anything is done */
  mk_pool(); for (int i = 0; i < NS; i++) { if (!S[i].s) continue; for (int pre = 0; pre < 2; pre++) {
    const uint32_t s = S[i].s, n = S[i].n; for (int kind = 0; kind < 5; kind++) for (uint32_t x = 0; x < (kind == 0 ? s : kind == 1 ? n : 1); x++) {
      fresh(); failAt = -1; deferred = 0; p_cases++; if (pre && !op(NS + 1)) return; const uint32_t inS = kind == 0 ? x : s, outS = kind == 1 ? x : n; PAR_WHAT("stream %d, %s %u", i, kind == 0 ? "truncated to" : kind == 1 ? "output size" : kind == 2 ? "no input" : kind == 3 ? "no output" : "neither", x); const int c0 = calls;
      uint8_t *ps = A_s.end - inS, *po = A_o.end - outS; memcpy(ps, S[i].stream, inS); memset(po, 0x5E, outS); int sig; uint32_t r = 0; p_evals++; PAR_CALL(r = rle8m_opencl_decompress(kind == 2 || kind == 4 ? NULL : ps, inS, kind >= 3 ? NULL : po, outS), sig);
      if (sig) { par_viol("%s at %s", par_sig(sig), where()); return; } if (misuse) { par_viol("%s", misuse); return; } if (r) { par_viol("not rejected"); return; } for (uint32_t k = 0; k < outS; k++) if (po[k] != 0x5E) { par_viol("the output was written"); return; } if (calls != c0) { par_viol("the device was used"); return; } if (!destroy_one()) return; } } }
  /* larger data: offsets beyond 2^16 */
  { static const uint32_t bn[] = { 70001, 200003 }, ss[] = { 1, 2, 3, 255, 256, 257, 1000 }; for (int i = 0; i < 2; i++) for (int j = 0; j < 7; j++) for (int c = 0; c < 3; c++) { for (uint32_t x = 0; x < bn[i]; x++) src[x] = c == 0 ? (uint8_t)(x * 97 + (x >> 8)) : c == 1 ? (uint8_t)(x % 40 < 30 ? x / 4000 : x * 7) : (uint8_t)(x / 1000 % 2 ? 9 : x * x >> 3); if (PAR_STOP() || !one_case(src, bn[i], ss[j])) return; } }
}
int main(int argc, char **argv)
{
  par_args(argc, argv); ocl_init(); fresh(); failAt = -1; { int sig; bool r = false; hx_install_handlers(); HX_TRY(r = rle8m_opencl_init(64, 64, 4), sig); if (sig || !r || misuse) { PAR_WHAT("initialisation"); par_viol("%s", misuse ? misuse : sig ? par_sig(sig) : "fails although every OpenCL call succeeds"); } }
  if (par->nviol) { par_report(); return 1; } fresh(); return par_run(TF + 82, task);
}
