/* Linked into the extension under test: virtual clock, scheduling points inside the window in which the
   interpreter lock is released, actions of "other threads" at a chosen point, ledger of library allocations. */
#define _GNU_SOURCE
#include <Python.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#define NI __attribute__((no_instrument_function, visibility("default")))
static struct { unsigned char *p; long len, map; } buf[64]; static int nbuf;
static volatile int window, busy; static long npoint, fire_at = -1, fired, windows; static int action; static void (*cb)(void); static int hidden;
static long reads, live, nalloc, nfree; static long step_ns = 1000000;
NI void sh_reset(void) { nbuf = 0; window = busy = 0; npoint = 0; fire_at = -1; fired = 0; reads = 0; windows = 0; hidden = 0; }
NI void sh_clock(long step) { step_ns = step; reads = 0; }
NI void sh_buf(void *p, long len, long map) { buf[nbuf].p = p; buf[nbuf].len = len; buf[nbuf++].map = map; }
NI void sh_arm(long at, int act, void (*f)(void)) { fire_at = at; action = act; cb = f; npoint = 0; fired = 0; }
NI long sh_points(void) { return npoint; }
NI long sh_fired(void) { return fired; }
NI long sh_windows(void) { return windows; }
NI long sh_live(void) { return live; }
NI long sh_allocs(void) { return nalloc; }
static NI void prot(int p) { for (int i = 0; i < nbuf; i++) mprotect(buf[i].p, buf[i].map, p); }
NI void sh_protect(int on) { prot(on ? PROT_READ : PROT_READ | PROT_WRITE); }
static NI void point(void) {
    if (!window || busy) return; busy = 1;
    if (npoint++ == fire_at) { fired = 1;
        if (action == 1) for (int i = 0; i < nbuf; i++) for (long k = 0; k < buf[i].len; k++) buf[i].p[k] = 0xff;
        if (action == 2) for (int i = 0; i < nbuf; i++) memset(buf[i].p, 0, buf[i].len);
        if (action == 3) { prot(PROT_NONE); hidden = 1; }
        if (action == 4 && cb) { window = 0; cb(); window = 1; } }
    busy = 0;
}
PyThreadState *__real_PyEval_SaveThread(void); void __real_PyEval_RestoreThread(PyThreadState *);
NI PyThreadState *__wrap_PyEval_SaveThread(void) { PyThreadState *t = __real_PyEval_SaveThread(); windows++; window = 1; point(); return t; }
NI void __wrap_PyEval_RestoreThread(PyThreadState *t) { point(); window = 0; if (hidden) { prot(PROT_READ | PROT_WRITE); hidden = 0; } __real_PyEval_RestoreThread(t); }
NI void __cyg_profile_func_enter(void *f, void *c) { if (window) point(); }
NI void __cyg_profile_func_exit(void *f, void *c) { if (window) point(); }
NI int __wrap_clock_gettime(clockid_t id, struct timespec *t) { point(); reads++; long v = 5000000000L + reads * (reads + 1) / 2 * step_ns; t->tv_sec = v / 1000000000L; t->tv_nsec = v % 1000000000L; return 0; }
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
NI void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) { live++; nalloc++; } return p; }
NI void *__wrap_calloc(size_t a, size_t n) { void *p = __real_calloc(a, n); if (p) { live++; nalloc++; } return p; }
NI void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (p && !q) { live++; nalloc++; } return p; }
NI void __wrap_free(void *p) { if (p) { live--; nfree++; } __real_free(p); }
