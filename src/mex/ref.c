/* The same library sources, compiled for plain C and driven directly: the reference. */
#define _GNU_SOURCE
#include <time.h>
#include <stdio.h>
#include "qpSWIFT.h"
static long reads;
int __wrap_clock_gettime(clockid_t id, struct timespec *t) { reads++; long v = 5000000000L + reads * (reads + 1) / 2 * 1000000L; t->tv_sec = v / 1000000000L; t->tv_nsec = v % 1000000000L; return 0; }
static void give(QP *q, long n, long m, long p, double *x, double *y, double *z, double *s, double *info) {
    info[0] = q->stats->IterationCount; info[2] = q->stats->fval; info[3] = q->stats->tsetup; info[4] = q->stats->tsolve; info[5] = q->stats->kkt_time; info[6] = q->stats->ldl_numeric;
    for (long i = 0; i < n; i++) x[i] = q->x[i]; for (long i = 0; i < p; i++) y[i] = q->y[i]; for (long i = 0; i < m; i++) { z[i] = q->z[i]; s[i] = q->s[i]; }
}
/* negative option values mean: keep the default; info: iterations, exit, fval, tsetup, tsolve, kkt, ldl, settings in force */
void ref_sparse(long n, long m, long p, long *Pj, long *Pi, double *Pp, long *Aj, long *Ai, double *Ap, long *Gj, long *Gi, double *Gp, double *c, double *h, double *b, long *perm, long maxit, double at, double rt, double sg, double *x, double *y, double *z, double *s, double *info) {
    reads = 0; QP *q = QP_SETUP(n, m, p, Pj, Pi, Pp, Aj, Ai, Ap, Gj, Gi, Gp, c, h, b, 0.0, perm);
    if (maxit >= 0) q->options->maxit = maxit; if (at >= 0) q->options->abstol = at; if (rt >= 0) q->options->reltol = rt; if (sg >= 0) q->options->sigma = sg; q->options->verbose = 0;
    info[7] = q->options->maxit; info[8] = q->options->abstol; info[9] = q->options->reltol; info[10] = q->options->sigma;
    info[1] = QP_SOLVE(q); give(q, n, m, p, x, y, z, s, info); QP_CLEANUP(q);
}
void ref_dense(long n, long m, long p, double *P, double *A, double *G, double *c, double *h, double *b, double *x, double *y, double *z, double *s, double *info) {
    reads = 0; QP *q = QP_SETUP_dense(n, m, p, P, A, G, c, h, b, 0, COLUMN_MAJOR_ORDERING);
    info[7] = q->options->maxit; info[8] = q->options->abstol; info[9] = q->options->reltol; info[10] = q->options->sigma;
    info[1] = QP_SOLVE(q); give(q, n, m, p, x, y, z, s, info); QP_CLEANUP_dense(q);
}
