// C07 (memory safety, leaks, uninitialised data over operation histories) and C16 (allocation failures of the ordering phase)
// Built with AddressSanitizer (and, as a separate part, MemorySanitizer); caller arrays are exact-size heap blocks.
// The MemorySanitizer part instruments only the library: the harness unpoisons what it hands over and poisons what the library allocates.
#ifndef MSAN
#define MSAN 0
#endif
#include "prob.hpp"
#include "big.hpp"
#include "cat.hpp"
#include "acct.hpp"
#include <fcntl.h>
using namespace core;
template <class T> static T *exact(const T *d, size_t n) { T *p = (T *)__real_malloc(n * sizeof(T)); if (n) memcpy(p, d, n * sizeof(T));
#if MSAN
    __msan_unpoison(p, n * sizeof(T));
#endif
    return p; }
template <class T> static T *exact(const std::vector<T> &v) { return exact(v.data(), v.size()); }
static V colm(const V &M, int r, int c) { V o(M.size()); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) o[(size_t)j * r + i] = M[(size_t)i * c + j]; return o; }
// one problem whose caller arrays are exact-size blocks of their own
struct Live {
    const Prob *q; int f; QP *Q = nullptr; int id; std::vector<void *> mine; bool dense; long solves = 0;
    Live(const Prob &pr, int fmt, int id_, bool perm, bool nulleq, double sigma_d = 0) : q(&pr), f(fmt), id(id_) {
        int n = q->n, m = q->m, p = q->p, N = n + m + p; dense = f == F_ROW || f == F_COL; auto k = [&](auto *x) { mine.push_back((void *)x); return x; };
        std::vector<qp_int> pm(N); for (int i = 0; i < N; i++) pm[i] = N - 1 - i; if (nulleq) { pm.resize(n + m); for (int i = 0; i < n + m; i++) pm[i] = n + m - 1 - i; }
        qp_int *PP = perm ? k(exact(pm)) : nullptr; double *c = k(exact(q->c)), *h = k(exact(q->h)), *b = p && !nulleq ? k(exact(q->b)) : nullptr;
        if (dense) { double *P = k(exact(f == F_ROW ? q->P : colm(q->P, n, n))), *G = k(exact(f == F_ROW ? q->G : colm(q->G, m, n))), *A = p ? k(exact(f == F_ROW ? q->A : colm(q->A, p, n))) : nullptr;
            acctn::In in(id); Q = QP_SETUP_dense(n, m, p, P, A, G, c, h, b, PP, f == F_ROW ? ROW_MAJOR_ORDERING : COLUMN_MAJOR_ORDERING); Q->sigma_d = sigma_d;
        } else {
            int ord = f == F_CCSREV ? 1 : f == F_CCSROT ? 2 : f == F_CCSSWAPZ ? 3 : 0, z = f == F_CCSZ ? 1 : f == F_CCSSWAPZ ? 2 : 0; Ccs P = to_ccs(q->P, n, n, ord, z), G = to_ccs(q->G, m, n, ord, z), A; if (p) A = to_ccs(q->A, p, n, ord, z);
            qp_int *pj = k(exact(P.jc)), *pi = k(exact(P.ir)), *gj = k(exact(G.jc)), *gi = k(exact(G.ir)), *aj = p ? k(exact(A.jc)) : nullptr, *ai = p ? k(exact(A.ir)) : nullptr; double *pp = k(exact(P.pr)), *gp = k(exact(G.pr)), *ap = p && !nulleq ? k(exact(A.pr)) : nullptr;
            acctn::In in(id); Q = QP_SETUP(n, m, p, pj, pi, pp, aj, ai, ap, gj, gi, gp, c, h, b, sigma_d, PP);
        }
        count("setups"); }
    long solve() { acctn::In in(id); solves++; count("solves"); long r = QP_SOLVE(Q); return r; }
    void touch() { // every documented output is readable and initialised
#if MSAN
        auto chk = [&](const void *p, size_t n, const char *w) { long o = __msan_test_shadow(p, n); if (o >= 0) violation("uninitialised output %s (byte %ld) | %s", w, o, show(*q).c_str()); };
        chk(Q->x, q->n * 8, "x"); chk(Q->z, q->m * 8, "z"); chk(Q->s, q->m * 8, "s"); if (Q->p) chk(Q->y, Q->p * 8, "y");
        chk(&Q->stats->IterationCount, 8, "IterationCount"); chk(&Q->stats->Flag, 8, "Flag"); chk(&Q->stats->tsetup, 8, "tsetup");
        if (solves) { chk(&Q->stats->fval, 8, "fval"); chk(&Q->stats->n_rx, 8, "n_rx"); chk(&Q->stats->n_ry, 8, "n_ry"); chk(&Q->stats->n_rz, 8, "n_rz"); chk(&Q->stats->n_mu, 8, "n_mu"); chk(&Q->stats->tsolve, 8, "tsolve"); chk(&Q->stats->kkt_time, 8, "kkt_time"); chk(&Q->stats->ldl_numeric, 8, "ldl_numeric"); }
#else
        volatile double s = 0; for (int i = 0; i < q->n; i++) s = s + Q->x[i]; for (int i = 0; i < q->m; i++) s = s + Q->z[i] + Q->s[i]; for (int i = 0; i < Q->p; i++) s = s + Q->y[i];
#endif
    }
    void cleanup() { { acctn::In in(id); if (dense) QP_CLEANUP_dense(Q); else QP_CLEANUP(Q); } Q = nullptr; count("cleanups"); for (void *p : mine) __real_free(p); mine.clear(); // a pointer already released by the library aborts here
        long o = acctn::outstanding(id); if (o) { violation("%ld block(s) allocated for the problem are not released by cleanup | %s", o, show(*q).c_str()); for (auto it = acctn::live.begin(); it != acctn::live.end();) if (it->second == id) it = acctn::live.erase(it); else ++it; } }
};
struct Cat { std::vector<Prob> P; } static CAT;
static void mkcat() { // shape catalogue: single variable, no equalities, several equalities, zero rows / columns / matrices, dense, infeasible, unbounded
    auto add = [&](int n, int m, int p, V P, V c, V G, V h, V A, V b, const char *t) { Prob q; q.n = n; q.m = m; q.p = p; q.P = P; q.c = c; q.G = G; q.h = h; q.A = A; q.b = b; q.tag = t; CAT.P.push_back(q); };
    add(1, 1, 0, {1}, {-1}, {1}, {0}, {}, {}, "single-variable"); add(1, 1, 1, {1}, {0}, {1}, {2}, {1}, {1}, "single-variable+equality"); add(1, 3, 0, {0}, {1}, {-1, 1, 0}, {0, 5, 1}, {}, {}, "zero-P+zero-row");
    add(2, 1, 0, {2, 0, 0, 1}, {1, 1}, {0, 0}, {1}, {}, {}, "zero-G"); add(2, 2, 1, {1, 0, 0, 0}, {0, 1}, {0, -1, 0, 1}, {0, 4}, {1, 1}, {1}, "zero-column-of-P"); add(2, 2, 2, {1, 0, 0, 1}, {0, 0}, {1, 0, 0, 1}, {3, 3}, {1, 0, 0, 1}, {1, 1}, "square-equalities");
    add(1, 2, 0, {1}, {0}, {1, -1}, {-1, -1}, {}, {}, "infeasible"); add(2, 1, 0, {0, 0, 0, 0}, {-1, 0}, {0, 1}, {1}, {}, {}, "unbounded"); add(2, 2, 1, {1, 0, 0, 1}, {0, 0}, {1, 0, 0, 1}, {1, 1}, {0, 0}, {0}, "zero-A");
    add(2, 0, 0, {2, 1, 1, 2}, {-3, 1}, {}, {}, {}, {}, "no-constraints"); add(3, 0, 1, {2, 0, 0, 0, 1, 0, 0, 0, 0}, {1, 0, -1}, {}, {}, {1, 1, 1}, {1}, "equality-only"); for (int k : {2, 3, 4, 6, 7, 14, 16}) CAT.P.push_back(structured(k, 3, 1)); CAT.P.push_back(structured(0, 6, 2)); CAT.P.push_back(structured(5, 5, 1));
}
static void script(const std::vector<int> &ops, const Prob &a, int fa, const Prob &b, int fb, bool perm) { // op codes: 0/1 toggle-life of slot (setup or cleanup), 2/3 solve, 4/5 short solve, 6/7 verbose solve
    Live *L[2] = {nullptr, nullptr}; const Prob *q[2] = {&a, &b}; int f[2] = {fa, fb}; long t = 0;
    for (int o : ops) { int s = o & 1; count("transitions"); t++;
        switch (o >> 1) {
        case 0: if (!L[s]) L[s] = new Live(*q[s], f[s], s + 1, perm && s, false); else { L[s]->cleanup(); delete L[s]; L[s] = nullptr; } break;
        case 1: L[s]->Q->options->maxit = 100; L[s]->Q->options->verbose = 0; L[s]->Q->options->reltol = 1e-6; L[s]->solve(); L[s]->touch(); break;
        case 2: L[s]->Q->options->maxit = 2; L[s]->Q->options->reltol = 1e-14; L[s]->Q->options->verbose = 0; L[s]->solve(); L[s]->touch(); break;
        case 3: L[s]->Q->options->maxit = 1; L[s]->Q->options->verbose = 2; L[s]->Q->options->sigma = 0.5; L[s]->solve(); L[s]->touch(); break;
        } }
    for (int s = 0; s < 2; s++) if (L[s]) { L[s]->touch(); L[s]->cleanup(); delete L[s]; }
    count("evaluations");
}
static std::vector<std::vector<int>> SEQ; static long NSTATES = 0, NTRANS = 0;
static void gen(std::vector<int> &cur, bool l0, bool l1, int depth) { // all maximal operation sequences of the given depth
    NSTATES++; if ((int)cur.size() == depth) { SEQ.push_back(cur); return; }
    for (int o = 0; o < 8; o++) { int s = o & 1; bool l = s ? l1 : l0; if (o >> 1 && !l) continue; if (s == 1 && !l1 && !l0 && cur.empty()) continue; // symmetric start
        cur.push_back(o); NTRANS++; gen(cur, s == 0 && o < 2 ? !l0 : l0, s == 1 && o < 2 ? !l1 : l1, depth); cur.pop_back(); }
}
// ---- C16
static std::vector<char> PLAN; static long NREQ; static bool INJ = false;
static void *inj_malloc(size_t n) { if (INJ) { long i = NREQ++; if (i < (long)PLAN.size() && PLAN[i]) { count("injected_failures"); return nullptr; } } return __wrap_malloc(n); }
static void *inj_calloc(size_t a, size_t b) { if (INJ) { long i = NREQ++; if (i < (long)PLAN.size() && PLAN[i]) { count("injected_failures"); return nullptr; } } return __wrap_calloc(a, b); }
static void *inj_realloc(void *p, size_t b) { if (INJ) { long i = NREQ++; if (i < (long)PLAN.size() && PLAN[i]) { count("injected_failures"); return nullptr; } } return __wrap_realloc(p, b); }
static void faults(const Prob &q, int f, bool nulleq, bool comparable) {
    Prob q0 = q; if (nulleq) { q0.p = 0; q0.A.clear(); q0.b.clear(); }
    auto run = [&](bool inj, Res &r) { NREQ = 0; INJ = inj; Live L(q, f, 1, false, nulleq); INJ = false; long want = q0.p; if (L.Q->p != want) violation("%ld equalities used instead of %ld", (long)L.Q->p, want); r.ret = L.solve(); L.touch(); r.fval = L.Q->stats->fval; r.it = L.Q->stats->IterationCount; r.x.assign(L.Q->x, L.Q->x + q.n); L.cleanup(); };
    PLAN.clear(); Res ref; run(true, ref); long K = NREQ; maxc("max_requests_per_setup", K); count("evaluations"); if (K > 12) K = 12;
    for (long mask = 1; mask < (1L << K); mask++) {
        PLAN.assign(K, 0); for (long i = 0; i < K; i++) PLAN[i] = mask >> i & 1; detail("%s%s failing allocation requests (bitmask) 0x%lx of %ld", fmt_name(f), nulleq ? " equality count set but data NULL" : "", mask, K);
        Res r; run(true, r); count("evaluations"); count("nontrivial"); PLAN.clear(); if (!comparable) continue;
        if (r.ret != ref.ret) violation("exit code %ld instead of %ld | %s", r.ret, ref.ret, show(q).c_str());
        else if (r.ret == 0) { if (!(fabs(r.fval - ref.fval) <= 1e-4 * (1 + fabs(ref.fval)))) violation("objective %.12g instead of %.12g | %s", r.fval, ref.fval, show(q).c_str());
            for (int i = 0; i < q.n; i++) if (!(fabs(r.x[i] - ref.x[i]) <= 1e-2 * (1 + fabs(ref.x[i])))) { violation("x[%d]=%.12g instead of %.12g | %s", i, r.x[i], ref.x[i], show(q).c_str()); break; } }
    }
}
static void amd_faults(int n, const std::vector<qp_int> &jc, const std::vector<qp_int> &ir) { // the ordering routine called directly
    auto one = [&](bool inj, std::vector<qp_int> &P, bool ctl) -> long { std::vector<qp_int> a = jc, b = ir; double C[AMD_CONTROL], I[AMD_INFO]; amd_l_defaults(C); qp_int *pp = exact(P), *pa = exact(a), *pb = exact(b); NREQ = 0; INJ = inj; long st; { acctn::In in(7); st = amd_l_order(n, pa, pb, pp, ctl ? C : nullptr, ctl ? I : nullptr); } INJ = false;
        if (memcmp(pa, a.data(), a.size() * 8) || (b.size() && memcmp(pb, b.data(), b.size() * 8))) violation("input pattern modified"); P.assign(pp, pp + n); if (ctl && (long)I[AMD_STATUS] != st) violation("Info status %g differs from the returned status %ld", I[AMD_STATUS], st); __real_free(pp); __real_free(pa); __real_free(pb);
        long o = acctn::outstanding(7); if (o) { violation("%ld block(s) leaked by the ordering routine", o); acctn::live.clear(); } return st; };
    PLAN.clear(); std::vector<qp_int> P(n, -1); long st0 = one(true, P, true), K = NREQ; maxc("max_requests_direct", K); if (K > 12) K = 12; count("evaluations");
    for (long mask = 1; mask < (1L << K); mask++) for (int ctl = 0; ctl < 2; ctl++) { PLAN.assign(K, 0); bool hit = false; for (long i = 0; i < K; i++) PLAN[i] = mask >> i & 1; (void)hit; std::vector<qp_int> R(n, -1); detail("direct ordering n=%d jc=%s ir=%s failing requests 0x%lx of %ld", n, vs(V(jc.begin(), jc.end())).c_str(), vs(V(ir.begin(), ir.end())).c_str(), mask, K);
        long before = loc["injected_failures"]; long st = one(true, R, ctl); count("evaluations"); count("nontrivial"); bool failed = loc["injected_failures"] > before; PLAN.clear();
        if (failed && st != AMD_OUT_OF_MEMORY) violation("status %ld instead of out-of-memory after a failed allocation", st); if (!failed && st != st0) violation("status %ld instead of %ld without a failed allocation", st, st0); }
}
int main(int argc, char **argv) {
    std::vector<Family> F; int prop = argc > 1 ? atoi(argv[1]) : 7; argc--; argv++; bool TH = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"); for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "thorough")) TH = true; mkcat();
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--depth")) {}
    worker_init = [] { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); };
    auto *SM = new std::vector<SCase>(structured_menu(TH));
    auto *U110 = new Universe(1, 1, 0, -1, 2), *U120 = new Universe(1, 2, 0, -1, 2), *U111 = new Universe(1, 1, 1, -1, 2), *U130 = new Universe(1, 3, 0, -1, 1), *U121 = new Universe(1, 2, 1, -1, 1), *U112 = new Universe(1, 1, 2, -1, 1);
    auto *U210 = new Universe(2, 1, 0, -1, 1), *U220 = new Universe(2, 2, 0, -1, 1), *U211 = new Universe(2, 1, 1, -1, 1), *U221 = new Universe(2, 2, 1, -1, 1, -1, 1), *U230 = new Universe(2, 3, 0, -1, 1);
    auto *U100 = new Universe(1, 0, 0, -2, 2), *U101 = new Universe(1, 0, 1, -2, 2), *U200 = new Universe(2, 0, 0, -2, 2), *U201 = new Universe(2, 0, 1, -1, 1), *U202 = new Universe(2, 0, 2, -1, 1), *U301 = new Universe(3, 0, 1, -1, 1, -1, 1);
    struct UU { const char *nm; Universe *u; long sq, st; };
    if (prop == 7) {
        long slow = MSAN ? 3 : 1;
        for (auto &x : std::vector<UU>{{"n1m0p0", U100, 1, 1}, {"n1m0p1", U101, 1, 1}, {"n2m0p0", U200, 3, 1}, {"n2m0p1", U201, 1, 1}, {"n2m0p2", U202, 7, 1}, {"n3m0p1", U301, 97, 13}, {"n1m1p0", U110, 1, 1}, {"n1m2p0", U120, 1, 1}, {"n1m1p1", U111, 1, 1}, {"n1m3p0", U130, 1, 1}, {"n1m2p1", U121, 1, 1}, {"n1m1p2", U112, 1, 1}, {"n2m1p0", U210, 1, 1}, {"n2m1p1", U211, 1, 1}, {"n2m2p0", U220, 2, 1}, {"n2m2p1", U221, 11, 1}, {"n2m3p0", U230, 31, 3}, {"n1m0p3", new Universe(1, 0, 3, -1, 1), 5, 1}, {"n1m4p0", new Universe(1, 4, 0, -1, 1), 13, 1}, {"n1m3p1", new Universe(1, 3, 1, -1, 1), 13, 1}, {"n2m1p2", new Universe(2, 1, 2, -1, 1, -1, 1), 101, 7}, {"n2m3p1", new Universe(2, 3, 1, -1, 1, -1, 1), 3001, 301}})
            F.push_back({x.nm, [=](bool t) { return x.u->size() / (t ? x.st : x.sq * slow) + 1; }, [=](long k) { Prob q = from_int(x.u->get(std::min(k * (TH ? x.st : x.sq * slow), x.u->size() - 1))); sample(show(q)); int f0 = (int)(k % F_NFMT);
                for (int w = 0; w < 2; w++) { int f = (f0 + w * 3) % F_NFMT; detail("%s life cycle setup-solve-cleanup", fmt_name(f)); Live L(q, f, 1, w, false, k % 7 == 0 ? 0.3 : 0); L.touch(); L.Q->options->verbose = k % 13 == 0; long r = L.solve(); count(r == 0 ? "exit0" : "exit_other"); L.touch(); L.cleanup(); count("evaluations"); count("nontrivial"); count("transitions", 3); count("states", 4); count("traces"); } }, 64});
        F.push_back({"structured", [=](bool) { return (long)SM->size(); }, [=](long k) { auto &s = (*SM)[k]; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); for (int f = 0; f < F_NFMT; f++) { if (s.N > 12 && f != (int)(k % F_NFMT)) continue; for (int w = 0; w < (s.N > 60 ? 1 : 2); w++) { detail("%s life cycle, %s", fmt_name(f), w ? "user permutation" : "built-in ordering"); Live L(q, f, 1, w && s.N < 33, false); L.solve(); L.touch(); L.cleanup(); count("evaluations"); count("nontrivial"); count("transitions", 3); count("states", 4); count("traces"); } } }, 1});
        F.push_back(big::family(TH, [TH](const big::Prob &q, int kind, long k) { if (MSAN && !TH && (q.n + q.m > 40000) && k % 3) return; (void)TH; std::vector<int> L = big::perms(q, kind); int pm = L[k % L.size()], N = q.n + q.m + q.p; std::vector<void *> mine; auto K = [&](auto *x) { mine.push_back((void *)x); return x; }; std::vector<qp_int> P0(N); for (int i = 0; i < N; i++) P0[i] = pm == 1 ? N - 1 - i : i < q.m ? q.n + q.p + i : i - q.m; bool e = q.p > 0;
            qp_int *PP = pm ? K(exact(P0)) : nullptr; double *c = K(exact(q.c)), *h = K(exact(q.h)), *b = e ? K(exact(q.b)) : nullptr; Ccs P = big::ccs(q.n, q.n, q.P, k & 1), G = big::ccs(q.m, q.n, q.G, k & 1), A = big::ccs(q.p, q.n, q.A, k & 1); qp_int *pj = K(exact(P.jc)), *pi = K(exact(P.ir)), *gj = K(exact(G.jc)), *gi = K(exact(G.ir)), *aj = e ? K(exact(A.jc)) : nullptr, *ai = e ? K(exact(A.ir)) : nullptr; double *pp = K(exact(P.pr)), *gp = K(exact(G.pr)), *ap = e ? K(exact(A.pr)) : nullptr;
            { acctn::In in(1); QP *Q = QP_SETUP(q.n, q.m, q.p, pj, pi, pp, aj, ai, ap, gj, gi, gp, c, h, b, 0, PP); Q->options->verbose = 0; if (k % 5) QP_SOLVE(Q); QP_CLEANUP(Q); } count("setups"); count("cleanups"); count("solves", k % 5 != 0); count("transitions", 3); count("states", 4); for (void *x : mine) __real_free(x); long o = acctn::outstanding(1); if (o) violation("%ld block(s) allocated for the problem are not released by cleanup | %s", o, q.tag.c_str()); acctn::live.clear(); }));
        { auto *SW = new std::vector<SCase>(sweep_menu(TH)); F.push_back({"sizes", [=](bool) { return (long)SW->size(); }, [=](long k) { auto &s = (*SW)[k]; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); if (MSAN && !TH && k % 3 && s.N > 140) return; int f = (int)(k % F_NFMT); detail("%s life cycle", fmt_name(f)); Live L(q, f, 1, k / 7 & 1, false); L.solve(); L.touch(); L.cleanup(); count("evaluations"); count("nontrivial"); count("transitions", 3); count("states", 4); count("traces"); }, 8}); }
        { auto *SV = new std::vector<std::pair<Prob, long>>(special_menu(catalogue(true), 5));
          F.push_back({"special-values", [=](bool) { return (long)SV->size() / (MSAN && !TH ? 3 : 1); }, [=](long k) { k *= MSAN && !TH ? 3 : 1; Prob q = special((*SV)[k].first, (*SV)[k].second); for (int f = 0; f < F_NFMT; f++) { if (!TH && f > F_CCS && f != (int)(3 + k % 4)) continue; detail("%s life cycle with a special value", fmt_name(f)); Live L(q, f, 1, (f + k) & 1, false); L.solve(); L.touch(); L.Q->options->maxit = 3; L.Q->options->sigma = 0.5; L.Q->options->verbose = 1; L.solve(); L.touch(); L.cleanup(); count("evaluations"); count("transitions", 4); count("nontrivial"); } }, 64}); }
        F.push_back({"absent-equality-data", [=](bool) { return (long)CAT.P.size() * F_NFMT * 2; }, [=](long k) { auto &q = CAT.P[k / (2 * F_NFMT)]; if (!q.p) return; int f = (int)(k / 2 % F_NFMT); detail("%s equality count set, data NULL", fmt_name(f)); Live L(q, f, 1, k & 1, true); L.solve(); L.touch(); L.cleanup(); count("evaluations"); count("nontrivial"); count("transitions", 3); count("states", 4); count("traces"); }, 4});
        std::vector<int> cur; gen(cur, false, false, MSAN ? (TH ? 5 : 4) : (TH ? 7 : 6)); size_t C = CAT.P.size();
        struct Pair { int a, fa, b, fb; }; auto *PR = new std::vector<Pair>; for (size_t i = 0; i < C; i++) for (int d = 0; d < (TH ? 3 : 2); d++) PR->push_back({(int)i, (int)(i * 3 + d * 2) % F_NFMT, (int)((i * 5 + d * 7 + 1) % C), (int)(i + d * 3 + 1) % F_NFMT});
        long ch = 200; long NS = ((long)SEQ.size() + ch - 1) / ch; long ntr = 0; (void)ntr;
        F.push_back({"two-problem-histories", [=](bool) { return NS * (long)PR->size(); }, [=](long k) { auto &p = (*PR)[k / NS]; long a = k % NS * ch; sample(CAT.P[p.a].tag + " and " + CAT.P[p.b].tag + " x all operation sequences");
            for (long i = a; i < a + ch && i < (long)SEQ.size(); i++) { std::string s; for (int o : SEQ[i]) { static const char *nm[] = {"toggle-life", "solve", "short-solve", "verbose-centering-solve"}; s += std::string(" ") + nm[o >> 1] + (o & 1 ? "(B)" : "(A)"); } detail("A=%s %s, B=%s %s:%s", CAT.P[p.a].tag.c_str(), fmt_name(p.fa), CAT.P[p.b].tag.c_str(), fmt_name(p.fb), s.c_str());
                script(SEQ[i], CAT.P[p.a], p.fa, CAT.P[p.b], p.fb, i & 1); count("nontrivial"); count("traces"); } if (k % NS == 0) count("states", NSTATES); }, 1});
        // the ordering routine under the sanitizer: all symmetric patterns
        F.push_back({"ordering-graphs", [=](bool) { return 1L << 15; }, [=](long k) { if (MSAN && k % 3) return; int n = 6; std::vector<qp_int> jc{0}, ir; for (int j = 0; j < n; j++) { for (int i = 0; i < n; i++) { int a = std::min(i, j), b = std::max(i, j); bool e = a == b ? (k + i) % 2 : k >> (a * n - a * (a + 1) / 2 + b - a - 1) & 1; if (e) ir.push_back(i); } jc.push_back((qp_int)ir.size()); }
            if (k % 5 == 4) for (int j = 0; j < n; j++) std::reverse(ir.begin() + jc[j], ir.begin() + jc[j + 1]); qp_int *a = exact(jc), *b = exact(ir), *P = (qp_int *)__real_malloc(n * sizeof(qp_int)); double I[AMD_INFO]; { acctn::In in(3); amd_l_order(n, a, b, P, nullptr, k & 1 ? I : nullptr); } __real_free(a); __real_free(b); __real_free(P); if (acctn::outstanding(3)) { violation("ordering routine leaks"); acctn::live.clear(); } count("evaluations"); count("nontrivial"); count("transitions"); count("states", 2); count("traces"); }, 256});
    }
    if (prop == 16) {
        amd_malloc = inj_malloc; amd_calloc = inj_calloc; amd_realloc = inj_realloc; amd_free = __wrap_free;
        F.push_back({"catalogue", [=](bool) { return (long)CAT.P.size() * F_NFMT * 2; }, [=](long k) { auto &q = CAT.P[k / (2 * F_NFMT)]; if (k & 1 && !q.p) return; sample(q.tag); faults(q, (int)(k / 2 % F_NFMT), k & 1, false); }, 1});
        for (auto &x : std::vector<UU>{{"n1m0p0", U100, 1, 1}, {"n1m0p1", U101, 1, 1}, {"n2m0p0", U200, 3, 1}, {"n2m0p1", U201, 1, 1}, {"n2m0p2", U202, 7, 1}, {"n3m0p1", U301, 97, 13}, {"n1m1p0", U110, 1, 1}, {"n1m2p0", U120, 1, 1}, {"n1m1p1", U111, 1, 1}, {"n1m3p0", U130, 1, 1}, {"n1m2p1", U121, 1, 1}, {"n2m1p1", U211, 7, 1}, {"n2m2p0", U220, 11, 2}, {"n2m2p1", U221, 97, 13}, {"n2m3p0", U230, 401, 41}, {"n1m0p3", new Universe(1, 0, 3, -1, 1), 5, 1}, {"n1m4p0", new Universe(1, 4, 0, -1, 1), 13, 1}, {"n1m3p1", new Universe(1, 3, 1, -1, 1), 13, 1}, {"n2m1p2", new Universe(2, 1, 2, -1, 1, -1, 1), 101, 7}, {"n2m3p1", new Universe(2, 3, 1, -1, 1, -1, 1), 3001, 301}})
            F.push_back({x.nm, [=](bool t) { return x.u->size() / (t ? x.st : x.sq); }, [=](long k) { IntQP iq = x.u->get(k * (TH ? x.st : x.sq)); Exact E = analyse(iq); if (!E.wellposed() || !regular(iq, E)) return; Prob q = from_int(iq); sample(show(q)); faults(q, (int)(k % F_NFMT), false, true); }, 64});
        F.push_back({"structured", [=](bool) { return (long)SM->size(); }, [=](long k) { auto &s = (*SM)[k]; if (s.N > (TH ? 130 : 33) && !cheap(s)) return; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); faults(q, (int)(k % F_NFMT), false, true); if (q.p && s.N < 13) faults(q, (int)(k % F_NFMT), true, false); }, 1});
        { auto *SW = new std::vector<SCase>(sweep_menu(TH)); F.push_back({"sizes", [=](bool) { return (long)SW->size(); }, [=](long k) { auto &s = (*SW)[k]; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); if (s.N > (TH ? 300 : 140) && !(s.kind == 1 && s.N < 300)) return; faults(q, (int)(k % F_NFMT), false, true); }, 8}); }
        for (int n = 1; n <= (TH ? 4 : 3); n++) F.push_back({"direct-ordering-n" + std::to_string(n), [=](bool) { return (1L << (n * n)) * 3; }, [=](long k) { int v = (int)(k % 3); long b = k / 3; std::vector<qp_int> jc{0}, ir; for (int j = 0; j < n; j++) { std::vector<qp_int> c; for (int i = 0; i < n; i++) if (b >> (j * n + i) & 1) c.push_back(i); if (v == 1) std::reverse(c.begin(), c.end()); if (v == 2 && c.size()) c.push_back(c[0]); for (auto i : c) ir.push_back(i); jc.push_back((qp_int)ir.size()); } sample("pattern bits " + std::to_string(b)); amd_faults(n, jc, ir); }, 32});
    }
    return main_(argc, argv, F);
}
