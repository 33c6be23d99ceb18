// Problems with many thousands of variables and rows, built sparsely, with a planted optimum.
#pragma once
#include "prob.hpp"
namespace big {
struct Trip { int i, j; double v; };
inline Ccs ccs(int r, int c, const std::vector<Trip> &T, bool rev) { (void)r; Ccs o; std::vector<std::vector<std::pair<int, double>>> C(c); for (auto &t : T) C[t.j].push_back({t.i, t.v}); o.jc.push_back(0); for (auto &v : C) { std::sort(v.begin(), v.end()); if (rev) std::reverse(v.begin(), v.end()); for (auto &e : v) { o.ir.push_back(e.first); o.pr.push_back(e.second); } o.jc.push_back((qp_int)o.ir.size()); } o.ir.reserve(o.ir.size() + 1); o.pr.reserve(o.pr.size() + 1); return o; }
struct Prob { int n = 0, m = 0, p = 0; std::vector<Trip> P, G, A; V c, h, b, xs; double fs = 0; std::string tag; };
inline void mul(const std::vector<Trip> &T, const V &x, std::vector<long double> &y, bool tr = false) { for (auto &t : T) if (tr) y[t.j] += (long double)t.v * x[t.i]; else y[t.i] += (long double)t.v * x[t.j]; }
enum { NKIND = 6 };
inline Prob make(int kind, int N) {
    static const char *nm[] = {"box-tridiagonal", "one-sided-diagonal", "many-rows", "equality-chain", "differences", "no-inequalities"}; Prob q; char b[80]; snprintf(b, 80, "large %s(N=%d)", nm[kind], N); q.tag = b; std::vector<char> act; V y; auto xv = [&](int i) { return (double)((i * 5) % 7 - 3) / 2; };
    switch (kind) {
    case 0: q.n = N; q.m = 2 * N; for (int i = 0; i < N; i++) { q.P.push_back({i, i, 2.5}); if (i + 1 < N) { q.P.push_back({i, i + 1, -1}); q.P.push_back({i + 1, i, -1}); } q.G.push_back({2 * i, i, 1}); q.G.push_back({2 * i + 1, i, -1}); act.push_back(i % 3 == 1); act.push_back(i % 3 == 2); } break;
    case 1: q.n = q.m = N; for (int i = 0; i < N; i++) { q.P.push_back({i, i, 1. + i % 3}); q.G.push_back({i, i, i % 2 ? -1. : 1.}); act.push_back(i % 3 == 1); } break;
    case 2: q.n = 3; q.m = N; for (int i = 0; i < 3; i++) q.P.push_back({i, i, 1. + i}); q.P.push_back({0, 1, .5}); q.P.push_back({1, 0, .5}); for (int i = 0; i < N; i++) { q.G.push_back({i, i % 3, i % 2 ? -1. : 1.}); if (i % 3 == 0) q.G.push_back({i, 1, .5}); act.push_back(i == 1 || i == 4 || i == N - 1); } break;
    case 3: q.n = N + 1; q.p = N; q.m = 2; for (int i = 0; i <= N; i++) { q.P.push_back({i, i, 1. + i % 2}); if (i < N) { q.A.push_back({i, i, -1}); q.A.push_back({i, i + 1, 1}); y.push_back(i % 3 - 1); } } q.G = {{0, 0, 1}, {1, N, -1}}; act = {0, 1}; break;
    case 4: q.n = N + 1; q.m = N; for (int i = 0; i <= N; i++) { q.P.push_back({i, i, 1}); if (i < N) { q.G.push_back({i, i, 1}); q.G.push_back({i, i + 1, -1}); act.push_back(i % 3 == 1); } } break;
    case 5: q.n = N + 1; q.p = (N + 1) / 2; for (int i = 0; i <= N; i++) { q.P.push_back({i, i, 2.5}); if (i < N) { q.P.push_back({i, i + 1, .5}); q.P.push_back({i + 1, i, .5}); } } for (int k = 0; k < q.p; k++) { q.A.push_back({k, 2 * k, 1}); q.A.push_back({k, 2 * k + 1, 1}); y.push_back(k % 3 - 1); } break;
    }
    for (int i = 0; i < q.n; i++) q.xs.push_back(xv(i)); V z(q.m, 0.); std::vector<long double> g(q.m), px(q.n), a(q.p), r; mul(q.G, q.xs, g); mul(q.P, q.xs, px); mul(q.A, q.xs, a);
    for (int i = 0; i < q.m; i++) { q.h.push_back((double)g[i] + (act[i] ? 0 : 1 + i % 2)); z[i] = act[i] ? 1 + i % 3 : 0; } for (auto v : a) q.b.push_back((double)v); r = px; mul(q.G, z, r, true); mul(q.A, y, r, true); for (auto v : r) q.c.push_back(-(double)v); long double f = 0; for (int i = 0; i < q.n; i++) f += q.xs[i] * (0.5L * px[i] + q.c[i]); q.fs = (double)f; return q;
}
struct Case { int kind, N; };
inline std::vector<Case> menu(bool th) { std::vector<Case> L; std::vector<int> S = {1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 9999, 10000, 10001, 16383, 16384, 16385, 20000, 32766, 32767, 32768, 32769, 50000, 65534, 65535, 65536, 65537, 99999, 100000, 100001}; if (th) for (int v : {2500, 6000, 12000, 25000, 40000, 131071, 131072, 131073, 200000, 262143, 262144, 262145}) S.push_back(v); for (int N : S) for (int k = 0; k < NKIND; k++) L.push_back({k, N}); std::stable_sort(L.begin(), L.end(), [](const Case &a, const Case &b) { return a.N > b.N; }); return L; }
struct Inst { const Prob &q; Ccs P, G, A; V c, h, b; std::vector<qp_int> pm; QP *Q;
    Inst(const Prob &q_, bool rev = false, int perm = 0) : q(q_), P(ccs(q.n, q.n, q.P, rev)), G(ccs(q.m, q.n, q.G, rev)), A(ccs(q.p, q.n, q.A, rev)), c(q.c), h(q.h), b(q.b) { int N = q.n + q.m + q.p; if (perm) for (int i = 0; i < N; i++) pm.push_back(perm == 1 ? N - 1 - i : i < q.m ? q.n + q.p + i : i - q.m); h.reserve(1); bool e = q.p > 0;
        Q = QP_SETUP(q.n, q.m, q.p, P.jc.data(), P.ir.data(), P.pr.data(), e ? A.jc.data() : nullptr, e ? A.ir.data() : nullptr, e ? A.pr.data() : nullptr, G.jc.data(), G.ir.data(), G.pr.data(), c.data(), h.data(), e ? b.data() : nullptr, 0, perm ? pm.data() : nullptr); Q->options->verbose = 0; }
    Res solve() { Res r; r.ret = QP_SOLVE(Q); r.flag = Q->stats->Flag; r.it = Q->stats->IterationCount; r.fval = Q->stats->fval; r.rx = Q->stats->n_rx; r.ry = Q->stats->n_ry; r.rz = Q->stats->n_rz; r.mu = Q->stats->n_mu; r.x.assign(Q->x, Q->x + q.n); if (q.p) r.y.assign(Q->y, Q->y + q.p); r.z.assign(Q->z, Q->z + q.m); r.s.assign(Q->s, Q->s + q.m); return r; }
    ~Inst() { QP_CLEANUP(Q); } Inst(const Inst &) = delete; };
// exit 0 certified, and the optimum; "" when fine
inline std::string judge(const Prob &q, const Res &r, bool opt) {
    char b[300]; auto bad = [&](const char *w, long double v) { snprintf(b, 300, "%s %.10Lg (exit code %ld after %ld iterations)", w, v, r.ret, r.it); return std::string(b); };
    if (r.ret != 0) return opt ? bad("well-posed QP not solved, objective", r.fval) : ""; if (r.ret != r.flag) return bad("return value differs from the recorded flag", r.flag);
    std::vector<long double> g(q.n), rz(q.m), ry(q.p), px(q.n); mul(q.P, r.x, px); for (int i = 0; i < q.n; i++) g[i] = px[i] + q.c[i]; mul(q.G, r.z, g, true); mul(q.A, r.y, g, true); mul(q.G, r.x, rz); mul(q.A, r.x, ry); long double nx = 0, nz = 0, ny = 0, mu = 0, f = 0, fa = 0, mn = 1;
    for (auto v : g) nx += v * v; for (int i = 0; i < q.m; i++) { long double t = rz[i] + r.s[i] - q.h[i]; nz += t * t; mu += (long double)r.s[i] * r.z[i]; mn = std::min(mn, (long double)std::min(r.s[i], r.z[i])); } for (int i = 0; i < q.p; i++) { long double t = ry[i] - q.b[i]; ny += t * t; } for (int i = 0; i < q.n; i++) { long double t = r.x[i] * (0.5L * px[i] + q.c[i]); f += t; fa += fabsl(t); }
    long double tol = 1.001e-6L, al = 1e-9L; if (!(sqrtl(nx) <= tol + al)) return bad("exit code 0 but the dual residual is", sqrtl(nx)); if (!(sqrtl(nz) <= tol + al)) return bad("exit code 0 but the residual of the inequalities is", sqrtl(nz)); if (!(sqrtl(ny) <= tol + al)) return bad("exit code 0 but the residual of the equalities is", sqrtl(ny)); if (q.m && !(mu / q.m <= tol)) return bad("exit code 0 but s'z/m is", mu / q.m); if (q.m && !(mn >= 0)) return bad("exit code 0 but the smallest slack or multiplier is", mn); if (!(fabsl(f - r.fval) <= 1e-10L * (1 + fa))) return bad("objective recorded differs from the true one", f);
    if (opt) { if (!(fabsl(f - q.fs) <= 1e-4L * (1 + fa + q.m * 1e-2L))) return bad("objective is not the optimal one, off by", f - q.fs); for (int i = 0; i < q.n; i++) if (!(fabs(r.x[i] - q.xs[i]) <= 2e-2)) { snprintf(b, 300, "x[%d]=%.17g, the minimiser has %.17g", i, r.x[i], q.xs[i]); return b; } }
    return "";
}
inline std::vector<int> perms(const Prob &q, int kind) { std::vector<int> L = {0}; if (kind != 2 || q.m <= 1500) { L.push_back(1); if (kind != 5) L.push_back(2); } return L; }
inline core::Family family(bool th, std::function<void(const Prob &, int, long)> f) { auto *M = new std::vector<Case>(menu(th)); return {"large", [=](bool) { return (long)M->size(); }, [=](long k) { auto &c = (*M)[k]; Prob q = make(c.kind, c.N); core::detail("%s", q.tag.c_str()); core::sample(q.tag); core::count("evaluations"); core::count("nontrivial"); f(q, c.kind, k); }, 1}; }
}
