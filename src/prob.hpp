// Problems, input formats, independent KKT evaluation, universes and structured families.
#pragma once
#include "core.hpp"
#include "exact.hpp"
extern "C" {
#include "qpSWIFT.h"
}
#undef MIN
#undef MAX
#undef EMPTY
typedef std::vector<double> V;
struct Prob {
    int n = 0, m = 0, p = 0; V P, G, A, c, h, b; // matrices ROW major
    bool hasopt = false; V xs; double fs = 0; bool unique = false; std::string tag;
};
inline std::string vs(const V &v) { std::string s = "["; char b[40]; size_t k = 0; for (double d : v) { snprintf(b, 40, "%s%.17g", s.size() > 1 ? "," : "", d); s += b; if (++k > 60) { s += ",..."; break; } } return s + "]"; }
inline std::string show(const Prob &q) { char b[120]; snprintf(b, 120, "n=%d m=%d p=%d ", q.n, q.m, q.p); std::string s = q.tag.empty() ? "" : q.tag + " "; s += b; if (q.n * q.m > 400) return s; return s + "P=" + vs(q.P) + " c=" + vs(q.c) + " G=" + vs(q.G) + " h=" + vs(q.h) + (q.p ? " A=" + vs(q.A) + " b=" + vs(q.b) : ""); }
inline Prob from_int(const IntQP &q) {
    Prob r; r.n = q.n; r.m = q.m; r.p = q.p; r.P.assign(q.P.begin(), q.P.end()); r.G.assign(q.G.begin(), q.G.end()); r.A.assign(q.A.begin(), q.A.end());
    r.c.assign(q.c.begin(), q.c.end()); r.h.assign(q.h.begin(), q.h.end()); r.b.assign(q.b.begin(), q.b.end()); return r;
}
struct Ccs { std::vector<qp_int> jc, ir; V pr; };
// order: 0 ascending rows, 1 descending, 2 rotated, or a callback; zeros: bitmask function deciding which zero entries are stored
inline Ccs to_ccs(const V &M, int r, int c, int order = 0, int zeros = 0) {
    Ccs o; o.jc.push_back(0); int zc = 0;
    for (int j = 0; j < c; j++) {
        std::vector<int> rows; for (int i = 0; i < r; i++) { double v = M[(size_t)i * c + j]; bool keep = v != 0; if (!keep && zeros) { keep = zeros == 1 || (zeros == 2 && (zc & 1)) || (zeros == 3 && ((i + j) % 3 == 0)); zc++; } if (keep) rows.push_back(i); }
        if (order == 1) std::reverse(rows.begin(), rows.end());
        if (order == 2 && rows.size() > 1) std::rotate(rows.begin(), rows.begin() + 1, rows.end());
        if (order == 3 && rows.size() > 2) for (size_t k = 0; k + 1 < rows.size(); k += 2) std::swap(rows[k], rows[k + 1]);
        for (int i : rows) { o.ir.push_back(i); o.pr.push_back(M[(size_t)i * c + j]); }
        o.jc.push_back((qp_int)o.ir.size());
    }
    o.ir.reserve(o.ir.size() + 1); o.pr.reserve(o.pr.size() + 1); // non-NULL data() even if empty
    return o;
}
struct Opt { long maxit = 100; double reltol = 1e-6, abstol = 1e-6; double sigma = 100, sigma_d = 0; long verbose = 0; };
struct Res { long ret = -1, flag = -1, it = -1; double fval = 0, rx = 0, ry = 0, rz = 0, mu = 0; V x, y, z, s; };
enum { F_ROW, F_COL, F_CCS, F_CCSREV, F_CCSROT, F_CCSZ, F_CCSSWAPZ, F_NFMT };
inline const char *fmt_name(int f) { static const char *n[] = {"dense-row", "dense-col", "ccs", "ccs-descending-rows", "ccs-rotated-rows", "ccs-stored-zeros", "ccs-swapped-rows+some-zeros"}; return n[f]; }
// one live problem; owns the caller-side arrays
struct Inst {
    Prob q; int fmt; V P, G, A, c, h, b; Ccs Pc, Gc, Ac; std::vector<qp_int> perm; QP *qp = nullptr; bool dense;
    V colm(const V &M, int r, int cc) { V o(M.size()); for (int i = 0; i < r; i++) for (int j = 0; j < cc; j++) o[(size_t)j * r + i] = M[(size_t)i * cc + j]; return o; }
    Inst(const Prob &pr, int f = F_ROW, const Opt &o = Opt(), const std::vector<qp_int> *pm = nullptr) : q(pr), fmt(f) { setup(o, pm); }
    void setup(const Opt &o, const std::vector<qp_int> *pm) {
        c = q.c; h = q.h; b = q.b; if (pm) perm = *pm; qp_int *PP = pm ? perm.data() : nullptr; int n = q.n, m = q.m, p = q.p;
        dense = fmt == F_ROW || fmt == F_COL;
        if (dense) {
            P = fmt == F_ROW ? q.P : colm(q.P, n, n); G = fmt == F_ROW ? q.G : colm(q.G, m, n); A = fmt == F_ROW ? q.A : colm(q.A, p, n);
            qp = QP_SETUP_dense(n, m, p, P.data(), p ? A.data() : nullptr, G.data(), c.data(), h.data(), p ? b.data() : nullptr, PP, fmt == F_ROW ? ROW_MAJOR_ORDERING : COLUMN_MAJOR_ORDERING);
            qp->sigma_d = o.sigma_d;
        } else {
            int ord = fmt == F_CCSREV ? 1 : fmt == F_CCSROT ? 2 : fmt == F_CCSSWAPZ ? 3 : 0, z = fmt == F_CCSZ ? 1 : fmt == F_CCSSWAPZ ? 2 : 0;
            Pc = to_ccs(q.P, n, n, ord, z); Gc = to_ccs(q.G, m, n, ord, z); if (p) Ac = to_ccs(q.A, p, n, ord, z);
            qp = QP_SETUP(n, m, p, Pc.jc.data(), Pc.ir.data(), Pc.pr.data(), p ? Ac.jc.data() : nullptr, p ? Ac.ir.data() : nullptr, p ? Ac.pr.data() : nullptr, Gc.jc.data(), Gc.ir.data(), Gc.pr.data(), c.data(), h.data(), p ? b.data() : nullptr, o.sigma_d, PP);
        }
        apply(o);
    }
    void apply(const Opt &o) { qp->options->maxit = o.maxit; qp->options->reltol = o.reltol; qp->options->abstol = o.abstol; qp->options->sigma = o.sigma; qp->options->verbose = o.verbose; }
    Res solve() { Res r; r.ret = QP_SOLVE(qp); snap(r); return r; }
    void snap(Res &r) {
        r.flag = qp->stats->Flag; r.it = qp->stats->IterationCount; r.fval = qp->stats->fval; r.rx = qp->stats->n_rx; r.ry = qp->stats->n_ry; r.rz = qp->stats->n_rz; r.mu = qp->stats->n_mu;
        r.x.assign(qp->x, qp->x + q.n); if (q.p) r.y.assign(qp->y, qp->y + q.p); r.z.assign(qp->z, qp->z + q.m); r.s.assign(qp->s, qp->s + q.m);
    }
    void cleanup() { if (qp) { if (dense) QP_CLEANUP_dense(qp); else QP_CLEANUP(qp); qp = nullptr; } }
    ~Inst() { cleanup(); }
    Inst(const Inst &) = delete; Inst &operator=(const Inst &) = delete;
};
inline Res solve1(const Prob &q, int fmt = F_ROW, const Opt &o = Opt(), const std::vector<qp_int> *pm = nullptr) { Inst I(q, fmt, o, pm); return I.solve(); }
inline bool biteq(const V &a, const V &b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
inline bool numeq(double a, double b) { return !memcmp(&a, &b, 8) || (std::isnan(a) && std::isnan(b)); }
inline bool same(const Res &a, const Res &b) { return a.ret == b.ret && a.flag == b.flag && a.it == b.it && numeq(a.fval, b.fval) && biteq(a.x, b.x) && biteq(a.y, b.y) && biteq(a.z, b.z) && biteq(a.s, b.s); }
inline std::string shr(const Res &r) { char b[240]; snprintf(b, 240, "exit=%ld flag=%ld it=%ld fval=%.17g ", r.ret, r.flag, r.it, r.fval); return b + ("x=" + vs(r.x)) + " z=" + vs(r.z) + " s=" + vs(r.s) + (r.y.size() ? " y=" + vs(r.y) : ""); }
typedef long double ld;
struct Kkt { ld rx = 0, ry = 0, rz = 0, mu = 0, f = 0, ex = 0, ey = 0, ez = 0, ef = 0, minsz = 0, big = 0; }; // e*: rounding allowance of a double evaluation
inline Kkt kkt_eval(const Prob &q, const Res &r) {
    Kkt k; int n = q.n, m = q.m, p = q.p; const ld U = 4e-16L; ld cx = 0, acx = 0, xpx = 0, axpx = 0;
    std::vector<ld> g(n), ag(n);
    for (int i = 0; i < n; i++) {
        ld v = 0, a = 0; const double *row = &q.P[(size_t)i * n];
        for (int j = 0; j < n; j++) if (row[j] != 0) { v += (ld)row[j] * r.x[j]; a += fabsl((ld)row[j] * r.x[j]); }
        xpx += v * r.x[i]; axpx += a * fabsl((ld)r.x[i]); cx += (ld)q.c[i] * r.x[i]; acx += fabsl((ld)q.c[i] * r.x[i]); g[i] = v + q.c[i]; ag[i] = a + fabsl((ld)q.c[i]);
    }
    for (int l = 0; l < m; l++) { ld v = 0, a = 0; for (int j = 0; j < n; j++) { double e = q.G[(size_t)l * n + j]; if (e != 0) { v += (ld)e * r.x[j]; a += fabsl((ld)e * r.x[j]); g[j] += (ld)e * r.z[l]; ag[j] += fabsl((ld)e * r.z[l]); } } ld t = v + r.s[l] - q.h[l]; k.rz += t * t; ld e = U * (n + 4) * (a + fabsl((ld)r.s[l]) + fabsl((ld)q.h[l])); k.ez += e * e; }
    for (int l = 0; l < p; l++) { ld v = 0, a = 0; for (int j = 0; j < n; j++) { double e = q.A[(size_t)l * n + j]; if (e != 0) { v += (ld)e * r.x[j]; a += fabsl((ld)e * r.x[j]); g[j] += (ld)e * r.y[l]; ag[j] += fabsl((ld)e * r.y[l]); } } ld t = v - q.b[l]; k.ry += t * t; ld e = U * (n + 4) * (a + fabsl((ld)q.b[l])); k.ey += e * e; }
    for (int j = 0; j < n; j++) { k.rx += g[j] * g[j]; ld e = U * (n + m + p + 4) * ag[j]; k.ex += e * e; }
    k.rx = sqrtl(k.rx); k.ry = sqrtl(k.ry); k.rz = sqrtl(k.rz); k.ex = sqrtl(k.ex); k.ey = sqrtl(k.ey); k.ez = sqrtl(k.ez);
    k.minsz = 1e300L; for (int i = 0; i < m; i++) { k.mu += (ld)r.s[i] * r.z[i]; k.minsz = std::min(k.minsz, std::min((ld)r.s[i], (ld)r.z[i])); }
    if (m) k.mu /= m; k.f = 0.5L * xpx + cx; k.ef = axpx + acx < 1e300L ? U * 4 * (n + 4) * (axpx + acx) : INFINITY; // beyond that a term of the objective may overflow
    for (auto *v : {&r.x, &r.y, &r.z, &r.s}) for (double d : *v) { if (!(fabs(d) <= 1e300)) k.big = INFINITY; else k.big = std::max(k.big, (ld)fabs(d)); }
    return k;
}
// exit-0 certificate; empty string when it holds
inline std::string cert(const Prob &q, const Res &r, const Opt &o) {
    Kkt k = kkt_eval(q, r); char b[300]; const ld T = 1 + 1e-9L;
    auto bad = [&](const char *w, ld v, ld lim) { snprintf(b, 300, "exit code 0 but %s = %.6Lg exceeds %.6Lg; ", w, v, lim); return std::string(b) + shr(r); };
    auto okc = [](ld v, ld lim) { return v <= lim; };
    if (!okc(k.rx, o.reltol * T + k.ex)) return bad("|Px+c+A'y+G'z|", k.rx, o.reltol);
    if (!okc(k.ry, o.reltol * T + k.ey)) return bad("|Ax-b|", k.ry, o.reltol);
    if (!okc(k.rz, o.reltol * T + k.ez)) return bad("|Gx+s-h|", k.rz, o.reltol);
    if (!okc(k.mu, o.abstol * T)) return bad("s'z/m", k.mu, o.abstol);
    if (!(k.minsz >= 0)) return bad("-min(s,z)", -k.minsz, 0);
    if (std::isfinite((double)k.ef) && !okc(fabsl(k.f - (ld)r.fval), k.ef + 1e-300L)) { snprintf(b, 300, "reported objective %.17g but 1/2x'Px+c'x = %.17Lg; ", r.fval, k.f); return b + shr(r); }
    if (r.ret != r.flag) { snprintf(b, 300, "return value %ld differs from recorded flag %ld", r.ret, r.flag); return b; }
    return "";
}
// -------- universes of tiny integer problems ------------------------------------------------
inline std::vector<std::vector<int>> psd_list(int n, int lo, int hi) {
    std::vector<std::vector<int>> L; int np = n * (n + 1) / 2, B = hi - lo + 1; long tot = 1; for (int i = 0; i < np; i++) tot *= B;
    for (long k = 0; k < tot; k++) { std::vector<int> P(n * n); long t = k; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { P[i * n + j] = P[j * n + i] = (int)(t % B) + lo; t /= B; } if (int_psd(n, P)) L.push_back(P); }
    return L;
}
struct Universe { // full product: P-list x c x G x h x A x b over {lo..hi} (each digit)
    int n, m, p, lo, hi; std::vector<std::vector<int>> Ps; long D; 
    Universe(int n_, int m_, int p_, int lo_, int hi_, int plo = -1, int phi = 2) : n(n_), m(m_), p(p_), lo(lo_), hi(hi_), Ps(psd_list(n_, plo, phi)) { D = 1; for (int i = 0; i < n + m * n + m + p * n + p; i++) D *= hi - lo + 1; }
    long size() const { return D * (long)Ps.size(); }
    IntQP get(long k) const {
        IntQP q; q.n = n; q.m = m; q.p = p; q.P = Ps[k / D]; long t = k % D; int B = hi - lo + 1; auto d = [&] { int v = (int)(t % B) + lo; t /= B; return v; };
        for (int i = 0; i < n; i++) q.c.push_back(d()); for (int i = 0; i < m * n; i++) q.G.push_back(d()); for (int i = 0; i < m; i++) q.h.push_back(d());
        for (int i = 0; i < p * n; i++) q.A.push_back(d()); for (int i = 0; i < p; i++) q.b.push_back(d()); return q;
    }
};
struct Strata3 { // n=3: catalogued P and constraint rows, multisets of rows, all c, all h over a small alphabet, optional equality row
    int m; std::vector<std::vector<int>> Ps, rows, A; std::vector<std::vector<int>> ms; int hb; long per;
    Strata3(int m_, int hb_, bool big) : m(m_), hb(hb_) {
        Ps = {{1,0,0,0,1,0,0,0,1},{2,1,0,1,2,1,0,1,2},{2,-1,0,-1,2,-1,0,-1,2},{1,0,0,0,0,0,0,0,1},{0,0,0,0,0,0,0,0,0},{1,1,1,1,1,1,1,1,1},{2,0,1,0,1,0,1,0,2}};
        if (big) for (auto &x : std::vector<std::vector<int>>{{1,1,0,1,1,0,0,0,0},{2,1,1,1,2,1,1,1,2},{1,-1,0,-1,2,-1,0,-1,2},{0,0,0,0,1,1,0,1,1},{3,0,0,0,1,0,0,0,2}}) Ps.push_back(x);
        rows = {{1,0,0},{-1,0,0},{0,1,0},{0,-1,0},{0,0,1},{0,0,-1},{1,1,1},{-1,-1,0},{0,1,-1},{0,0,0}}; if (big) { rows.push_back({1,-1,1}); rows.push_back({2,1,0}); }
        A = {{}, {1,1,1,0}, {1,-1,0,1}, {0,0,1,0}, {1,0,0,0,0,1,1,1}};
        std::vector<int> cur; std::function<void(int)> rec = [&](int s) { if ((int)cur.size() == m) { ms.push_back(cur); return; } for (int i = s; i < (int)rows.size(); i++) { cur.push_back(i); rec(i); cur.pop_back(); } }; rec(0);
        per = 27; for (int i = 0; i < m; i++) per *= hb;
    }
    long size() const { return (long)Ps.size() * ms.size() * A.size() * per; }
    IntQP get(long k) const {
        IntQP q; q.n = 3; q.m = m; long t = k % per; k /= per; for (int i = 0; i < 3; i++) { q.c.push_back((int)(t % 3) - 1); t /= 3; } for (int i = 0; i < m; i++) { q.h.push_back((int)(t % hb) - (hb > 2)); t /= hb; }
        const auto &a = A[k % A.size()]; k /= A.size(); const auto &r = ms[k % ms.size()]; k /= ms.size(); q.P = Ps[k]; for (int i : r) q.G.insert(q.G.end(), rows[i].begin(), rows[i].end());
        q.p = (int)a.size() / 4; for (int i = 0; i < q.p; i++) { q.A.insert(q.A.end(), a.begin() + 4 * i, a.begin() + 4 * i + 3); q.b.push_back(a[4 * i + 3]); } return q;
    }
};
// strict complementarity + LICQ + second order condition at the exact optimum: the limiting KKT system is nonsingular
inline bool regular(const IntQP &q, const Exact &E) {
    if (!E.solved || !E.unique) return false; int n = q.n;
    std::vector<int> act; for (int i = 0; i < q.m; i++) { Q v(0); for (int j = 0; j < n; j++) v = v + Q(q.G[i * n + j]) * E.x[j]; if (v == Q(q.h[i])) act.push_back(i); }
    int k = (int)act.size(), N = n + q.p + k; if (q.p + k > n) return false;
    std::vector<QV> M(N, QV(N)); QV r(N), s; for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) M[i][j] = Q(q.P[i * n + j]); r[i] = Q(-q.c[i]); }
    for (int i = 0; i < q.p; i++) { for (int j = 0; j < n; j++) M[n + i][j] = M[j][n + i] = Q(q.A[i * n + j]); r[n + i] = Q(q.b[i]); }
    for (int i = 0; i < k; i++) { for (int j = 0; j < n; j++) M[n + q.p + i][j] = M[j][n + q.p + i] = Q(q.G[act[i] * n + j]); r[n + q.p + i] = Q(q.h[act[i]]); }
    if (!q_solve(M, r, s)) return false; for (int i = 0; i < k; i++) if (s[n + q.p + i].sgn() <= 0) return false; return true;
}
// -------- structured families with a planted optimum ------------------------------------------
inline void plant(Prob &q, const V &x, const std::vector<char> &act, const V &y) {
    int n = q.n, m = q.m, p = q.p; V z(m, 0.0); q.c.assign(n, 0); q.h.assign(m, 0); q.b.assign(p, 0);
    for (int i = 0; i < m; i++) { double g = 0; for (int j = 0; j < n; j++) g += q.G[(size_t)i * n + j] * x[j]; q.h[i] = g + (act[i] ? 0 : 1 + i % 2); z[i] = act[i] ? 1 + i % 3 : 0; }
    for (int j = 0; j < n; j++) { double v = 0; for (int k = 0; k < n; k++) v += q.P[(size_t)j * n + k] * x[k]; for (int i = 0; i < m; i++) v += q.G[(size_t)i * n + j] * z[i]; for (int i = 0; i < p; i++) v += q.A[(size_t)i * n + j] * y[i]; q.c[j] = -v; }
    for (int i = 0; i < p; i++) { double v = 0; for (int j = 0; j < n; j++) v += q.A[(size_t)i * n + j] * x[j]; q.b[i] = v; }
    q.fs = 0; for (int j = 0; j < n; j++) { double v = 0; for (int k = 0; k < n; k++) v += q.P[(size_t)j * n + k] * x[k]; q.fs += 0.5 * x[j] * v + q.c[j] * x[j]; }
    q.xs = x; q.hasopt = q.unique = true;
}
enum { NKIND = 17 };
inline const char *kind_name(int k) { static const char *s[] = {"box-tridiagonal", "one-sided-diagonal", "dense", "mpc", "arrow", "lp-box", "equality-chain", "polygon", "zero-rows", "scaled-rows", "dense-equality-row", "parallel-bounds", "difference-rows", "psd-half", "dense-equalities", "zero-cost-columns", "no-inequalities"}; return s[k]; }
inline Prob structured(int kind, int N, int pat) {
    Prob q; char t[80]; snprintf(t, 80, "%s(N=%d,pattern=%d)", kind_name(kind), N, pat); q.tag = t;
    auto dim = [&](int n, int m, int p) { q.n = n; q.m = m; q.p = p; q.P.assign((size_t)n * n, 0); q.G.assign((size_t)m * n, 0); q.A.assign((size_t)p * n, 0); };
    auto st = [&](int i) { return pat == 0 ? 0 : (i * pat + pat) % 3; }; // 0 free, 1 upper active, 2 lower active
    auto xv = [&](int i) { return (double)((i * 5 + pat * 3) % 7 - 3) / 2; };
    V x, y; std::vector<char> act;
    switch (kind) {
    case 0: case 8: case 9: case 10: {
        int n = N, extra = kind == 8 ? N : 0; dim(n, 2 * n + extra, kind == 10 ? 1 : 0);
        for (int i = 0; i < n; i++) { q.P[(size_t)i * n + i] = 2.5; if (i + 1 < n) q.P[(size_t)i * n + i + 1] = q.P[(size_t)(i + 1) * n + i] = -1; }
        act.assign(q.m, 0); int r = 0;
        for (int i = 0; i < n; i++) { double sc = kind == 9 ? ldexp(1, (i * (pat + 1)) % 7 - 3) : 1; if (extra) { if (pat & 1) r++; } q.G[(size_t)r * n + i] = sc; act[r++] = st(i) == 1; if (extra && !(pat & 1)) r++; q.G[(size_t)r * n + i] = -sc; act[r++] = st(i) == 2; x.push_back(xv(i)); }
        if (kind == 10) { for (int i = 0; i < n; i++) q.A[i] = 1; y = {0.5}; bool fr = false; for (int i = 0; i < n; i++) fr |= st(i) == 0; if (!fr) act[0] = act[1] = 0; }
        break; }
    case 1: { dim(N, N, 0); for (int i = 0; i < N; i++) { q.P[(size_t)i * N + i] = 1 + i % 3; q.G[(size_t)i * N + i] = (i % 2) ? -1 : 1; act.push_back(st(i) == 1); x.push_back(xv(i)); } break; }
    case 2: { int n = N, m = N + 2; dim(n, m, 0); act.assign(m, 0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) q.P[(size_t)i * n + j] = (i == j ? n + 2 : ((i * j + i + j) % 3 - 1) * 0.5);
        for (int i = 0; i < n; i++) { for (int j = 0; j < i; j++) q.P[(size_t)i * n + j] = q.P[(size_t)j * n + i]; x.push_back(xv(i)); }
        for (int i = 0; i < m; i++) { double dd = 0; for (int j = 0; j < n; j++) { double v = (i * 7 + j * 3 + pat + i * j) % 5 - 2; if (j == i % n) v += 3; q.G[(size_t)i * n + j] = v; dd += v * (1 + j % 2); } act[i] = st(i) == 1 && i < n; if (act[i] && dd > 0) for (int j = 0; j < n; j++) q.G[(size_t)i * n + j] *= -1; if (dd == 0) act[i] = 0; } break; }
    case 3: { int T = N, nx = 2, nu = 1, n = T * (nx + nu), p = T * nx, m = T * 4; dim(n, m, p); // vars: u0,x1,u1,x2,...
        for (int t2 = 0; t2 < T; t2++) { int u = t2 * 3, xx = t2 * 3 + 1; q.P[(size_t)u * n + u] = 0.5; q.P[(size_t)xx * n + xx] = 1; q.P[(size_t)(xx + 1) * n + xx + 1] = 2;
            for (int k = 0; k < 2; k++) { int r = t2 * 2 + k; q.A[(size_t)r * n + xx + k] = -1; q.A[(size_t)r * n + u] = k ? 0.5 : 0.125; if (t2) { q.A[(size_t)r * n + (t2 - 1) * 3 + 1 + k] = 1; if (!k) q.A[(size_t)r * n + (t2 - 1) * 3 + 2] = 0.5; } }
            int g = t2 * 4; q.G[(size_t)g * n + u] = 1; q.G[(size_t)(g + 1) * n + u] = -1; q.G[(size_t)(g + 2) * n + xx] = 1; q.G[(size_t)(g + 3) * n + xx + 1] = -1; act.push_back(st(t2) == 1); act.push_back(st(t2) == 2); act.push_back(0); act.push_back(st(t2) == 0 && (t2 + pat) % 4 == 1); y.push_back((t2 % 3) - 1); y.push_back(((t2 + pat) % 3) - 1); }
        for (int i = 0; i < n; i++) x.push_back(xv(i)); break; }
    case 4: { int n = N, m = n + 1; dim(n, m, 0); for (int i = 0; i < n; i++) { q.P[(size_t)i * n + i] = i ? 2 : n + 1; if (i) q.P[i] = q.P[(size_t)i * n] = 1; q.G[(size_t)i * n + i] = -1; q.G[(size_t)n * n + i] = 1; act.push_back(st(i) == 2 && i != 0); x.push_back(xv(i)); } act.push_back(pat & 1); break; }
    case 5: { int n = N, m = 2 * n + 1; dim(n, m, 0); for (int i = 0; i < n; i++) { q.G[(size_t)(2 * i) * n + i] = 1; q.G[(size_t)(2 * i + 1) * n + i] = -1; bool up = (pat + 1) * (i + 1) % 3 == 1; act.push_back(up); act.push_back(!up); q.G[(size_t)(2 * n) * n + i] = 1; x.push_back(xv(i)); } act.push_back(0); break; }
    case 6: { int n = N + 1, p = N, m = n; dim(n, m, p); for (int i = 0; i < n; i++) { q.P[(size_t)i * n + i] = 1 + (i + pat) % 2; q.G[(size_t)i * n + i] = i % 2 ? 1 : -1; act.push_back(pat && i == (pat * 3) % n); x.push_back(xv(i)); if (i < p) { q.A[(size_t)i * n + i] = -1; q.A[(size_t)i * n + i + 1] = 1; y.push_back(i % 3 - 1); } } break; }
    case 7: { int m = N + 2; dim(2, m, 0); q.P = {2, 0.5, 0.5, 1}; for (int i = 0; i < m; i++) { double a = 2 * M_PI * i / m + 0.1 * pat; q.G[2 * i] = cos(a); q.G[2 * i + 1] = sin(a); act.push_back(pat && (i == pat % m || (pat > 2 && m > 4 && i == (pat + 1) % m))); } x = {0.5, -0.25}; break; }
    case 11: { dim(1, N, 0); q.P = {1}; for (int i = 0; i < N; i++) { q.G[i] = 1 + i % 3; act.push_back(pat && i == pat % N); } x = {1}; break; }
    case 12: { int n = N + 1, m = N; dim(n, m, 0); for (int i = 0; i < n; i++) { q.P[(size_t)i * n + i] = 1; x.push_back(xv(i)); if (i < m) { q.G[(size_t)i * n + i] = 1; q.G[(size_t)i * n + i + 1] = -1; act.push_back(st(i) == 1); } } break; }
    case 13: { int n = N, m = 2 * N; dim(n, m, 0); for (int i = 0; i < n; i++) { bool fl = i % 2; if (!fl) q.P[(size_t)i * n + i] = 1; q.G[(size_t)(2 * i) * n + i] = 1; q.G[(size_t)(2 * i + 1) * n + i] = -1; int s = fl ? 1 + (i / 2 + pat) % 2 : st(i); act.push_back(s == 1); act.push_back(s == 2); x.push_back(xv(i)); } break; }
    case 14: { int n = N + 2, p = (N + 2) / 3, m = 2 * n; dim(n, m, p); for (int i = 0; i < n; i++) { q.P[(size_t)i * n + i] = 2; q.G[(size_t)(2 * i) * n + i] = 1; q.G[(size_t)(2 * i + 1) * n + i] = -1; bool basic = i < 2 * p; int s = basic ? 0 : st(i); act.push_back(s == 1); act.push_back(s == 2); x.push_back(xv(i)); }
        for (int k = 0; k < p; k++) { for (int i = 0; i < n; i++) q.A[(size_t)k * n + i] = (i + k * 3 + pat) % 4 == 0 ? 0.25 : 0; q.A[(size_t)k * n + k] += 4; y.push_back(k % 3 - 1); } break; }
    case 15: { int n = N + 1, m = 2 * N + 2; dim(n, m, 0); for (int i = 0; i < n; i++) { if (i % 3 == 0) q.P[(size_t)i * n + i] = 2; if (i + 3 < n && i % 3 == 0) q.P[(size_t)i * n + i + 3] = q.P[(size_t)(i + 3) * n + i] = -0.5; q.G[(size_t)(2 * i) * n + i] = 1; q.G[(size_t)(2 * i + 1) * n + i] = -1; if (i + 1 < n) q.G[(size_t)(2 * i + 1) * n + i + 1] = i % 3 == 0 ? 0.5 : 0; int s = i % 3 == 0 ? st(i) : 1; act.push_back(s == 1); act.push_back(s == 2); x.push_back(xv(i)); } break; }
    case 16: { int n = N + 1, p = n / 2; dim(n, 0, p); for (int i = 0; i < n; i++) { q.P[(size_t)i * n + i] = 2.5; if (i + 1 < n) q.P[(size_t)i * n + i + 1] = q.P[(size_t)(i + 1) * n + i] = pat % 2 ? -1 : 0.5; x.push_back(xv(i)); } for (int k = 0; k < p; k++) { q.A[(size_t)k * n + 2 * k] = 1; q.A[(size_t)k * n + 2 * k + 1] = pat % 3 - 1; if (2 * k + 2 < n) q.A[(size_t)k * n + 2 * k + 2] = 0.25; y.push_back(k % 3 - 1); } break; }
    }
    plant(q, x, act, y); return q;
}
// deterministic menu of structured cases
struct SCase { int kind, N, pat; };
inline std::vector<SCase> structured_menu(bool big, int maxdense = 130) {
    std::vector<SCase> L; std::vector<int> sizes; for (int i = 1; i <= (big ? 40 : 20); i++) sizes.push_back(i); for (int i : {24, 31, 32, 33, 40, 48, 63, 64, 65}) if (i > (big ? 40 : 20)) sizes.push_back(i); if (big) for (int i : {80, 100, 101, 128, 129}) sizes.push_back(i);
    for (int N : sizes) for (int k = 0; k < NKIND; k++) { int np = N <= 8 ? 7 : N <= 24 ? 4 : 2; if (big) np += 3; if (N > 33 && (k == 3 || k == 6)) np = 1; for (int p = 0; p < np; p++) L.push_back({k, N, p}); }
    auto has = [&](int N) { return std::find(sizes.begin(), sizes.end(), N) != sizes.end(); };
    for (int N = 21; N <= 70; N++) if (!has(N)) for (int k : {1, 5, 7, 11, 12, 14}) L.push_back({k, N, 1}); // every size, so that no remainder of a blocked loop is left out
    for (int N : {300, 520}) for (int k : {1, 7, 12}) L.push_back({k, N, 1}); L.push_back({3, 90, 1});
    for (int p : {0, 1, 3}) for (int N : {120, 150, 200}) for (int k : {0, 1, 4, 5, 7, 10, 12}) if (N <= maxdense * 2 || k == 7) L.push_back({k, N, p});
    return L;
}

// every count of inequality rows, of variables and of equality rows in turn, far beyond the structured menu; with the neighbours of powers of two
inline std::vector<SCase> sweep_menu(bool big) {
    std::vector<SCase> L; auto edges = [&](int k, int top) { for (int b = 128; b <= top; b *= 2) for (int d = -1; d <= 1; d++) L.push_back({k, b + d, 1}); };
    for (int N = 71; N <= (big ? 2100 : 1030); N++) L.push_back({11, N, 1 + N % 3});
    for (int N = 71; N <= (big ? 600 : 200); N++) L.push_back({1, N, 1 + N % 2});
    for (int N = 71; N <= (big ? 300 : 110); N++) L.push_back({6, N, 1});
    edges(1, big ? 1024 : 512); edges(6, big ? 512 : 256); return L;
}
// cheap cases that stay in every menu whatever its bound on the size
inline bool cheap(const SCase &s) { return s.pat == 1 && (s.kind == 1 || s.kind == 7 || s.kind == 11 || s.kind == 12 || (s.kind == 3 && s.N == 90)); }

// the same problem in other units: objective times o, variables times v, rows of G and A times r
inline Prob rescale(const Prob &q, double o, double v, double r) { Prob t = q; for (auto &e : t.P) e *= o / (v * v); for (auto &e : t.c) e *= o / v; for (auto &e : t.G) e *= r / v; for (auto &e : t.A) e *= r / v; for (auto &e : t.h) e *= r; for (auto &e : t.b) e *= r; for (auto &e : t.xs) e *= v; t.fs *= o; char b[80]; snprintf(b, 80, "(objective x%g, variables x%g, rows x%g)", o, v, r); t.tag += b; return t; }
// one entry of the data replaced by a special value (P stays symmetric)
inline const std::vector<double> &special_values() { static const std::vector<double> v = {1e30, -1e30, INFINITY, -INFINITY, NAN, -0.0, 4.9e-324, 1e-300, 1e-12, 1e15, -1e15, 1e300, -1.7976931348623157e308, 0.0}; return v; }
inline long special_count(const Prob &q) { return (long)(q.P.size() + q.c.size() + q.G.size() + q.h.size() + q.A.size() + q.b.size()) * (long)special_values().size(); }
inline Prob special(const Prob &q, long k) {
    Prob t = q; long S = (long)special_values().size(); double v = special_values()[k % S]; k /= S; const char *nm = "PcGhAb"; V *a[] = {&t.P, &t.c, &t.G, &t.h, &t.A, &t.b};
    for (int w = 0; w < 6; w++) { if (k >= (long)a[w]->size()) { k -= (long)a[w]->size(); continue; } (*a[w])[k] = v; if (w == 0) t.P[(k % q.n) * q.n + k / q.n] = v; char b[60]; snprintf(b, 60, " (%c[%ld]=%g)", nm[w], k, v); t.tag += b; break; }
    return t;
}
inline std::vector<std::pair<Prob, long>> special_menu(const std::vector<Prob> &C, int maxn) { std::vector<std::pair<Prob, long>> L; for (auto &q : C) if (q.n <= maxn) for (long k = 0; k < special_count(q); k++) L.push_back({q, k}); return L; }
