// Exact (rational) oracle for tiny QPs: feasibility, Slater, boundedness, dual
// interior, optimum by active-set enumeration.  Independent of the code under test.
#pragma once
#include <vector>
#include <cstdlib>
#include <cstdio>
#include <cstdint>
#include <cmath>
typedef __int128 i128;
struct Q {
    i128 n, d;
    Q(long long a = 0) : n(a), d(1) {}
    Q(i128 a, i128 b) { norm(a, b); }
    static i128 g(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
    void norm(i128 a, i128 b) { if (b < 0) { a = -a; b = -b; } i128 t = g(a, b); if (t > 1) { a /= t; b /= t; } n = a; d = b;
        i128 lim = ((i128)1) << 60; if (n > lim || n < -lim || d > lim) { fprintf(stderr, "exact oracle overflow\n"); abort(); } }
    Q operator+(const Q &o) const { if (d == 1 && o.d == 1) { Q r; r.norm(n + o.n, 1); return r; } return Q(n * o.d + o.n * d, d * o.d); }
    Q operator-(const Q &o) const { return Q(n * o.d - o.n * d, d * o.d); }
    Q operator*(const Q &o) const { return Q(n * o.n, d * o.d); }
    Q operator/(const Q &o) const { return Q(n * o.d, d * o.n); }
    bool operator==(const Q &o) const { return n == o.n && d == o.d; }
    bool operator!=(const Q &o) const { return !(*this == o); }
    bool operator<(const Q &o) const { return n * o.d < o.n * d; }
    bool operator<=(const Q &o) const { return n * o.d <= o.n * d; }
    int sgn() const { return n > 0 ? 1 : n < 0 ? -1 : 0; }
    double dbl() const { return (double)n / (double)d; }
};
typedef std::vector<Q> QV;
// one linear constraint  a.x (<= | < ) r
struct LC { QV a; Q r; bool strict; };
// Fourier-Motzkin: is { eqs: a.x = r ; ineqs } nonempty?
inline bool fm_feasible(int nv, std::vector<LC> eq, std::vector<LC> in) {
    std::vector<char> gone(nv, 0);
    for (size_t e = 0; e < eq.size(); e++) {
        int piv = -1;
        for (int j = 0; j < nv; j++) if (eq[e].a[j].sgn()) { piv = j; break; }
        if (piv < 0) { if (eq[e].r.sgn()) return false; continue; }
        auto elim = [&](LC &c) {
            if (!c.a[piv].sgn()) return;
            Q f = c.a[piv] / eq[e].a[piv];
            for (int j = 0; j < nv; j++) c.a[j] = c.a[j] - f * eq[e].a[j];
            c.r = c.r - f * eq[e].r;
        };
        for (size_t k = e + 1; k < eq.size(); k++) elim(eq[k]);
        for (auto &c : in) elim(c);
        gone[piv] = 1;
    }
    for (int v = 0; v < nv; v++) {
        if (gone[v]) continue;
        std::vector<LC> pos, neg, out;
        for (auto &c : in) { int s = c.a[v].sgn(); (s > 0 ? pos : s < 0 ? neg : out).push_back(c); }
        for (auto &P : pos) for (auto &N : neg) {
            LC c; c.a.resize(nv); Q fp = P.a[v], fn = Q(0) - N.a[v];
            for (int j = 0; j < nv; j++) c.a[j] = P.a[j] / fp + N.a[j] / fn;
            c.r = P.r / fp + N.r / fn; c.strict = P.strict || N.strict; out.push_back(c);
        }
        // drop trivial / check contradictions early, dedupe normalised
        std::vector<LC> keep;
        for (auto &c : out) {
            bool z = true; Q s(0);
            for (int j = 0; j < nv; j++) if (c.a[j].sgn()) { z = false; if (!s.sgn()) s = c.a[j].sgn() > 0 ? c.a[j] : Q(0) - c.a[j]; }
            if (z) { if (c.strict ? !(Q(0) < c.r) : !(Q(0) <= c.r)) return false; continue; }
            for (int j = 0; j < nv; j++) c.a[j] = c.a[j] / s;
            c.r = c.r / s;
            bool dup = false;
            for (auto &k : keep) { bool same = true; for (int j = 0; j < nv && same; j++) same = k.a[j] == c.a[j];
                if (same) { if (c.r < k.r || (c.r == k.r && c.strict)) { k.r = c.r; k.strict = c.strict; } dup = true; break; } }
            if (!dup) keep.push_back(c);
        }
        in.swap(keep);
    }
    for (auto &c : in) { bool z = true; for (auto &q : c.a) if (q.sgn()) z = false; if (z && (c.strict ? !(Q(0) < c.r) : !(Q(0) <= c.r))) return false; }
    return true;
}
inline int q_rank(std::vector<QV> M) {
    int r = 0; if (M.empty()) return 0; int nc = (int)M[0].size();
    for (int c = 0; c < nc && r < (int)M.size(); c++) {
        int p = -1; for (int i = r; i < (int)M.size(); i++) if (M[i][c].sgn()) { p = i; break; }
        if (p < 0) continue; std::swap(M[p], M[r]);
        for (int i = r + 1; i < (int)M.size(); i++) if (M[i][c].sgn()) { Q f = M[i][c] / M[r][c]; for (int j = c; j < nc; j++) M[i][j] = M[i][j] - f * M[r][j]; }
        r++;
    }
    return r;
}
// solve square system; false if singular
inline bool q_solve(std::vector<QV> M, QV rhs, QV &x) {
    int N = (int)rhs.size();
    for (int c = 0; c < N; c++) {
        int p = -1; for (int i = c; i < N; i++) if (M[i][c].sgn()) { p = i; break; }
        if (p < 0) return false; std::swap(M[p], M[c]); std::swap(rhs[p], rhs[c]);
        for (int i = 0; i < N; i++) if (i != c && M[i][c].sgn()) { Q f = M[i][c] / M[c][c]; for (int j = c; j < N; j++) M[i][j] = M[i][j] - f * M[c][j]; rhs[i] = rhs[i] - f * rhs[c]; }
    }
    x.resize(N); for (int i = 0; i < N; i++) x[i] = rhs[i] / M[i][i];
    return true;
}
struct IntQP { int n, m, p; std::vector<int> P, G, A, c, h, b; }; // P n*n, G m*n, A p*n all ROW major
struct Exact {
    bool psd = false, feasible = false, slater = false, unbounded = false, dualstrict = false, fullrank = false, arank = false;
    bool solved = false, unique = false; QV x; Q f;
    bool wellposed() const { return psd && feasible && slater && !unbounded && dualstrict && fullrank && arank; }
};
inline bool int_psd(int n, const std::vector<int> &P) { // all principal minors >= 0
    for (int mask = 1; mask < (1 << n); mask++) {
        std::vector<int> id; for (int i = 0; i < n; i++) if (mask >> i & 1) id.push_back(i);
        std::vector<QV> M; for (int i : id) { QV r; for (int j : id) r.push_back(Q(P[i * n + j])); M.push_back(r); }
        Q det(1); int N = (int)id.size(); bool zero = false;
        for (int c = 0; c < N && !zero; c++) { int p = -1; for (int i = c; i < N; i++) if (M[i][c].sgn()) { p = i; break; }
            if (p < 0) { zero = true; break; } if (p != c) { std::swap(M[p], M[c]); det = Q(0) - det; } det = det * M[c][c];
            for (int i = c + 1; i < N; i++) { Q f = M[i][c] / M[c][c]; for (int j = c; j < N; j++) M[i][j] = M[i][j] - f * M[c][j]; } }
        if (!zero && det.sgn() < 0) return false;
    }
    return true;
}
inline Exact analyse(const IntQP &q, bool want_opt = true) {
    Exact E; int n = q.n, m = q.m, p = q.p;
    E.psd = int_psd(n, q.P);
    auto row = [&](const std::vector<int> &M, int i) { QV r(n); for (int j = 0; j < n; j++) r[j] = Q(M[i * n + j]); return r; };
    std::vector<LC> eq, in, ins;
    for (int i = 0; i < p; i++) eq.push_back({row(q.A, i), Q(q.b[i]), false});
    for (int i = 0; i < m; i++) { in.push_back({row(q.G, i), Q(q.h[i]), false}); ins.push_back({row(q.G, i), Q(q.h[i]), true}); }
    E.feasible = fm_feasible(n, eq, in);
    E.slater = E.feasible && fm_feasible(n, eq, ins);
    std::vector<LC> deq, din; QV c(n); for (int j = 0; j < n; j++) c[j] = Q(q.c[j]);
    for (int i = 0; i < n; i++) deq.push_back({row(q.P, i), Q(0), false});
    for (int i = 0; i < p; i++) deq.push_back({row(q.A, i), Q(0), false});
    for (int i = 0; i < m; i++) din.push_back({row(q.G, i), Q(0), false});
    auto d1 = din; d1.push_back({c, Q(-1), false});
    bool descent = fm_feasible(n, deq, d1);          // recession direction with c'd<0
    E.unbounded = E.feasible && descent;
    E.dualstrict = !descent;
    for (int i = 0; i < m && E.dualstrict; i++) { auto d2 = din; d2.push_back({c, Q(0), false}); d2.push_back({row(q.G, i), Q(-1), false}); if (fm_feasible(n, deq, d2)) E.dualstrict = false; }
    std::vector<QV> S, Ar; for (int i = 0; i < n; i++) S.push_back(row(q.P, i)); for (int i = 0; i < p; i++) { S.push_back(row(q.A, i)); Ar.push_back(row(q.A, i)); } for (int i = 0; i < m; i++) S.push_back(row(q.G, i));
    E.fullrank = q_rank(S) == n; E.arank = q_rank(Ar) == p;
    if (want_opt && E.wellposed()) {
        for (int W = 0; W < (1 << m) && !E.solved; W++) {
            std::vector<int> w; for (int i = 0; i < m; i++) if (W >> i & 1) w.push_back(i);
            int k = (int)w.size(); if (k > n - p) continue;
            int N = n + p + k; std::vector<QV> M(N, QV(N)); QV r(N), s;
            for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) M[i][j] = Q(q.P[i * n + j]); r[i] = Q(-q.c[i]); }
            for (int i = 0; i < p; i++) { for (int j = 0; j < n; j++) M[n + i][j] = M[j][n + i] = Q(q.A[i * n + j]); r[n + i] = Q(q.b[i]); }
            for (int i = 0; i < k; i++) { for (int j = 0; j < n; j++) M[n + p + i][j] = M[j][n + p + i] = Q(q.G[w[i] * n + j]); r[n + p + i] = Q(q.h[w[i]]); }
            if (!q_solve(M, r, s)) continue;
            bool ok = true; for (int i = 0; i < k && ok; i++) ok = s[n + p + i].sgn() >= 0;
            for (int i = 0; i < m && ok; i++) { Q v(0); for (int j = 0; j < n; j++) v = v + Q(q.G[i * n + j]) * s[j]; ok = v <= Q(q.h[i]); }
            if (!ok) continue;
            E.solved = true; E.x.assign(s.begin(), s.begin() + n);
            E.f = Q(0); for (int i = 0; i < n; i++) { E.f = E.f + c[i] * E.x[i]; for (int j = 0; j < n; j++) E.f = E.f + Q(q.P[i * n + j]) * E.x[i] * E.x[j] / Q(2); }
        }
        if (E.solved) { // unique: no d != 0 with Pd=0, Ad=0, c'd=0, G_act d <= 0
            auto ueq = deq; ueq.push_back({c, Q(0), false}); std::vector<LC> ui;
            for (int i = 0; i < m; i++) { Q v(0); for (int j = 0; j < n; j++) v = v + Q(q.G[i * n + j]) * E.x[j]; if (v == Q(q.h[i])) ui.push_back({row(q.G, i), Q(0), false}); }
            E.unique = true;
            for (int j = 0; j < n && E.unique; j++) for (int sg = -1; sg <= 1; sg += 2) { auto u = ui; QV a(n); a[j] = Q(-sg); u.push_back({a, Q(-1), false}); if (fm_feasible(n, ueq, u)) E.unique = false; }
        }
    }
    return E;
}
