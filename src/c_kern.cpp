// C10: every sparse kernel against its dense definition, over all small patterns (exact integer data, so results must be exact)
#include "prob.hpp"
using namespace core;
extern "C" { void updatekktmatrix(smat *, qp_real *, qp_real *, qp_real *, qp_real *, qp_real, qp_real, qp_int, qp_int, qp_int, qp_int) __attribute__((weak)); void computeresiduals(QP *) __attribute__((weak));
void formkktmatrix_U(smat *, smat *, smat *, smat *) __attribute__((weak)); void Transpose_Row_Count(qp_int, qp_int, qp_int *, qp_int *, qp_int *, qp_int *) __attribute__((weak)); qp_real norm(qp_real *, qp_int) __attribute__((weak)); }
template <class T> struct Buf { T *p; size_t n; Buf(size_t k, T v) : p((T *)malloc(k * sizeof(T))), n(k) { for (size_t i = 0; i < k; i++) p[i] = v; } Buf(const std::vector<T> &v) : p((T *)malloc(v.size() * sizeof(T))), n(v.size()) { for (size_t i = 0; i < n; i++) p[i] = v[i]; } ~Buf() { free(p); } Buf(const Buf &) = delete; T &operator[](size_t i) { return p[i]; } bool is(const std::vector<T> &v) const { return v.size() == n && (n == 0 || !memcmp(p, v.data(), n * sizeof(T))); } };
typedef Buf<double> BD; typedef Buf<qp_int> BI;
static double val(int i, int j) { static const int v[6][6] = {{2, -3, 5, -7, 11, 13}, {-17, 19, 23, -29, 31, -37}, {41, 43, -47, 53, -59, 61}, {67, -71, 73, 79, 83, -89}, {97, 101, 103, -107, 109, 113}, {-127, 131, 137, 139, -149, 151}}; return v[i % 6][j % 6]; }
// state per entry: 0 absent, 1 stored value, 2 stored zero; ord: 0 ascending, 1 descending, 2 rotated
struct SM { int r, c; std::vector<int> st; V D; std::vector<qp_int> jc, ir; V pr; };
static SM build(int r, int c, const std::vector<int> &st, int ord, int off = 0) {
    SM s; s.r = r; s.c = c; s.st = st; s.D.assign((size_t)r * c, 0); s.jc.push_back(0);
    for (int j = 0; j < c; j++) { std::vector<int> rows; for (int i = 0; i < r; i++) if (st[i * c + j]) rows.push_back(i); if (ord == 1) std::reverse(rows.begin(), rows.end()); if (ord == 2 && rows.size() > 1) std::rotate(rows.begin(), rows.begin() + 1, rows.end());
        for (int i : rows) { double v = st[i * c + j] == 1 ? val(i + off, j) : 0; s.D[i * c + j] = v; s.ir.push_back(i); s.pr.push_back(v); } s.jc.push_back((qp_int)s.ir.size()); }
    return s;
}
// larger patterns: 0 diagonal, 1 band, 2 dense first row, 3 dense last column, 4 last entry only, 5 arithmetic, 6 full (when small), 7 empty middle columns and rows; 8.. symmetric (square): 9 band + arrow
static SM buildL(int r, int c, int pat, int ord, int off) {
    std::vector<int> st((size_t)r * c, 0); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { bool on = false; switch (pat) { case 0: on = i == j; break; case 1: on = abs(i - j) <= 2; break; case 2: on = i == 0 || i == j; break; case 3: on = j == c - 1 || (i + j) % 11 == 0; break; case 4: on = i == r - 1 && j == c - 1; break; case 5: on = (i * 3 + j * 5) % 7 == 0; break; case 6: on = (long)r * c <= 10000 || (i + j) % 2; break; case 7: on = (i < 2 || i >= r - 2) && (j < 2 || j >= c - 2); break; case 9: on = abs(i - j) <= 1 || i == 0 || j == 0 || i + j == c - 1; break; } if (on) st[(size_t)i * c + j] = 1; }
    SM s = build(r, c, st, ord); auto vl = [&](int i, int j) { if (pat == 9) { int a = std::min(i, j), b = std::max(i, j); i = a; j = b; } int v = (i * 37 + j * 101 + off * 13) % 1009 - 504; return (double)(v ? v : 505); };
    for (int j = 0; j < c; j++) for (qp_int q = s.jc[j]; q < s.jc[j + 1]; q++) s.D[(size_t)s.ir[q] * c + j] = s.pr[q] = vl((int)s.ir[q], j); return s;
}
static std::string st_s(const SM &s) { if (s.ir.size() > 200) return std::to_string(s.r) + "x" + std::to_string(s.c) + " with " + std::to_string(s.ir.size()) + " entries, column pointers " + std::to_string(s.jc[s.c > 0]) + ",.."; std::string o = std::to_string(s.r) + "x" + std::to_string(s.c) + " jc=["; for (auto v : s.jc) o += std::to_string(v) + ","; o += "] ir=["; for (auto v : s.ir) o += std::to_string(v) + ","; return o + "] pr=" + vs(s.pr); }
// expand a stored matrix; error text when the structure is inconsistent
static std::string expand(const qp_int *jc, const qp_int *ir, const double *pr, int r, int c, long nnz, V &D, std::vector<int> &stored) {
    D.assign((size_t)r * c, 0); stored.assign((size_t)r * c, 0); if (jc[0] != 0) return "column pointers do not start at 0";
    for (int j = 0; j < c; j++) if (jc[j + 1] < jc[j] || jc[j + 1] > nnz) return "column pointers inconsistent: jc[" + std::to_string(j + 1) + "]=" + std::to_string(jc[j + 1]) + " of nnz " + std::to_string(nnz);
    if (jc[c] != nnz) return "last column pointer " + std::to_string(jc[c]) + " is not the number of entries " + std::to_string(nnz);
    for (int j = 0; j < c; j++) for (qp_int k = jc[j]; k < jc[j + 1]; k++) { if (ir[k] < 0 || ir[k] >= r) return "row index " + std::to_string(ir[k]) + " out of range"; D[ir[k] * c + j] += pr[k]; stored[ir[k] * c + j]++; }
    return "";
}
static void ops(const SM &s) {
    count("evaluations"); if (!s.ir.empty()) count("nontrivial");
    BI jc(s.jc), ir(s.ir); BD pr(s.pr); smat A; SparseMatrixSetup(s.r, s.c, (qp_int)s.ir.size(), jc.p, ir.p, pr.p, &A);
    if (A.m != s.r || A.n != s.c || A.nnz != (qp_int)s.ir.size() || A.jc != jc.p || A.ir != ir.p || A.pr != pr.p) violation("matrix set-up does not keep shape and arrays | %s", st_s(s).c_str());
    BI tj(s.r + 1, -99), ti(s.ir.size(), -99); BD tp(s.ir.size(), NAN); smat T; SparseMatrixSetup(s.c, s.r, A.nnz, tj.p, ti.p, tp.p, &T); SparseMatrixTranspose(&A, &T); count("transitions");
    V D; std::vector<int> st; std::string e = expand(tj.p, ti.p, tp.p, s.c, s.r, A.nnz, D, st);
    if (!e.empty()) violation("transpose: %s | %s", e.c_str(), st_s(s).c_str());
    else for (int i = 0; i < s.r; i++) for (int j = 0; j < s.c; j++) if (D[j * s.r + i] != s.D[i * s.c + j] || st[j * s.r + i] != (s.st[i * s.c + j] ? 1 : 0)) violation("transpose entry (%d,%d) is %g (stored %d times) instead of %g | %s", j, i, D[j * s.r + i], st[j * s.r + i], s.D[i * s.c + j], st_s(s).c_str());
    if (Transpose_Row_Count) { // the pattern of the transpose alone
        BI cj(s.r + 1, -99), ci(s.ir.size(), -99); Transpose_Row_Count(s.r, s.c, ir.p, jc.p, ci.p, cj.p); count("transitions"); V one(s.ir.size(), 1.0); e = expand(cj.p, ci.p, one.data(), s.c, s.r, A.nnz, D, st);
        if (!e.empty()) violation("transposed pattern: %s | %s", e.c_str(), st_s(s).c_str());
        else for (int i = 0; i < s.r; i++) { for (int j = 0; j < s.c; j++) if (st[j * s.r + i] != (s.st[i * s.c + j] ? 1 : 0)) violation("transposed pattern: entry (%d,%d) stored %d times | %s", j, i, st[j * s.r + i], st_s(s).c_str()); for (qp_int q = cj[i]; q + 1 < cj[i + 1]; q++) if (ci[q] >= ci[q + 1]) violation("transposed pattern: column %d not ascending | %s", i, st_s(s).c_str()); }
    }
    for (int w = 0; w < 5; w++) { // vectors: generic, unit-like, with zeros, tiny, huge
        V xv(s.c), uv(s.r); const double sc = w == 3 ? 0x1p-70 : w == 4 ? 0x1p70 : 1; for (int j = 0; j < s.c; j++) xv[j] = w == 0 || w > 2 ? 3 * j - 4 : w == 1 ? (j == (int)s.ir.size() % std::max(1, s.c)) : (j % 2 ? 0 : 1 << j % 6); for (int i = 0; i < s.r; i++) uv[i] = w == 0 || w > 2 ? 5 - 2 * i : w == 1 ? (i == (int)s.ir.size() % std::max(1, s.r)) : (i % 2 ? 1 << i % 6 : 0); for (auto &e : xv) e *= sc; for (auto &e : uv) e *= sc;
        for (int start = 0; start < 2; start++) {
            BD x(xv), y(s.r, start ? NAN : 7.0 * sc); SparseMatrixMultiply(&A, x.p, y.p, start); count("transitions");
            for (int i = 0; i < s.r; i++) { double v = start ? 0 : 7 * sc; for (int j = 0; j < s.c; j++) v -= s.D[i * s.c + j] * xv[j]; if (!(y[i] == v)) violation("product (start=%d) row %d is %g instead of %g, x=%s | %s", start, i, y[i], v, vs(xv).c_str(), st_s(s).c_str()); }
            BD u(uv), t(s.c, start ? NAN : -3.0 * sc); SparseMatrixTransMultiply(&A, u.p, t.p, start); count("transitions");
            for (int j = 0; j < s.c; j++) { double v = start ? 0 : -3 * sc; for (int i = 0; i < s.r; i++) v -= s.D[i * s.c + j] * uv[i]; if (!(t[j] == v)) violation("transposed product (start=%d) entry %d is %g instead of %g, x=%s | %s", start, j, t[j], v, vs(uv).c_str(), st_s(s).c_str()); }
            if (!x.is(xv) || !u.is(uv)) violation("a product modified its input vector | %s", st_s(s).c_str());
        }
        if (s.r == s.c && s.c > 0) { BD x(xv), c(uv), tmp(s.r, NAN); double f = obj_value(&A, c.p, x.p, tmp.p), g = 0; count("transitions"); for (int i = 0; i < s.r; i++) { g += uv[i] * xv[i]; for (int j = 0; j < s.c; j++) g += 0.5 * xv[i] * s.D[i * s.c + j] * xv[j]; } if (f != g) violation("objective value %.17g instead of %.17g, x=%s c=%s | %s", f, g, vs(xv).c_str(), vs(uv).c_str(), st_s(s).c_str()); }
    }
    if (!jc.is(s.jc) || !ir.is(s.ir) || !pr.is(s.pr)) violation("a kernel modified its input matrix | %s", st_s(s).c_str());
}
static std::vector<int> digits(long k, int n, int b) { std::vector<int> d(n); for (int i = 0; i < n; i++) { d[i] = (int)(k % b); k /= b; } return d; }
static long ipow(long b, int e) { long r = 1; while (e--) r *= b; return r; }
static void conv(int r, int c, const V &D) { // row-major data
    count("evaluations"); bool nz = false; for (double d : D) nz |= d != 0; if (nz) count("nontrivial");
    V C(D.size()); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) C[(size_t)j * r + i] = D[(size_t)i * c + j];
    for (int w = 0; w < 2; w++) {
        BD in(w ? D : C); smat A; memset((void *)&A, 0x5a, sizeof A); if (w) densetosparse_ROWMAJOR(r, c, in.p, &A); else densetosparse(r, c, in.p, &A); count("transitions");
        V E; std::vector<int> st; std::string e = A.m != r || A.n != c ? "shape fields wrong" : expand(A.jc, A.ir, A.pr, r, c, A.nnz, E, st); const char *nm = w ? "row-major" : "column-major";
        if (!e.empty()) violation("%s conversion: %s | %dx%d %s", nm, e.c_str(), r, c, vs(D).c_str());
        else for (size_t k = 0; k < D.size(); k++) if (!(E[k] == D[k]) || st[k] > 1 || (D[k] != 0 && !st[k])) violation("%s conversion: entry %zu is %g stored %d times instead of %g | %dx%d %s", nm, k, E[k], st[k], D[k], r, c, vs(D).c_str());
        if (!in.is(w ? D : C)) violation("%s conversion modified its input", nm); free(A.jc); free(A.ir); free(A.pr);
    }
}
// expected dense KKT matrix and stored-entry map
static void chk_kkt(const smat *K, const SM &P, const SM &G, const SM &A, const V *diag, const char *how, const std::string &ctx) {
    int n = P.c, m = G.r, p = A.r, N = n + m + p; V D; std::vector<int> st; V X((size_t)N * N, 0);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) X[i * N + j] = P.D[i * n + j];
    for (int i = 0; i < p; i++) for (int j = 0; j < n; j++) X[(n + i) * N + j] = X[j * N + n + i] = A.D[i * n + j];
    for (int i = 0; i < m; i++) { for (int j = 0; j < n; j++) X[(n + p + i) * N + j] = X[j * N + n + p + i] = G.D[i * n + j]; X[(n + p + i) * N + n + p + i] = diag ? (*diag)[i] : -1; }
    long nnz = (long)P.ir.size() + 2 * (long)(G.ir.size() + A.ir.size()) + m; std::string e = expand(K->jc, K->ir, K->pr, N, N, K->jc[N] <= nnz + N ? K->jc[N] : -1, D, st);
    if (!e.empty()) { violation("%s: %s | %s", how, e.c_str(), ctx.c_str()); return; }
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (D[i * N + j] != X[i * N + j] || st[i * N + j] > 1) { violation("%s: KKT entry (%d,%d) is %g (stored %d times) instead of %g | %s", how, i, j, D[i * N + j], st[i * N + j], X[i * N + j], ctx.c_str()); return; }
}
static void kkt_check(const SM &P, const SM &G, const SM &A, bool viasetup) {
    int n = P.c, m = G.r, p = A.r;
    std::string ctx = "P " + st_s(P) + " G " + st_s(G) + " A " + st_s(A); count("evaluations"); count("nontrivial");
    auto T = [&](const SM &s) { std::vector<int> st(s.r * s.c); for (int i = 0; i < s.r; i++) for (int j = 0; j < s.c; j++) st[j * s.r + i] = s.st[i * s.c + j]; SM o = build(s.c, s.r, st, 0); o.D.assign(s.D.size(), 0); for (int i = 0; i < s.r; i++) for (int j = 0; j < s.c; j++) o.D[j * s.r + i] = s.D[i * s.c + j]; for (int j = 0; j < s.r; j++) for (qp_int q = o.jc[j]; q < o.jc[j + 1]; q++) o.pr[q] = o.D[o.ir[q] * s.r + j]; return o; };
    SM Gt = T(G), At = T(A); int N = n + m + p; size_t nnz = P.ir.size() + 2 * (G.ir.size() + A.ir.size()) + m;
    struct B { BI jc, ir; BD pr; smat s; B(const SM &m) : jc(m.jc), ir(m.ir), pr(m.pr) { SparseMatrixSetup(m.r, m.c, (qp_int)m.ir.size(), jc.p, ir.p, pr.p, &s); } bool is(const SM &m) { return jc.is(m.jc) && ir.is(m.ir) && pr.is(m.pr); } };
    B bP(P), bG(G), bA(A), bGt(Gt), bAt(At); BI kj(N + 1, -99), ki(nnz, -99); BD kp(nnz, NAN); smat K; SparseMatrixSetup(N, N, (qp_int)nnz, kj.p, ki.p, kp.p, &K);
    formkktmatrix_full(&bP.s, &bG.s, p ? &bA.s : nullptr, &bGt.s, p ? &bAt.s : nullptr, &K); count("transitions"); chk_kkt(&K, P, G, A, nullptr, "assembly", ctx);
    if (!bP.is(P) || !bG.is(G) || !bA.is(A) || !bGt.is(Gt) || !bAt.is(At)) violation("assembly modified its input matrices | %s", ctx.c_str());
    if (updatekktmatrix) for (int w = 0; w < 3; w++) { V s(m), z(m), dg2(m); for (int i = 0; i < m; i++) { s[i] = w == 1 ? ldexp(3, -40 - i) : 3 + i; z[i] = w == 2 ? ldexp(1, -40 - i % 8) : ldexp(1, i % 30); dg2[i] = -s[i] / z[i]; } BD bs(s), bz(z), ds(m, 1.0), dz(m, 1.0); updatekktmatrix(&K, bs.p, bz.p, ds.p, dz.p, 1, 1, m, n, p, 0); count("transitions"); chk_kkt(&K, P, G, A, &dg2, "diagonal update", ctx); }
    if (formkktmatrix_U && !p) { // upper triangle [P G'; . -I]
        BI uj(N + 1, -99), ui(nnz, -99); BD up(nnz, NAN); smat U; SparseMatrixSetup(N, N, (qp_int)nnz, uj.p, ui.p, up.p, &U); formkktmatrix_U(&bP.s, &bG.s, &bGt.s, &U); count("transitions");
        V D; std::vector<int> st; long want = G.ir.size() + m; for (int j = 0; j < n; j++) for (qp_int q = P.jc[j]; q < P.jc[j + 1]; q++) want += P.ir[q] <= j; std::string e = expand(uj.p, ui.p, up.p, N, N, want, D, st);
        if (!e.empty()) violation("upper assembly: %s | %s", e.c_str(), ctx.c_str());
        else for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double v = i > j ? 0 : j < n ? P.D[i * n + j] : i < n ? G.D[(j - n) * n + i] : i == j ? -1 : 0; if (D[i * N + j] != v || st[i * N + j] > 1) { violation("upper assembly: entry (%d,%d) is %g (stored %d times) instead of %g | %s", i, j, D[i * N + j], st[i * N + j], v, ctx.c_str()); break; } }
        if (!bP.is(P) || !bG.is(G) || !bGt.is(Gt)) violation("upper assembly modified its input matrices | %s", ctx.c_str());
    }
    if (viasetup) for (int dense = 0; dense < 3; dense++) { // the matrices a set-up problem holds
        V c(n, 1), h(m, 1), b(p, 0); QP *q; V Pd = P.D, Gd = G.D, Ad = A.D; BI pj(P.jc), pi(P.ir), gj(G.jc), gi(G.ir), aj(A.jc), ai(A.ir); BD pp(P.pr), gp(G.pr), ap(A.pr);
        auto colm = [](const V &M, int r, int cc) { V o(M.size()); for (int i = 0; i < r; i++) for (int j = 0; j < cc; j++) o[(size_t)j * r + i] = M[(size_t)i * cc + j]; return o; };
        if (dense == 2) { Pd = colm(Pd, n, n); Gd = colm(Gd, m, n); Ad = colm(Ad, p, n); }
        if (dense) q = QP_SETUP_dense(n, m, p, Pd.data(), p ? Ad.data() : nullptr, Gd.data(), c.data(), h.data(), p ? b.data() : nullptr, nullptr, dense == 1 ? 20 : 30);
        else q = QP_SETUP(n, m, p, pj.p, pi.p, pp.p, p ? aj.p : nullptr, p ? ai.p : nullptr, p ? ap.p : nullptr, gj.p, gi.p, gp.p, c.data(), h.data(), p ? b.data() : nullptr, 0, nullptr);
        const char *how = dense == 0 ? "sparse set-up" : dense == 1 ? "row-major set-up" : "column-major set-up"; count("transitions");
        chk_kkt(q->kkt->kktmatrix, P, G, A, nullptr, how, ctx);
        auto same = [&](const smat *s, const SM &m, const char *nm) { V D; std::vector<int> st; std::string e = s->m != m.r || s->n != m.c ? "shape wrong" : expand(s->jc, s->ir, s->pr, m.r, m.c, s->jc[m.c], D, st); if (!e.empty()) violation("%s: %s: %s | %s", how, nm, e.c_str(), ctx.c_str()); else for (size_t k = 0; k < D.size(); k++) if (D[k] != m.D[k]) { violation("%s: %s entry %zu is %g instead of %g | %s", how, nm, k, D[k], m.D[k], ctx.c_str()); break; } };
        same(q->P, P, "P"); same(q->G, G, "G"); same(q->Gt, Gt, "G'"); if (p) { same(q->A, A, "A"); same(q->At, At, "A'"); }
        if (dense) QP_CLEANUP_dense(q); else QP_CLEANUP(q);
    }
}
static void kkt_case(int n, int m, int p, long k, int pst, int ord, bool viasetup) {
    int np = n * (n + 1) / 2; auto dp = digits(k % ipow(pst, np), np, pst); k /= ipow(pst, np); auto dg = digits(k % ipow(2, m * n), m * n, 2); k /= ipow(2, m * n); auto da = digits(k, p * n, 2);
    std::vector<int> sp(n * n); int t = 0; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { sp[i * n + j] = sp[j * n + i] = dp[t++]; }
    SM P = build(n, n, sp, ord), G = build(m, n, dg, ord, 1), A = build(p, n, da, ord, 3);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (sp[i * n + j] == 1) { double v = i == j ? 1000 + i : (i + j) % 2 ? 3 : -5; P.D[i * n + j] = v; for (qp_int q = P.jc[j]; q < P.jc[j + 1]; q++) if (P.ir[q] == i) P.pr[q] = v; }
    kkt_check(P, G, A, viasetup);
}
int main(int argc, char **argv) {
    std::vector<Family> F; bool TH = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"); for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "thorough")) TH = true;
    auto M = [&](int r, int c, int b, int nord, long stride = 1) { char nm[40]; snprintf(nm, 40, "matrix-%dx%d-states%d", r, c, b); long tot = ipow(b, r * c); F.push_back({nm, [=](bool) { return (tot + stride - 1) / stride; }, [=](long k) { auto d = digits(k * stride, r * c, b); for (int o = 0; o < nord; o++) { SM s = build(r, c, d, o); if (k == tot / stride / 2 && o == 0) sample(st_s(s)); ops(s); } }, 256}); };
    for (int r = 0; r <= 3; r++) for (int c = 0; c <= 3; c++) M(r, c, 3, 3);
    M(1, 6, 3, 2); M(6, 1, 3, 3); M(4, 2, 3, 3); M(2, 4, 3, 3); M(4, 3, 2, 3); M(3, 4, 2, 3); M(4, 4, 2, 3); M(5, 2, 2, 3); M(2, 5, 2, 3); M(2, 6, 2, 3); M(6, 2, 2, 3); M(5, 3, 2, 2); M(3, 5, 2, 2);
    if (TH) { M(3, 4, 3, 3); M(4, 3, 3, 3); M(5, 4, 2, 3); M(4, 5, 2, 3); M(6, 3, 2, 3); M(3, 6, 2, 3); }
    auto Cv = [&](int r, int c, V al) { char nm[40]; snprintf(nm, 40, "dense-%dx%d-alphabet%zu", r, c, al.size()); int b = (int)al.size(); F.push_back({nm, [=](bool) { return ipow(b, r * c); }, [=](long k) { auto d = digits(k, r * c, b); V D(r * c); for (int i = 0; i < r * c; i++) D[i] = al[d[i]] == 7 ? val(i / std::max(1, c), i % std::max(1, c)) : al[d[i]]; conv(r, c, D); }, 256}); };
    V a4 = {0, -0.0, 4.9406564584124654e-324, 7}, a3 = {0, -0.0, 7}, a2 = {0, 7};
    for (int r = 0; r <= 3; r++) for (int c = 0; c <= 3; c++) Cv(r, c, r * c > 6 ? a3 : a4);
    Cv(1, 6, a4); Cv(6, 1, a4); Cv(4, 3, a2); Cv(3, 4, a2); Cv(2, 6, a2); Cv(6, 2, a2); Cv(4, 4, a2); if (TH) { Cv(4, 3, a3); Cv(3, 4, a3); Cv(4, 5, a2); Cv(5, 4, a2); }
    auto K = [&](int n, int m, int p, int pst, long stride, bool via) { char nm[60]; snprintf(nm, 60, "kkt-n%dm%dp%d-states%d%s", n, m, p, pst, via ? "-setup" : ""); long tot = ipow(pst, n * (n + 1) / 2) * ipow(2, m * n + p * n); F.push_back({nm, [=](bool) { return (tot + stride - 1) / stride; }, [=](long k) { if (k == 0) sample(std::string(nm)); for (int o = 0; o < (via ? 2 : 3); o++) kkt_case(n, m, p, k * stride, pst, o, via); }, 128}); };
    for (int n = 1; n <= 2; n++) for (int m = 1; m <= 3; m++) for (int p = 0; p <= 2; p++) K(n, m, p, 3, 1, false);
    K(3, 1, 1, 3, 1, false); K(3, 2, 0, 3, 1, false); K(3, 2, 1, 3, TH ? 1 : 5, false); K(3, 3, 0, 3, TH ? 1 : 5, false); K(3, 3, 2, 2, TH ? 1 : 23, false); K(4, 2, 1, 2, TH ? 1 : 37, false); if (TH) K(3, 3, 1, 3, 5, false);
    for (int n = 1; n <= 2; n++) for (int m = 1; m <= 2; m++) for (int p = 0; p <= 2; p++) K(n, m, p, 3, 1, true);
    K(3, 2, 1, 2, 1, true); K(3, 3, 0, 2, 1, true); K(3, 3, 1, 2, TH ? 1 : 11, true);
    // vector kernels of an iteration
    F.push_back({"vectors", [](bool) { return ipow(4, 3) * ipow(4, 3); }, [](long k) {
        auto a = digits(k % 64, 3, 4), b = digits(k / 64, 3, 4); static const double S[4] = {1, 2, 4, 0.5}, D[4] = {-2, -1, 0, 4};
        for (int m = 0; m <= 3; m++) for (int w = 0; w < 4; w++) { V s(m), ds(m), z(m), dz(m); for (int i = 0; i < m; i++) { s[i] = S[a[i]]; ds[i] = D[b[i]]; z[i] = S[(a[i] + i + w) % 4]; dz[i] = D[(b[i] + (i + 1) * w) % 4]; }
            count("evaluations"); count("nontrivial"); BD bs(s), bds(ds), bz(z), bdz(dz); char ctx[300]; snprintf(ctx, 300, "s=%s ds=%s z=%s dz=%s", vs(s).c_str(), vs(ds).c_str(), vs(z).c_str(), vs(dz).c_str());
            double ip = 0; for (int i = 0; i < m; i++) ip += s[i] * dz[i]; if (innerproduct(bs.p, bdz.p, m) != ip) violation("inner product | %s", ctx);
            if (m) { double ap = NAN, ad = NAN, ep = INFINITY, ed = INFINITY; for (int i = 0; i < m; i++) { if (ds[i] < 0) ep = std::min(ep, -s[i] / ds[i]); if (dz[i] < 0) ed = std::min(ed, -z[i] / dz[i]); } if (std::isinf(ep)) ep = 1; if (std::isinf(ed)) ed = 1;
                findsteplength(bs.p, bds.p, bz.p, bdz.p, m, &ap, &ad); if (ap != ep || ad != ed) violation("step lengths %g, %g instead of %g, %g | %s", ap, ad, ep, ed, ctx);
                double num = 0, den = 0; for (int i = 0; i < m; i++) { num += (s[i] + 0.5 * ds[i]) * (z[i] + 0.25 * dz[i]); den += s[i] * z[i]; } double rho = formrho(bs.p, bds.p, bz.p, bdz.p, 0.5, 0.25, m); if (!(fabs(rho - num / den) <= 1e-14 * (1 + fabs(num / den)))) violation("complementarity ratio %.17g instead of %.17g | %s", rho, num / den, ctx); }
            V s2(m); for (int i = 0; i < m; i++) s2[i] = s[i] * z[i] * s[i] / z[i]; BD lam(m, NAN), sq(s2); formlambda(lam.p, sq.p, bz.p, m); for (int i = 0; i < m; i++) if (!(fabs(lam[i] - sqrt(s2[i] * z[i])) <= 1e-15 * lam[i])) violation("scaling point | %s", ctx);
            for (int sel = 0; sel < 3; sel++) { BD o(m, NAN); form_ds(o.p, bs.p, bds.p, bdz.p, 0.5, 8, m, sel); for (int i = 0; i < m; i++) { double e = -s[i] * s[i] - (sel == 1 ? ds[i] * dz[i] : 0) + (sel ? 4 : 0); if (o[i] != e) violation("complementarity right-hand side, selector %d: %g instead of %g | %s", sel, o[i], e, ctx); } }
            { BD x(s); updatevariables(x.p, bds.p, 0.25, m); for (int i = 0; i < m; i++) if (x[i] != s[i] + 0.25 * ds[i]) violation("variable update | %s", ctx); }
            { bool neg = false; for (int i = 0; i < m; i++) neg |= s[i] + 2 * ds[i] < 0; if ((checksign(bs.p, bds.p, 2, m) != 0) != neg) violation("sign check | %s", ctx); }
            for (int n = 1; n <= 2; n++) for (int p = 0; p <= 2; p++) { V rx(n), ry(p); for (int i = 0; i < n; i++) rx[i] = 10 + i; for (int i = 0; i < p; i++) ry[i] = 20 + i; BD x(rx), y(ry), o(n + m + p, NAN); updatekktmatrix_b(o.p, x.p, y.p, bs.p, bds.p, bz.p, n, m, p); bool ok = true; for (int i = 0; i < n; i++) ok &= o[i] == rx[i]; for (int i = 0; i < p; i++) ok &= o[n + i] == ry[i]; for (int i = 0; i < m; i++) ok &= o[n + p + i] == s[i] - ds[i] / z[i]; if (!ok) violation("KKT right-hand side for n=%d p=%d | %s", n, p, ctx); }
            if (!bs.is(s) || !bds.is(ds) || !bz.is(z) || !bdz.is(dz)) violation("a vector kernel modified its input | %s", ctx);
        } }, 64});
    // the same at other orders of magnitude (powers of two: everything stays exact)
    F.push_back({"vectors-scaled", [](bool th) { return 7L * 7 * 7 * 7 * (th ? 16 : 4); }, [](long k) {
        static const int E[7] = {-70, -45, -31, 0, 3, 31, 70}; static const double S[4] = {1, 2, 4, 0.5}, D[4] = {-2, -1, 0, 4}; double fs = ldexp(1, E[k % 7]), fds = ldexp(1, E[k / 7 % 7]), fz = ldexp(1, E[k / 49 % 7]), fdz = ldexp(1, E[k / 343 % 7]); int w = (int)(k / 2401);
        for (int m = 1; m <= 4; m++) { V s(m), ds(m), z(m), dz(m); for (int i = 0; i < m; i++) { s[i] = S[(i + w) % 4] * fs; ds[i] = D[(i * 3 + w / 4) % 4] * fds; z[i] = S[(i * 3 + w / 2) % 4] * fz; dz[i] = D[(i + w + 1) % 4] * fdz; }
            count("evaluations"); count("nontrivial"); count("transitions", 6); BD bs(s), bds(ds), bz(z), bdz(dz); char ctx[300]; snprintf(ctx, 300, "s=%s ds=%s z=%s dz=%s", vs(s).c_str(), vs(ds).c_str(), vs(z).c_str(), vs(dz).c_str());
            double ap = NAN, ad = NAN, ep = INFINITY, ed = INFINITY; for (int i = 0; i < m; i++) { if (ds[i] < 0) ep = std::min(ep, -s[i] / ds[i]); if (dz[i] < 0) ed = std::min(ed, -z[i] / dz[i]); }
            findsteplength(bs.p, bds.p, bz.p, bdz.p, m, &ap, &ad); auto okst = [](double a, double e) { return e < 1e9 ? a == e : a >= 1; }; // steps above one are cut to one by the caller
            if (!okst(ap, ep) || !okst(ad, ed)) violation("step lengths %g, %g instead of %g, %g | %s", ap, ad, ep, ed, ctx);
            double ip = 0; for (int i = 0; i < m; i++) ip += s[i] * dz[i]; if (innerproduct(bs.p, bdz.p, m) != ip) violation("inner product | %s", ctx);
            if (norm) { double nn = 0; for (int i = 0; i < m; i++) nn += ds[i] * ds[i]; if (!(fabs(norm(bds.p, m) - sqrt(nn)) <= 1e-14 * sqrt(nn))) violation("norm %.17g instead of %.17g | %s", norm(bds.p, m), sqrt(nn), ctx); }
            BD lam(m, NAN); formlambda(lam.p, bs.p, bz.p, m); for (int i = 0; i < m; i++) if (!(fabs(lam[i] - sqrt(s[i] * z[i])) <= 1e-15 * lam[i])) violation("scaling point | %s", ctx);
            double den = 0; ld num = 0, mag = 0; for (int i = 0; i < m; i++) { ld t = ((ld)s[i] + 0.5L * ds[i]) * ((ld)z[i] + 0.25L * dz[i]); num += t; mag += (fabsl(s[i]) + fabsl(0.5L * ds[i])) * (fabsl(z[i]) + fabsl(0.25L * dz[i])); den += s[i] * z[i]; } double rho = formrho(bs.p, bds.p, bz.p, bdz.p, 0.5, 0.25, m); if (!(fabsl(rho - num / den) <= 1e-14L * mag / den)) violation("complementarity ratio %.17g instead of %.17Lg | %s", rho, num / den, ctx);
            for (int sel = 0; sel < 3; sel++) { BD o(m, NAN); double mu = fs * fz; form_ds(o.p, lam.p, bds.p, bdz.p, 0.5, mu, m, sel); for (int i = 0; i < m; i++) { ld a = (ld)lam[i] * lam[i], b = sel == 1 ? (ld)ds[i] * dz[i] : 0, c = sel ? 0.5L * mu : 0; if (!(fabsl(o[i] - (c - a - b)) <= 1e-15L * (a + fabsl(b) + c))) violation("complementarity right-hand side, selector %d: %g instead of %Lg | %s", sel, o[i], c - a - b, ctx); } }
            { BD x(s); updatevariables(x.p, bds.p, 0.25, m); for (int i = 0; i < m; i++) if (x[i] != s[i] + 0.25 * ds[i]) violation("variable update | %s", ctx); }
            { bool neg = false; for (int i = 0; i < m; i++) neg |= s[i] < -2 * ds[i]; if ((checksign(bs.p, bds.p, 2, m) != 0) != neg) violation("sign check | %s", ctx); }
            { V rx(1, 3 * fs), ry(1, 5 * fz); BD x(rx), y(ry), o(2 + m, NAN); updatekktmatrix_b(o.p, x.p, y.p, bs.p, bds.p, bz.p, 1, m, 1); bool ok = o[0] == rx[0] && o[1] == ry[0]; for (int i = 0; i < m; i++) { ld t = (ld)ds[i] / z[i]; ok &= fabsl(o[2 + i] - (s[i] - t)) <= 1e-15L * (fabsl(s[i]) + fabsl(t)); } if (!ok) violation("right-hand side of the step | %s", ctx); }
            if (!bs.is(s) || !bds.is(ds) || !bz.is(z) || !bdz.is(dz)) violation("a vector kernel modified its input | %s", ctx);
        } }, 64});
    // degenerate shapes: no inequality rows
    F.push_back({"kkt-without-rows", [](bool) { return 4L * 4 * 8; }, [](long k) { int n = 1 + (int)(k % 4), p = (int)(k / 4 % 4), ord = (int)(k / 16 % 2); if (p > n) return; SM P = buildL(n, n, k / 32 % 2 ? 9 : 1, ord, 0), G = buildL(0, n, 0, 0, 1), A = buildL(p, n, (int)(k / 64 % 2) ? 6 : 1, ord, 3); kkt_check(P, G, A, true); }, 4});
    // larger shapes: block boundaries and large index values
    static const int SZ[] = {1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 600, 1000, 1023, 1024, 1025}; enum { NSZ = sizeof SZ / sizeof *SZ };
    F.push_back({"large-matrix", [](bool) { return (long)NSZ * NSZ; }, [TH](long k) { int r = SZ[k / NSZ], c = SZ[k % NSZ]; if ((long)r * c > (TH ? 1100000 : 66000) || (r <= 5 && c <= 5)) return; if (k % 97 == 0) { detail("large %d x %d", r, c); }
        for (int pat = 0; pat < 8; pat++) for (int o = 0; o < ((long)r * c > 20000 ? 1 : 3); o++) ops(buildL(r, c, pat, o, 0)); }, 4});
    // more than 65535 entries in one row or column, indices beyond 16 bits
    static const int LG[] = {65535, 65536, 65537, 70001, 131073};
    F.push_back({"long-matrix", [](bool) { return 5L * 6 * 8; }, [](long k) { int L = LG[k % 5], w = 1 + (int)(k / 5 % 3), pat = (int)(k / 30), r = k / 15 % 2 ? L : w, c = k / 15 % 2 ? w : L; detail("long %d x %d, pattern %d", r, c, pat); ops(buildL(r, c, pat, pat % 3, 0)); conv(r, c, buildL(r, c, pat, 0, pat).D); }, 1});
    F.push_back({"large-dense", [](bool) { return (long)NSZ * NSZ; }, [TH](long k) { int r = SZ[k / NSZ], c = SZ[k % NSZ]; if ((long)r * c > (TH ? 1100000 : 140000)) return; for (int pat = 0; pat < 8; pat++) conv(r, c, buildL(r, c, pat, 0, pat).D); }, 4});
    static const int KN[] = {1, 2, 5, 8, 9, 16, 17, 31, 32, 33, 40, 64, 65, 100, 128, 129}; enum { NKN = sizeof KN / sizeof *KN };
    F.push_back({"large-kkt", [](bool) { return (long)NKN * NKN * 6; }, [TH](long k) { int n = KN[k / 6 % NKN], m = KN[k / 6 / NKN], w = (int)(k % 6), p = w == 0 ? 0 : w == 1 ? 1 : w == 2 ? n / 2 : w == 3 ? std::min(n, 33) : w == 4 ? std::min(n, 3) : 0; if ((long)(n + m + p) * (n + m + p) > (TH ? 200000 : 20000) && k % 5) return;
        SM P = buildL(n, n, k % 3 ? 9 : 1, (int)(k % 3), 0), G = buildL(m, n, (int)(k % 8), (int)(k % 3), 1), A = buildL(p, n, (int)((k / 3) % 8), (int)(k / 5 % 3), 3); detail("large-kkt n=%d m=%d p=%d", n, m, p); kkt_check(P, G, A, n + m + p < (TH ? 300 : 140)); }, 4});
    // every length up to a bound, so that no remainder of a blocked or unrolled loop is left out
    F.push_back({"every-length", [](bool th) { return (th ? 1100L : 300L) * 4 * 2; }, [](long k) { int L = (int)(k / 8) + 1, w = 1 + (int)(k % 4), r = k & 4 ? L : w, c = k & 4 ? w : L; for (int pat = 0; pat < 8; pat++) { ops(buildL(r, c, pat, pat % 3, 0)); conv(r, c, buildL(r, c, pat, 0, pat).D); } }, 8});
    F.push_back({"every-length-kkt", [](bool th) { return (th ? 400L : 150L) * 4; }, [](long k) { int L = (int)(k / 4) + 1, w = (int)(k % 4), n = w == 0 ? L : w == 3 ? (L + 1) / 2 + 1 : 3, m = w == 1 ? L : 2, p = w == 2 ? std::min(L, 3) : w == 3 ? L / 2 : k & 8 ? 1 : 0; SM P = buildL(n, n, k & 16 ? 9 : 1, 0, 0), G = buildL(m, n, L % 8, 0, 1), A = buildL(p, n, (L + 3) % 8, 0, 3); kkt_check(P, G, A, n + m + p < 120); }, 4});
    F.push_back({"large-vectors", [](bool) { return 258L + NSZ; }, [](long k) { int m = k < 258 ? (int)k + 1 : SZ[k - 258]; if (k >= 258 && m <= 258) return; V s(m), z(m), ds(m), dz(m); auto set = [&] { for (int i = 0; i < m; i++) { s[i] = 1 + i % 4; z[i] = 2 + i % 3; ds[i] = i % 5; dz[i] = (i + 2) % 7; } };
        for (int at = 0; at < m && !viol_in_case; at += m > 300 && at > 40 && at < m - 40 ? 7 : 1) for (int w = 0; w < 3; w++) { set(); int a2 = (at * 7 + 3) % m; if (w != 1) ds[at] = -8; if (w != 0) dz[a2] = -16; count("evaluations"); count("nontrivial"); count("transitions", 6);
            BD bs(s), bz(z), bds(ds), bdz(dz); double ap = NAN, ad = NAN, ep = w != 1 ? s[at] / 8 : 1, ed = w != 0 ? z[a2] / 16 : 1; findsteplength(bs.p, bds.p, bz.p, bdz.p, m, &ap, &ad); if (ap != ep || ad != ed) violation("step lengths %g, %g instead of %g, %g: m=%d, blocking entries %d and %d", ap, ad, ep, ed, m, at, a2);
            double ip = 0, num = 0, den = 0; for (int i = 0; i < m; i++) { ip += s[i] * dz[i]; num += (s[i] + 0.5 * ds[i]) * (z[i] + 0.25 * dz[i]); den += s[i] * z[i]; } if (innerproduct(bs.p, bdz.p, m) != ip) violation("inner product of length %d", m);
            double rho = formrho(bs.p, bds.p, bz.p, bdz.p, 0.5, 0.25, m); if (!(fabs(rho - num / den) <= 1e-12 * (1 + fabs(num / den)))) violation("complementarity ratio %.17g instead of %.17g, length %d", rho, num / den, m);
            if (norm) { double nn = 0; for (int i = 0; i < m; i++) nn += ds[i] * ds[i]; if (!(fabs(norm(bds.p, m) - sqrt(nn)) <= 1e-13 * sqrt(nn))) violation("norm %.17g instead of %.17g, length %d", norm(bds.p, m), sqrt(nn), m); }
            BD lam(m, NAN); formlambda(lam.p, bs.p, bz.p, m); for (int i = 0; i < m; i++) if (!(fabs(lam[i] - sqrt(s[i] * z[i])) <= 1e-15 * lam[i])) { violation("scaling point entry %d of %d", i, m); break; }
            for (int sel = 0; sel < 3; sel++) { BD o(m, NAN); form_ds(o.p, bs.p, bds.p, bdz.p, 0.5, 8, m, sel); for (int i = 0; i < m; i++) { double e = -s[i] * s[i] - (sel == 1 ? ds[i] * dz[i] : 0) + (sel ? 4 : 0); if (o[i] != e) { violation("complementarity right-hand side, selector %d, entry %d of %d: %g instead of %g", sel, i, m, o[i], e); break; } } }
            { BD x(s); updatevariables(x.p, bds.p, 0.25, m); for (int i = 0; i < m; i++) if (x[i] != s[i] + 0.25 * ds[i]) { violation("variable update entry %d of %d", i, m); break; } }
            { bool neg = w != 1; if ((checksign(bs.p, bds.p, 2, m) != 0) != neg) violation("sign check, entry %d of %d", at, m); }
            if (at < 3) for (int n = 1; n <= 34; n += 11) for (int p = 0; p <= 33; p += 3) { V rx(n), ry(p); for (int i = 0; i < n; i++) rx[i] = 10 + i; for (int i = 0; i < p; i++) ry[i] = 60 + i; BD x(rx), y(ry), o(n + m + p, NAN); updatekktmatrix_b(o.p, x.p, y.p, bs.p, bds.p, bz.p, n, m, p); bool ok = true; for (int i = 0; i < n; i++) ok &= o[i] == rx[i]; for (int i = 0; i < p; i++) ok &= o[n + i] == ry[i]; for (int i = 0; i < m; i++) ok &= fabs(o[n + p + i] - (s[i] - ds[i] / z[i])) <= 1e-15 * 8; if (!ok) violation("KKT right-hand side for n=%d p=%d m=%d", n, p, m); }
            if (!bs.is(s) || !bds.is(ds) || !bz.is(z) || !bdz.is(dz)) violation("a vector kernel modified its input, length %d", m);
        } }, 1});
    return main_(argc, argv, F);
}
