// C12: LDL' factorisation, triangular solves and validity checkers over all small symmetric patterns and permutations
#include "prob.hpp"
using namespace core;
extern "C" { // alternative factorisation entry points: exercised when present
qp_int LDL_cache_numeric(qp_int, qp_int *, qp_int *, qp_real *, qp_int *, qp_int *, qp_int *, qp_int *, qp_real *, qp_real *, qp_real *, qp_int *, qp_int *, qp_int *) __attribute__((weak));
qp_int LDL_row_cache_numeric(qp_int, qp_int *, qp_int *, qp_real *, qp_int *, qp_int *, qp_int *, qp_int *, qp_real *, qp_real *, qp_real *, qp_int *, qp_int *, qp_int *) __attribute__((weak)); void test_reach(qp_int *, qp_int *, qp_int *, qp_int, qp_int, qp_int) __attribute__((weak)); }
template <class T> struct Buf { T *p; size_t n; Buf(size_t k, T v) : p((T *)malloc(k * sizeof(T))), n(k) { for (size_t i = 0; i < k; i++) p[i] = v; } Buf(const std::vector<T> &v) : p((T *)malloc(v.size() * sizeof(T))), n(v.size()) { for (size_t i = 0; i < n; i++) p[i] = v[i]; } ~Buf() { free(p); } Buf(const Buf &) = delete; T &operator[](size_t i) { return p[i]; } bool is(const std::vector<T> &v) const { return v.size() == n && (n == 0 || !memcmp(p, v.data(), n * sizeof(T))); } };
typedef Buf<double> BD; typedef Buf<qp_int> BI; typedef std::vector<qp_int> PV;
static long ipow(long b, int e) { long r = 1; while (e--) r *= b; return r; }
struct Mat { int n; V D; std::vector<char> S; PV jc, ir; V pr; }; // dense symmetric values, stored mask (symmetric), stored arrays
// storage: 0 full ascending, 1 full descending, 2 upper triangle of the permuted matrix only, 3 duplicates (each entry split in two), 4 full with garbage in the unread lower triangle
static void store(Mat &A, int how, const PV &P) {
    int n = A.n; A.jc.assign(1, 0); A.ir.clear(); A.pr.clear(); std::vector<int> inv(n); for (int i = 0; i < n; i++) inv[P[i]] = i;
    for (int j = 0; j < n; j++) { std::vector<int> rows; for (int i = 0; i < n; i++) if (A.S[i * n + j]) rows.push_back(i); if (how == 1) std::reverse(rows.begin(), rows.end());
        for (int i : rows) { bool low = inv[i] > inv[j]; if (how == 2 && low) continue; double v = A.D[i * n + j]; if (how == 4 && low) v = 1e6 + i; if (how == 3) { A.ir.push_back(i); A.pr.push_back(v - 3); v = 3; } A.ir.push_back(i); A.pr.push_back(v); }
        if (how == 3 && rows.size() > 1) std::rotate(A.ir.begin() + A.jc[j], A.ir.begin() + A.jc[j] + 1, A.ir.end()), std::rotate(A.pr.begin() + A.jc[j], A.pr.begin() + A.jc[j] + 1, A.pr.end());
        A.jc.push_back((qp_int)A.ir.size()); }
}
static std::string ctx(const Mat &A, const PV &P, bool null) { std::string s = "n=" + std::to_string(A.n) + " A=" + vs(A.D) + " P="; if (null) return s + "NULL"; for (auto v : P) s += std::to_string(v) + ","; return s; }
// check L, D against the matrix M = PAP'. reg: pivots may have been replaced
static void chk_fact(const char *nm, const Mat &A, const PV &P, bool null, const std::vector<std::set<int>> &fill, const BI &Lp, const BI &Li, const BD &Lx, const BD &D, std::string c) {
    int n = A.n; typedef long double ld; const ld U = 2.3e-16L; std::vector<ld> L((size_t)n * n, 0), d(n); (void)null;
    for (int k = 0; k < n; k++) { L[k * n + k] = 1; d[k] = D.p[k]; if (!(fabs(D.p[k]) > 0) || !std::isfinite(D.p[k])) { violation("%s: pivot %d is %g | %s", nm, k, D.p[k], c.c_str()); return; }
        std::set<int> got; for (qp_int q = Lp.p[k]; q < Lp.p[k + 1]; q++) { qp_int i = Li.p[q]; if (i <= k || i >= n || !got.insert((int)i).second) { violation("%s: column %d of L has row index %ld | %s", nm, k, (long)i, c.c_str()); return; } if (!std::isfinite(Lx.p[q])) { violation("%s: L(%ld,%d) is %g | %s", nm, (long)i, k, Lx.p[q], c.c_str()); return; } L[i * n + k] = Lx.p[q]; }
        if (got != fill[k]) { violation("%s: column %d of L holds %zu entries, not the %zu of the symbolic fill | %s", nm, k, got.size(), fill[k].size(), c.c_str()); return; } }
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) {
        ld s = 0, a = 0; for (int k = 0; k <= j; k++) { ld t = L[i * n + k] * d[k] * L[j * n + k]; s += t; a += fabsl(t); }
        ld m = A.D[P[i] * n + P[j]]; a += fabsl(m); ld tol = U * (2 * n + 8) * a; if (i == j && fabsl(d[i]) <= 1.0001e-7L) tol += 1.1e-7L; // a replaced pivot perturbs its diagonal entry only
        if (!(fabsl(s - m) <= tol)) { violation("%s: (LDL')(%d,%d) = %.17Lg but the permuted matrix has %.17Lg | %s", nm, i, j, s, m, c.c_str()); return; }
    }
}
static void one(Mat A, const PV &P, bool null, int how) {
    int n = A.n; store(A, how, P); count("evaluations"); count("nontrivial"); std::string c;
    // structural fill by boolean elimination of the permuted pattern, elimination tree
    std::vector<std::set<int>> fill(n); std::vector<int> par(n, -1); { std::vector<char> S((size_t)n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) S[i * n + j] = A.S[P[i] * n + P[j]];
        for (int k = 0; k < n; k++) { for (int i = k + 1; i < n; i++) if (S[i * n + k]) fill[k].insert(i); if (!fill[k].empty()) par[k] = *fill[k].begin(); for (int i : fill[k]) for (int j : fill[k]) S[i * n + j] = 1; } }
    auto C = [&] { return ctx(A, P, null) + " storage " + std::to_string(how); };
    BI jc(A.jc), ir(A.ir), Pb(P), Pi(n, -77); BD pr(A.pr); qp_int *pp = null ? nullptr : Pb.p, *pi = null ? nullptr : Pi.p;
    BI Lp(n + 1, -9), Par(n, -9), Lnz(n, -9), Flag(n, -9), Pat(n, -9); LDL_symbolic(n, jc.p, ir.p, Lp.p, Par.p, Lnz.p, Flag.p, pp, pi); count("transitions");
    bool ok = Lp[0] == 0; for (int k = 0; k < n; k++) ok = ok && Lp[k + 1] - Lp[k] == (qp_int)fill[k].size() && Lnz[k] == (qp_int)fill[k].size();
    if (!ok) { violation("symbolic analysis predicts wrong column counts | %s", C().c_str()); return; }
    for (int k = 0; k < n; k++) if (Par[k] != par[k]) { violation("elimination tree: parent of %d is %ld instead of %d | %s", k, (long)Par[k], par[k], C().c_str()); return; }
    if (!null) for (int k = 0; k < n; k++) if (Pi[P[k]] != k) { violation("inverse permutation wrong | %s", C().c_str()); return; }
    size_t nz = (size_t)Lp[n]; BI Li(nz, -9); BD Lx(nz, NAN), D(n, NAN), Y(n, NAN);
    qp_int r = LDL_numeric(n, jc.p, ir.p, pr.p, Lp.p, Par.p, Lnz.p, Li.p, Lx.p, D.p, Y.p, Pat.p, Flag.p, pp, pi); count("transitions");
    if (r != n) { violation("numeric factorisation stopped at %ld of %d | %s", (long)r, n, C().c_str()); return; }
    chk_fact("numeric factorisation", A, P, null, fill, Lp, Li, Lx, D, C());
    for (int k = 0; k < n; k++) if (Lnz[k] != (qp_int)fill[k].size()) violation("column count after the numeric factorisation | %s", C().c_str());
    for (size_t k = 0; k < (size_t)n; k++) for (qp_int q = Lp[k]; q + 1 < Lp[k + 1]; q++) if (Li[q] >= Li[q + 1]) violation("row indices of L not ascending | %s", C().c_str());
    if (!jc.is(A.jc) || !ir.is(A.ir) || !pr.is(A.pr) || !Pb.is(P)) violation("factorisation modified its inputs | %s", C().c_str());
    // solve with the computed factors: x must reproduce b through P'LDL'P within the componentwise backward error bound
    typedef long double ld; std::vector<ld> L((size_t)n * n, 0); for (int k = 0; k < n; k++) { L[k * n + k] = 1; for (qp_int q = Lp[k]; q < Lp[k + 1]; q++) L[Li[q] * n + k] = Lx[q]; }
    for (int w = 0; w < 2; w++) {
        V b(n); for (int i = 0; i < n; i++) b[i] = w ? (i == n / 2 ? 1 : 0) : 3 * i - 4; BD B(b), X(n, NAN), R(n, NAN);
        if (null) for (int i = 0; i < n; i++) X[i] = b[i]; else LDL_perm(n, X.p, B.p, Pb.p);
        LDL_lsolve(n, X.p, Lp.p, Li.p, Lx.p); LDL_dsolve(n, X.p, D.p); LDL_ltsolve(n, X.p, Lp.p, Li.p, Lx.p);
        if (null) for (int i = 0; i < n; i++) R[i] = X[i]; else LDL_permt(n, R.p, X.p, Pb.p);
        count("transitions", 5);
        std::vector<ld> y(n, 0), ya(n, 0), t(n, 0), ta(n, 0); for (int i = 0; i < n; i++) { for (int k = i; k < n; k++) { ld v = L[k * n + i] * R[P[k]]; y[i] += v; ya[i] += fabsl(v); } y[i] *= D[i]; ya[i] *= fabs(D[i]); }
        for (int i = 0; i < n; i++) for (int k = 0; k <= i; k++) { t[i] += L[i * n + k] * y[k]; ta[i] += fabsl(L[i * n + k]) * ya[k]; }
        for (int i = 0; i < n; i++) { ld e = fabsl(t[i] - (ld)b[P[i]]); if (!(e <= 2.3e-16L * (6 * n + 12) * (ta[i] + fabsl((ld)b[P[i]])))) { violation("solve sequence: row %d of the system is off by %.3Lg, rhs %s | %s", (int)P[i], e, vs(b).c_str(), C().c_str()); return; } }
        if (!B.is(b)) violation("the permutation step modified its input | %s", C().c_str());
    }
    if (how <= 1 && (LDL_row_cache_numeric || LDL_cache_numeric)) { // cached variants on the same pattern, every column marked for update
        BI Ltp(n + 1, 0), Lti(nz, -9), UP(n, n); { PV cnt(n, 0); for (size_t q = 0; q < nz; q++) cnt[Li[q]]++; for (int k = 0; k < n; k++) Ltp[k + 1] = Ltp[k] + cnt[k]; PV at(n); for (int k = 0; k < n; k++) at[k] = Ltp[k]; for (int k = 0; k < n; k++) for (qp_int q = Lp[k]; q < Lp[k + 1]; q++) Lti[at[Li[q]]++] = k; }
        V lx(Lx.p, Lx.p + nz);
        for (int v = 0; v < 2; v++) { if (v ? !LDL_row_cache_numeric : !LDL_cache_numeric) continue; BD Lx2(nz, NAN), D2(n, NAN), Y2(n, 0.0); BI Li2(nz, -9); for (size_t q = 0; q < nz; q++) Li2[q] = Li[q];
            qp_int r2 = v ? LDL_row_cache_numeric(n, jc.p, ir.p, pr.p, Ltp.p, Lti.p, Li2.p, Lp.p, Lx2.p, D2.p, Y2.p, pp, pi, UP.p) : LDL_cache_numeric(n, jc.p, ir.p, pr.p, Ltp.p, Lti.p, Li2.p, Lp.p, Lx2.p, D2.p, Y2.p, pp, pi, UP.p); count("transitions");
            if (r2 != n) violation("cached factorisation %d stopped at %ld | %s", v, (long)r2, C().c_str()); else chk_fact(v ? "row-cached factorisation" : "column-cached factorisation", A, P, null, fill, Lp, Li2, Lx2, D2, C()); }
        if (test_reach && n) for (int mm = 0; mm <= n; mm += n > 12 && mm ? n / 3 : 1) { // partial update: the diagonal of the last mm rows changes, only the columns reached from them are recomputed
            PV pin(n); for (int k = 0; k < n; k++) pin[P[k]] = k; std::vector<char> ex(n, 0); ex[n - 1] = 1; for (int j = n - mm; j < n; j++) for (int i = (int)pin[j]; i != -1; i = par[i]) ex[i] = 1;
            BI U2(n, 0), pb(pin); int pp2 = (n - mm) / 2; test_reach(Par.p, pb.p, U2.p, n - mm - pp2, mm, pp2); count("transitions"); for (int k = 0; k < n; k++) if ((U2[k] == n) != (bool)ex[k]) { violation("update pattern: column %d is %smarked after the last %d rows changed | %s", k, ex[k] ? "not " : "", mm, C().c_str()); return; }
            Mat B = A; for (int j = n - mm; j < n; j++) if (B.S[j * n + j]) B.D[j * n + j] = B.D[j * n + j] * 2 + (B.D[j * n + j] < 0 ? -3 : 3); store(B, how, P); BD pr2(B.pr);
            for (int v = 0; v < 2; v++) { if (v ? !LDL_row_cache_numeric : !LDL_cache_numeric) continue; BD Lx2(lx), D2(V(D.p, D.p + n)), Y2(n, 0.0); BI Li2(nz, -9); for (size_t q = 0; q < nz; q++) Li2[q] = Li[q];
                qp_int r2 = v ? LDL_row_cache_numeric(n, jc.p, ir.p, pr2.p, Ltp.p, Lti.p, Li2.p, Lp.p, Lx2.p, D2.p, Y2.p, pp, pi, U2.p) : LDL_cache_numeric(n, jc.p, ir.p, pr2.p, Ltp.p, Lti.p, Li2.p, Lp.p, Lx2.p, D2.p, Y2.p, pp, pi, U2.p); count("transitions");
                if (r2 != n) violation("partial factorisation %d stopped at %ld | %s", v, (long)r2, C().c_str()); else chk_fact(v ? "row-cached partial update" : "column-cached partial update", B, P, null, fill, Lp, Li2, Lx2, D2, C() + " last " + std::to_string(mm)); }
        }
    }
}
// values: 0 KKT-like (positive then negative diagonal), 1 diagonally dominant positive, 2 small integers (zero pivots arise), 3 all diagonals zero, 4 graded
static Mat make(int n, long off, long diag, int vals, int sgn) {
    Mat A; A.n = n; A.D.assign((size_t)n * n, 0); A.S.assign((size_t)n * n, 0); int t = 0;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, t++) if (off >> t & 1) { double v = vals == 2 ? 1 : vals == 4 ? ldexp(1 + (i + 2 * j) % 3, 3 * (i - j)) : ((i * 3 + j * 5) % 4 + 1) * ((i + j) % 2 ? 1 : -1) * 0.5; A.D[i * n + j] = A.D[j * n + i] = v; A.S[i * n + j] = A.S[j * n + i] = 1; }
    for (int i = 0; i < n; i++) { bool st = diag >> i & 1; if (!st) continue; A.S[i * n + i] = 1; double s = sgn >> i & 1 ? -1 : 1; A.D[i * n + i] = vals == 0 ? s * (i + 2) : vals == 1 ? s * 4 * n : vals == 2 ? s : vals == 4 ? s * ldexp(1, 10 - 4 * i) : 0; }
    return A;
}
int main(int argc, char **argv) {
    std::vector<Family> F; bool TH = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"); for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "thorough")) TH = true;
    // all patterns x all permutations (and NULL) x diagonal patterns x value schemes
    auto fam = [&](int n, bool alldiag, bool allsgn, bool allhow, long stride) {
        int ne = n * (n - 1) / 2; long nd = alldiag ? 1L << n : 2, nsg = allsgn ? 1L << n : 2, tot = ipow(2, ne) * nd * nsg * 5; std::vector<PV> perms; PV id(n); for (int i = 0; i < n; i++) id[i] = i; PV p = id; do perms.push_back(p); while (std::next_permutation(p.begin(), p.end()));
        char nm[40]; snprintf(nm, 40, "patterns-n%d", n); F.push_back({nm, [=](bool) { return (tot + stride - 1) / stride; }, [=](long k) {
            k *= stride; long off = k % ipow(2, ne); k /= ipow(2, ne); int vals = (int)(k % 5); k /= 5; long dg = k % nd, sg = k / nd; if (!alldiag) dg = dg ? (1L << n) - 1 : ((1L << n) - 1) & ~(1L << (off % n)); if (!allsgn) sg = sg ? (((1L << n) - 1) << (n / 2)) & ((1L << n) - 1) : 0x5L;
            Mat A = make(n, off, dg, vals, (int)sg); if (off == ipow(2, ne) / 2) sample(ctx(A, perms[perms.size() / 2], false)); int h = 0;
            one(A, id, true, (int)(k % 2)); for (auto &P : perms) { if (allhow) for (int w = 0; w < 5; w++) one(A, P, false, w); else one(A, P, false, h++ % 5); } }, 8});
    };
    F.push_back({"n0", [](bool) { return 1L; }, [](long) { Mat A; A.n = 0; one(A, {}, true, 0); one(A, {}, false, 0); }, 1});
    fam(1, true, true, true, 1); fam(2, true, true, true, 1); fam(3, true, true, true, 1); fam(4, TH, true, TH, 1); fam(5, false, false, false, TH ? 1 : 3); if (TH) fam(6, false, false, false, 41);
    // larger structured patterns x a catalogue of permutations
    auto strct_with = [](int n, int kind, int nw, auto &&f) { Mat A; A.n = n; A.D.assign((size_t)n * n, 0); A.S.assign((size_t)n * n, 0);
        auto e = [&](int i, int j) { if (i == j || i < 0 || j < 0 || i >= n || j >= n) return; double v = 0.25 * ((i + 2 * j) % 5 - 2); if (v == 0) v = 1; A.D[i * n + j] = A.D[j * n + i] = v; A.S[i * n + j] = A.S[j * n + i] = 1; };
        for (int i = 0; i < n; i++) { if (kind == 0) e(i, i + 1); if (kind == 1) { e(i, i + 1); e(i, i + 3); } if (kind == 2) e(0, i); if (kind == 3) e(i, n - 1); if (kind == 4) for (int j = 0; j < i; j++) e(i, j); if (kind == 5) e(i, (i - 1) / 2); if (kind == 6) { e(i, i + 5); if ((i + 1) % 5) e(i, i + 1); } if (kind == 7) { e(i, (i * i + 1) % n); e(i, (3 * i + 2) % n); } }
        for (int i = 0; i < n; i++) { A.S[i * n + i] = 1; A.D[i * n + i] = (i * 3 < 2 * n ? 1 : -1) * (kind == 4 ? n : 4 + i % 3); }
        for (int w = 0; w < nw; w++) { PV P(n); int st = w < 3 ? 1 : 2 * w - 1; while (std::__gcd(st, n) != 1) st++; for (int i = 0; i < n; i++) P[i] = w == 0 ? i : w == 1 ? n - 1 - i : w == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : (i * (long)st + w) % n; detail("structured kind %d n %d perm %d", kind, n, w); f(A, P, false); if (w == 0) f(A, P, true); } };
    auto strct = [=](int n, int kind, int nw, bool allhow) { strct_with(n, kind, nw, [&](const Mat &A, const PV &P, bool null) { if (null) one(A, P, true, 0); else for (int how = 0; how < 5; how += allhow ? 1 : 3) one(A, P, false, how); }); };
    F.push_back({"structured", [TH](bool) { return (long)(TH ? 40 : 20) * 8; }, [=](long k) { int n = 6 + (int)(k / 8) * (int)(1 + k / 40); if (n > 60) n = 60 - (int)(k % 7); strct(n, (int)(k % 8), 8, true); }, 1});
    F.push_back({"structured-large", [](bool) { return 12L * 8; }, [=](long k) { static const int N[] = {300, 257, 256, 255, 200, 130, 129, 128, 127, 100, 65, 64}; int n = N[k / 8], kind = (int)(k % 8); if (kind == 4 && n > (TH ? 300 : 130)) return; strct(n, kind, TH ? 8 : n > 130 ? 3 : 5, TH); }, 1});
    // every size: all kinds to 70, two (thorough four) of them beyond
    F.push_back({"sizes", [TH](bool) { return 8 * 70L + (TH ? 330 * 4L : 190 * 2L); }, [=](long k) { int n, kind; if (k < 8 * 70) { n = 1 + (int)(k / 8); kind = (int)(k % 8); } else { k -= 8 * 70; int w = TH ? 4 : 2; n = 71 + (int)(k / w); kind = (int)((n + k % w * (8 / w)) % 8); if (kind == 4 && n > (TH ? 200 : 130)) kind = 3; } strct_with(n, kind, 2, [&](const Mat &A, const PV &P, bool null) { one(A, P, null, null ? 0 : (n + kind) % 5); }); }, 4});
    // the same matrices in other units: SAS with powers of two leaves L = S L S^-1, D = SDS exactly, so no pivot that is not zero may be treated as one
    auto units = [](const Mat &A0, const PV &P, bool null) { int n = A0.n; auto fact = [&](Mat A, V &Lx, V &D) { store(A, 0, P); BI jc(A.jc), ir(A.ir), Pb(P), Pi(n, -77), Lp(n + 1, -9), Par(n, -9), Lnz(n, -9), Flag(n, -9), Pat(n, -9); BD pr(A.pr), Db(n, NAN), Y(n, NAN); qp_int *pp = null ? nullptr : Pb.p, *pi = null ? nullptr : Pi.p;
            LDL_symbolic(n, jc.p, ir.p, Lp.p, Par.p, Lnz.p, Flag.p, pp, pi); size_t nz = (size_t)Lp[n]; BI Li(nz, -9); BD L(nz, NAN); LDL_numeric(n, jc.p, ir.p, pr.p, Lp.p, Par.p, Lnz.p, Li.p, L.p, Db.p, Y.p, Pat.p, Flag.p, pp, pi); count("transitions", 2);
            D.assign(Db.p, Db.p + n); Lx.assign((size_t)n * n, 0); for (int k = 0; k < n; k++) for (qp_int q = Lp[k]; q < Lp[k + 1]; q++) if (Li[q] >= 0 && Li[q] < n) Lx[Li[q] * n + k] = L[q]; };
        V L0, D0; fact(A0, L0, D0); double lo = 1e300, hi = 0; for (double d : D0) lo = std::min(lo, fabs(d)), hi = std::max(hi, fabs(d)); if (!(lo >= 1e-3)) return;
        for (int w = 0; w < 11; w++) { std::vector<int> e(n); for (int i = 0; i < n; i++) e[i] = w < 5 ? (w * 10 - 20) + (w >= 2 ? 10 : 0) : w < 8 ? ((i + w) % 3 - 1) * 19 : w < 10 ? ((i + w) % 2 ? -15 : 24) : (i * 7 % 5 - 3) * 8; bool fits = true; for (int k = 0; k < n; k++) if (ldexp(fabs(D0[k]), 2 * e[P[k]]) < 2e-13) fits = false; if (!fits) continue;
            Mat A = A0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A.D[i * n + j] = ldexp(A0.D[i * n + j], e[i] + e[j]); count("evaluations"); count("nontrivial"); count("rescaled"); V L, D; fact(A, L, D);
            for (int k = 0; k < n; k++) { double x = ldexp(D0[k], 2 * e[P[k]]); if (!(fabs(D[k] - x) <= 1e-9 * fabs(x))) { violation("in other units the pivot %d is %.17g instead of %.17g | %s", k, D[k], x, ctx(A, P, null).c_str()); return; }
                for (int i = k + 1; i < n; i++) { double y = ldexp(L0[i * n + k], e[P[i]] - e[P[k]]), dd = ldexp(D0[k], 2 * e[P[k]]), sc = sqrt(fabs(dd) * ldexp(fabs(D0[i]), 2 * e[P[i]])); if (!(fabs(L[i * n + k] - y) * fabs(dd) <= 1e-9 * (fabs(y * dd) + sc))) { violation("in other units L(%d,%d) is %.17g instead of %.17g | %s", i, k, L[i * n + k], y, ctx(A, P, null).c_str()); return; } } } } };
    for (int n = 1; n <= (TH ? 5 : 4); n++) F.push_back({"units-n" + std::to_string(n), [n](bool) { return ipow(2, n * (n - 1) / 2) * 3 * ipow(2, n); }, [=](long k) { long off = k % ipow(2, n * (n - 1) / 2); k /= ipow(2, n * (n - 1) / 2); static const int VV[] = {0, 1, 4}; Mat A = make(n, off, (1L << n) - 1, VV[k % 3], (int)(k / 3)); PV P(n); for (int i = 0; i < n; i++) P[i] = i; units(A, P, true); do units(A, P, false); while (std::next_permutation(P.begin(), P.end())); }, 8});
    F.push_back({"units-structured", [TH](bool) { return (long)(TH ? 60 : 24) * 8; }, [=](long k) { int n = 5 + (int)(k / 8) * 2, kind = (int)(k % 8); strct_with(n, kind, 6, units); }, 1});
    // validity checkers accept exactly the valid inputs
    for (int n = 0; n <= (TH ? 5 : 4); n++) F.push_back({"valid-perm-n" + std::to_string(n), [n](bool) { return ipow(n + 3, n); }, [n](long k) {
        PV P(n); long t = k; for (int i = 0; i < n; i++) { P[i] = t % (n + 3) - 1; t /= n + 3; } std::vector<int> seen(n + 3, 0); bool ok = true; for (auto v : P) { if (v < 0 || v >= n) ok = false; else if (seen[v]++) ok = false; } count("evaluations"); if (ok) count("nontrivial");
        for (int fill = -1; fill <= 1; fill++) { BI Pb(P), Fl(n, fill); qp_int r = LDL_valid_perm(n, Pb.p, Fl.p); count("transitions"); if (r != (ok ? 1 : 0)) violation("permutation checker returned %ld for %s", (long)r, ok ? "a valid permutation" : "an invalid one"); if (!Pb.is(P)) violation("permutation checker modified the permutation"); }
        if (k == 0) { BI Fl(n, 0), Pb(P); for (int i = 0; i < n; i++) Pb[i] = n - 1 - i; if (LDL_valid_perm(n, nullptr, Fl.p) != 1) violation("NULL (identity) permutation rejected"); if (LDL_valid_perm(-1, Pb.p, Fl.p) != 0 || LDL_valid_perm(n, Pb.p, nullptr) != 0) violation("negative size or missing workspace accepted"); } }, 512});
    for (int n = 0; n <= 3; n++) F.push_back({"valid-matrix-n" + std::to_string(n), [n](bool) { return ipow(5, n + 1) * ipow(n + 2, 3); }, [n](long k) {
        PV Ap(n + 1), Ai(3); long t = k; for (auto &v : Ap) { v = t % 5 - 1; t /= 5; } for (auto &v : Ai) { v = t % (n + 2) - 1; t /= n + 2; } bool ok = Ap[0] == 0; for (int j = 0; j < n; j++) ok = ok && Ap[j] <= Ap[j + 1]; for (int q = 0; ok && q < Ap[n]; q++) ok = Ai[q] >= 0 && Ai[q] < n;
        count("evaluations"); if (ok) count("nontrivial"); BI a(Ap), b(Ai); qp_int r = LDL_valid_matrix(n, a.p, b.p); count("transitions"); if (r != (ok ? 1 : 0)) violation("matrix checker returned %ld for Ap=%ld,%ld,.. of an n=%d matrix that is %s", (long)r, (long)Ap[0], n ? (long)Ap[1] : 0L, n, ok ? "valid" : "invalid"); if (!a.is(Ap) || !b.is(Ai)) violation("matrix checker modified its input");
        if (k == 0) { BI a(n + 1, 0), b(3, 0); for (int j = 1; j <= n; j++) a[j] = 1; if (LDL_valid_matrix(n, a.p, b.p) != 1) violation("valid matrix rejected"); if (LDL_valid_matrix(-1, a.p, b.p) || LDL_valid_matrix(n, nullptr, b.p) || LDL_valid_matrix(n, a.p, nullptr)) violation("negative size or NULL arrays accepted"); } }, 1024});
    // larger sizes: every single defect of a regular permutation or matrix
    static const int LN[] = {5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 40, 48, 63, 64, 65, 66, 96, 100, 127, 128, 129, 130, 255, 256, 257, 300}; enum { NL = sizeof LN / sizeof *LN };
    F.push_back({"valid-perm-larger", [](bool) { return (long)NL * 4; }, [](long k) { int n = LN[k / 4], w = (int)(k % 4); PV P(n); int st = w < 2 ? 1 : w == 2 ? 3 : 7; while (std::__gcd(st, n) != 1) st++; for (int i = 0; i < n; i++) P[i] = w == 1 ? n - 1 - i : (i * (long)st + (w == 3)) % n;
        auto t = [&](bool ok, const char *what, int i, int j) { count("evaluations"); count("transitions"); if (ok) count("nontrivial"); BI Pb(P), Fl(n, w - 1); if (LDL_valid_perm(n, Pb.p, Fl.p) != (ok ? 1 : 0)) violation("permutation checker: n=%d order %d, %s %d %d is %s", n, w, what, i, j, ok ? "rejected" : "accepted"); if (!Pb.is(P)) violation("permutation checker modified the permutation"); };
        t(true, "valid", 0, 0); for (int i = 0; i < n && !viol_in_case; i++) { auto o = P[i]; for (qp_int v : {(qp_int)-1, (qp_int)n, (qp_int)(n + 32), (qp_int)(1L << 32) + (qp_int)o, (qp_int)(o - (1L << 32))}) { P[i] = v; t(false, "entry out of range at", i, (int)v); } for (int j = 0; j < n; j += n > 66 ? 7 : 1) if (j != i) { P[i] = P[j]; t(false, "duplicate at", i, j); } P[i] = o; } }, 1});
    F.push_back({"valid-sizes", [TH](bool) { return TH ? 3000L : 1200L; }, [](long k) { int n = (int)k + 1; PV P(n), Ap(n + 1), Ai(2 * n); for (int i = 0; i < n; i++) { P[i] = n - 1 - i; Ap[i + 1] = 2 * (i + 1); Ai[2 * i] = i; Ai[2 * i + 1] = n - 1 - i; } count("evaluations"); count("nontrivial"); count("transitions", 2);
        auto perm = [&](bool ok, const char *w, int i) { BI Pb(P), Fl(n, 1); if (LDL_valid_perm(n, Pb.p, Fl.p) != (ok ? 1 : 0)) violation("permutation checker: n=%d, %s %d", n, w, i); }; auto mat = [&](bool ok, const char *w, int i) { BI a(Ap), b(Ai); if (LDL_valid_matrix(n, a.p, b.p) != (ok ? 1 : 0)) violation("matrix checker: n=%d, %s %d", n, w, i); };
        perm(true, "valid one rejected", 0); mat(true, "valid one rejected", 0); for (int i : {0, 1, n / 3, n / 2, n - 2, n - 1}) { if (i < 0 || i >= n) continue; auto o = P[i]; for (qp_int v : {(qp_int)-1, (qp_int)n}) { P[i] = v; perm(false, "index out of range accepted at", i); } if (n > 1) { P[i] = P[(i + 1) % n]; perm(false, "duplicate accepted at", i); } P[i] = o; for (int d = 0; d < 2; d++) { auto q = Ai[2 * i + d]; for (qp_int v : {(qp_int)-1, (qp_int)n}) { Ai[2 * i + d] = v; mat(false, "index out of range accepted at entry", 2 * i + d); } Ai[2 * i + d] = q; } auto a = Ap[i + 1]; if (i) { Ap[i + 1] = Ap[i] - 1; mat(false, "decreasing pointer accepted at", i); Ap[i + 1] = a; } } }, 16});
    F.push_back({"valid-matrix-larger", [](bool) { return (long)NL * 2; }, [](long k) { int n = LN[k / 2], w = (int)(k % 2); PV Ap(1, 0), Ai; for (int j = 0; j < n; j++) { for (int d = 0; d < (w ? 3 : j % 3); d++) Ai.push_back((j * 5 + d * 7) % n); Ap.push_back((qp_int)Ai.size()); }
        auto t = [&](bool ok, const char *what, int i) { count("evaluations"); count("transitions"); if (ok) count("nontrivial"); BI a(Ap), b(Ai); if (LDL_valid_matrix(n, a.p, b.p) != (ok ? 1 : 0)) violation("matrix checker: n=%d, %s %d is %s", n, what, i, ok ? "rejected" : "accepted"); if (!a.is(Ap) || !b.is(Ai)) violation("matrix checker modified its input"); };
        t(true, "valid", 0); for (size_t q = 0; q < Ai.size() && !viol_in_case; q++) { auto o = Ai[q]; for (qp_int v : {(qp_int)-1, (qp_int)n, (qp_int)(1L << 32) + (qp_int)o, (qp_int)(o - (1L << 32))}) { Ai[q] = v; t(false, "index out of range at entry", (int)q); } Ai[q] = o; }
        for (int j = 1; j < n && !viol_in_case; j++) { auto o = Ap[j]; if (Ap[j - 1] > 0) { Ap[j] = Ap[j - 1] - 1; t(false, "decreasing pointer of column", j); } Ap[j] = Ap[j + 1] + 1; t(false, "pointer beyond the next of column", j); Ap[j] = o; } Ap[0] = 1; t(false, "first pointer not zero", 0); Ap[0] = -1; t(false, "first pointer not zero", 0); }, 1});
    return main_(argc, argv, F);
}
