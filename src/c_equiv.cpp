// C04 (formats), C05 (permutations): metamorphic agreement of the real solver over exhaustively enumerated representations
#include "prob.hpp"
#include "big.hpp"
using namespace core;
static std::vector<Opt> OM;
static std::string agree(const Prob &q, const Res &a, const Res &b, bool unique, double tf, double tx, bool strict = true) {
    char t[200]; if (!strict && (a.ret != 0) != (b.ret != 0)) { count("degenerate_rounding_sensitive"); return ""; } // degenerate problems: whether the limit is reached may depend on rounding
    if (a.ret != b.ret) { snprintf(t, 200, "exit code %ld instead of %ld", b.ret, a.ret); return t; }
    if (a.ret != 0) return "";
    if (!(fabs(a.fval - b.fval) <= tf * (1 + fabs(a.fval)))) { snprintf(t, 200, "objective %.12g instead of %.12g", b.fval, a.fval); return t; }
    if (unique) for (int i = 0; i < q.n; i++) if (!(fabs(a.x[i] - b.x[i]) <= tx * (1 + fabs(a.x[i])))) { snprintf(t, 200, "x[%d]=%.12g instead of %.12g", i, b.x[i], a.x[i]); return t; }
    return "";
}
struct Spec { int ordP[3] = {0, 0, 0}, ordG[3] = {0, 0, 0}, ordA[3] = {0, 0, 0}; unsigned zP = 0, zG = 0, zA = 0; };
static Ccs ccs_spec(const V &M, int r, int c, const int *ord, unsigned z) { // ord[j]: which permutation (lexicographic) of the stored rows of column j; z: bitmask over zero entries (row-major) stored explicitly
    Ccs o; o.jc.push_back(0); std::vector<std::vector<int>> rows(c); int zc = 0;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { bool keep = M[i * c + j] != 0; if (!keep) { keep = z >> zc & 1; zc++; } if (keep) rows[j].push_back(i); }
    for (int j = 0; j < c; j++) { for (int k = 0; k < ord[j]; k++) std::next_permutation(rows[j].begin(), rows[j].end()); for (int i : rows[j]) { o.ir.push_back(i); o.pr.push_back(M[i * c + j]); } o.jc.push_back((qp_int)o.ir.size()); }
    o.ir.reserve(o.ir.size() + 1); o.pr.reserve(o.pr.size() + 1); return o;
}
static Res solve_spec(const Prob &q, const Spec &s, const Opt &o) {
    Ccs P = ccs_spec(q.P, q.n, q.n, s.ordP, s.zP), G = ccs_spec(q.G, q.m, q.n, s.ordG, s.zG), A; V c = q.c, h = q.h, b = q.b; if (q.p) A = ccs_spec(q.A, q.p, q.n, s.ordA, s.zA);
    QP *Qp = QP_SETUP(q.n, q.m, q.p, P.jc.data(), P.ir.data(), P.pr.data(), q.p ? A.jc.data() : nullptr, q.p ? A.ir.data() : nullptr, q.p ? A.pr.data() : nullptr, G.jc.data(), G.ir.data(), G.pr.data(), c.data(), h.data(), q.p ? b.data() : nullptr, 0.0, nullptr);
    Qp->options->maxit = o.maxit; Qp->options->reltol = o.reltol; Qp->options->abstol = o.abstol; Res r; r.ret = QP_SOLVE(Qp); r.flag = Qp->stats->Flag; r.it = Qp->stats->IterationCount; r.fval = Qp->stats->fval;
    r.x.assign(Qp->x, Qp->x + q.n); r.z.assign(Qp->z, Qp->z + q.m); r.s.assign(Qp->s, Qp->s + q.m); QP_CLEANUP(Qp); return r;
}
static long fact(size_t k) { return k < 2 ? 1 : (long)k * fact(k - 1); }
static void nulls(const Prob &q, const Res &ref, bool reg) { // p = 0: absent equalities in every spelling; junk data behind unused pointers must not be read
    V c = q.c, h = q.h, jb(8, NAN), jA((size_t)8 * q.n, NAN); std::vector<qp_int> jj(q.n + 1, -999), ji(8, -999); V cp = q.c;
    auto col = [&](const V &M, int r, int cc) { V o(M.size()); for (int i = 0; i < r; i++) for (int j = 0; j < cc; j++) o[(size_t)j * r + i] = M[(size_t)i * cc + j]; return o; };
    for (int w = 0; w < 8 + 32; w++) {
        QP *Q = nullptr; Res r; Prob t = q; char lab[120]; Ccs P, G; V Pd, Gd; bool dense = w < 8;
        if (dense) {
            int pp = w & 1 ? 2 : 0; bool a = w & 2, b = w & 4; if (pp && a && b) continue; for (int ord : {20, 30}) {
            snprintf(lab, 120, "dense %s p=%d A=%s b=%s", ord == 20 ? "row" : "col", pp, a ? "non-NULL" : "NULL", b ? "non-NULL" : "NULL"); detail("%s", lab);
            Pd = ord == 20 ? q.P : col(q.P, q.n, q.n); Gd = ord == 20 ? q.G : col(q.G, q.m, q.n);
            Q = QP_SETUP_dense(q.n, q.m, pp, Pd.data(), a ? jA.data() : nullptr, Gd.data(), c.data(), h.data(), b ? jb.data() : nullptr, nullptr, ord); r.ret = QP_SOLVE(Q); r.fval = Q->stats->fval; r.x.assign(Q->x, Q->x + q.n); QP_CLEANUP_dense(Q);
            count("evaluations"); count("null_variants"); std::string e = agree(q, ref, r, reg, 1e-4, 1e-2, reg); if (!e.empty()) violation("absent equalities expressed as %s: %s | %s", lab, e.c_str(), show(q).c_str()); }
        } else {
            int v = w - 8; int pp = v & 1 ? 2 : 0; bool a1 = v & 2, a2 = v & 4, a3 = v & 8, b = v & 16; if (pp && a1 && a2 && a3 && b) continue;
            snprintf(lab, 120, "sparse p=%d Ajc=%s Air=%s Apr=%s b=%s", pp, a1 ? "set" : "NULL", a2 ? "set" : "NULL", a3 ? "set" : "NULL", b ? "set" : "NULL"); detail("%s", lab);
            P = to_ccs(q.P, q.n, q.n); G = to_ccs(q.G, q.m, q.n);
            Q = QP_SETUP(q.n, q.m, pp, P.jc.data(), P.ir.data(), P.pr.data(), a1 ? jj.data() : nullptr, a2 ? ji.data() : nullptr, a3 ? jA.data() : nullptr, G.jc.data(), G.ir.data(), G.pr.data(), c.data(), h.data(), b ? jb.data() : nullptr, 0.0, nullptr); r.ret = QP_SOLVE(Q); r.fval = Q->stats->fval; r.x.assign(Q->x, Q->x + q.n); QP_CLEANUP(Q);
            count("evaluations"); count("null_variants"); std::string e = agree(q, ref, r, reg, 1e-4, 1e-2, reg); if (!e.empty()) violation("absent equalities expressed as %s: %s | %s", lab, e.c_str(), show(q).c_str());
        }
    }
}
// does symbolic elimination of the KKT matrix in this order meet an exactly zero pivot (arithmetic modulo a prime, generic scaling block)?
static bool zero_pivot(const IntQP &q, const std::vector<qp_int> &pm) {
    typedef unsigned long long u; const u M = 2305843009213693951ULL; auto mul = [&](u a, u b) { return (u)((unsigned __int128)a * b % M); };
    auto lift = [&](int v) { return v < 0 ? M - (u)(-v) : (u)v; }; auto inv = [&](u a) { u r = 1, e = M - 2; while (e) { if (e & 1) r = mul(r, a); a = mul(a, a); e >>= 1; } return r; };
    int n = q.n, p = q.p, m = q.m, N = n + p + m; static const u w[] = {1000003, 7368787, 15485863, 32452843, 49979687}; u K[12][12]; memset(K, 0, sizeof K);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) K[i][j] = lift(q.P[i * n + j]);
    for (int i = 0; i < p; i++) for (int j = 0; j < n; j++) K[n + i][j] = K[j][n + i] = lift(q.A[i * n + j]);
    for (int i = 0; i < m; i++) { for (int j = 0; j < n; j++) K[n + p + i][j] = K[j][n + p + i] = lift(q.G[i * n + j]); K[n + p + i][n + p + i] = M - w[i]; }
    for (int k = 0; k < N; k++) { int a = (int)pm[k]; u d = K[a][a]; if (!d) return true; u id = inv(d); for (int i = k + 1; i < N; i++) { int r = (int)pm[i]; if (!K[r][a]) continue; u f = mul(K[r][a], id); for (int j = k + 1; j < N; j++) { int c = (int)pm[j]; if (K[a][c]) K[r][c] = (K[r][c] + M - mul(f, K[a][c])) % M; } } }
    return false;
}
// objective, variables, rows
static const double UNITS[][3] = {{1000, 1, 1}, {1, 100, 1}, {1, 0.01, 1}, {1, 1, 0.01}, {1, 1, 100}, {10, 10, 10}, {1000, 100, 1}};
static Res unscale(Res r, const double *c) { r.fval /= c[0]; for (auto &e : r.x) e /= c[1]; return r; }
int main(int argc, char **argv) {
    std::vector<Family> F; int prop = argc > 1 ? atoi(argv[1]) : 4; argc--; argv++;
    bool TH = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"); for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "thorough")) TH = true;
    auto *SM = new std::vector<SCase>(structured_menu(TH));
    auto *U110 = new Universe(1, 1, 0, -1, 2), *U120 = new Universe(1, 2, 0, -1, 2), *U111 = new Universe(1, 1, 1, -1, 2), *U130 = new Universe(1, 3, 0, -1, 1), *U121 = new Universe(1, 2, 1, -1, 2);
    auto *U210 = new Universe(2, 1, 0, -1, 2), *U220 = new Universe(2, 2, 0, -1, 1), *U211 = new Universe(2, 1, 1, -1, 1), *U230 = new Universe(2, 3, 0, -1, 1), *U221 = new Universe(2, 2, 1, -1, 1, -1, 1);
    auto *S3 = new Strata3(3, 2, TH); auto *S4 = new Strata3(4, 2, false);
    auto U = [&](const char *nm, Universe *u, std::function<void(const IntQP &, long)> fn, long stride = 1) { F.push_back({nm, [=](bool) { return (u->size() + stride - 1) / stride; }, [=](long k) { fn(u->get(k * stride), k * stride); }, 256}); };
    auto more = [&](std::function<void(const IntQP &, long)> fn, long k) { U("n1m4p0", new Universe(1, 4, 0, -1, 1), fn, k * (TH ? 1 : 3)); U("n1m3p1", new Universe(1, 3, 1, -1, 1), fn, k * (TH ? 1 : 5)); U("n1m1p2", new Universe(1, 1, 2, -1, 1), fn, k); U("n1m1p3", new Universe(1, 1, 3, -1, 1), fn, k * (TH ? 1 : 7)); U("n2m1p2", new Universe(2, 1, 2, -1, 1, -1, 1), fn, k * (TH ? 5 : 41)); U("n2m4p0", new Universe(2, 4, 0, -1, 1, -1, 1), fn, k * (TH ? 151 : 1201)); U("n2m3p1", new Universe(2, 3, 1, -1, 1, -1, 1), fn, k * (TH ? 151 : 1201)); };
    auto rep3 = [](const IntQP &q) { auto row = [&](int i) { return (q.G[2 * i] + 1) * 9 + (q.G[2 * i + 1] + 1) * 3 + q.h[i] + 1; }; return row(0) <= row(1) && row(1) <= row(2); };
    auto *U100 = new Universe(1, 0, 0, -2, 2), *U101 = new Universe(1, 0, 1, -2, 2), *U200 = new Universe(2, 0, 0, -2, 2), *U201 = new Universe(2, 0, 1, -1, 1), *U202 = new Universe(2, 0, 2, -1, 1), *U301 = new Universe(3, 0, 1, -1, 1, -1, 1);
    if (prop == 4) {
        auto fmts = [](const IntQP &iq, long) {
            Exact E = analyse(iq, true); if (!E.wellposed() && E.feasible && !E.unbounded) { count("skipped_not_wellposed"); return; } Prob q = from_int(iq);
            bool inf = !E.wellposed(); if (inf && !(E.feasible == false)) return; // infeasible ones: only the exit code is compared
            sample(show(q)); Res ref = solve1(q, F_CCS); if (inf && ref.ret == 0) return; bool reg = !inf && regular(iq, E);
            for (int f = 0; f < F_NFMT; f++) { detail("%s", fmt_name(f)); Res r = solve1(q, f); count("evaluations"); if (ref.it > 0) count("nontrivial"); std::string e = agree(q, ref, r, E.unique, 1e-4, reg ? 1e-2 : 5e-2, inf || reg);
                if (inf) { if (r.ret == 0) { Kkt kk = kkt_eval(q, r); if (!(kk.big < 1e6L)) e = ""; } }
                if (!e.empty()) violation("%s differs from plain compressed columns: %s | %s", fmt_name(f), e.c_str(), show(q).c_str()); }
            if (!inf && q.p == 0 && E.unique) nulls(q, ref, reg);
        };
        U("n1m0p0", U100, fmts); U("n1m0p1", U101, fmts); U("n2m0p0", U200, fmts); U("n2m0p1", U201, fmts); U("n2m0p2", U202, fmts); U("n3m0p1", U301, fmts);
        U("n1m1p0", U110, fmts); U("n1m2p0", U120, fmts); U("n1m1p1", U111, fmts); U("n1m3p0", U130, fmts); U("n1m2p1", U121, fmts); U("n2m1p0", U210, fmts); U("n2m1p1", U211, fmts); U("n2m2p0-formats", U220, fmts, TH ? 1 : 7);
        U("n2m2p1-formats", U221, fmts, TH ? 1 : 11);
        more(fmts, 1);
        F.push_back({"n2m3p0-formats", [=](bool) { return U230->size() / (TH ? 1 : 3); }, [=](long k) { IntQP q = U230->get(k * (TH ? 1 : 3)); if (!rep3(q)) return; fmts(q, k); }, 1024});
        // every row order inside every column x every subset of explicitly stored zeros
        auto spec = [TH](const IntQP &iq, long k) {
            Exact E = analyse(iq); if (!E.wellposed()) return; Prob q = from_int(iq); bool reg = regular(iq, E); if (q.n >= 3 && !reg) return; sample(show(q)); Spec z0; Opt o; Res ref = solve_spec(q, z0, o); count("evaluations");
            auto cmp = [&](const Spec &s, const char *w) { Res r = solve_spec(q, s, o); count("evaluations"); if (ref.it > 0) count("nontrivial"); std::string e = agree(q, ref, r, E.unique, 1e-4, reg ? 1e-2 : 5e-2, reg); if (!e.empty()) violation("%s P orders %d,%d,%d zeros %x G orders %d,%d,%d zeros %x A orders %d,%d,%d zeros %x: %s | %s", w, s.ordP[0], s.ordP[1], s.ordP[2], s.zP, s.ordG[0], s.ordG[1], s.ordG[2], s.zG, s.ordA[0], s.ordA[1], s.ordA[2], s.zA, e.c_str(), show(q).c_str()); };
            auto nz = [](const V &M) { int c = 0; for (double d : M) c += d == 0; return c; };
            auto cc = [](const V &M, int r, int c, int j) { size_t t = 0; for (int i = 0; i < r; i++) t += M[i * c + j] != 0; return t; };
            int zp = nz(q.P), zg = nz(q.G), za = q.p ? nz(q.A) : 0, zt = zp + zg + za;
            // orders
            long lim[9]; for (int j = 0; j < 3; j++) { lim[j] = j < q.n ? fact(cc(q.P, q.n, q.n, j)) : 1; lim[3 + j] = j < q.n ? fact(cc(q.G, q.m, q.n, j)) : 1; lim[6 + j] = j < q.n && q.p ? fact(cc(q.A, q.p, q.n, j)) : 1; }
            long tot = 1; for (long l : lim) tot *= l;
            for (long t = 1; t < tot; t++) { Spec s; long u = t; for (int i = 0; i < 9; i++) { int v = (int)(u % lim[i]); u /= lim[i]; (i < 3 ? s.ordP[i] : i < 6 ? s.ordG[i - 3] : s.ordA[i - 6]) = v; } cmp(s, "row order:"); }
            // stored zeros: all subsets (capped by enumeration width), alternating ascending and reversed rows
            unsigned W = zt > (TH ? 9 : 6) ? (1u << (TH ? 9 : 6)) : (1u << zt);
            for (unsigned mm = 1; mm < W; mm++) { unsigned z = mm; if (W < (1u << zt)) { unsigned e = 0; for (int b = 0; b < (TH ? 9 : 6); b++) if (mm >> b & 1) e |= 1u << ((b * 7 + (unsigned)k) % zt); z = e; } Spec s; s.zP = z & ((1u << zp) - 1); s.zG = z >> zp & ((1u << zg) - 1); s.zA = z >> (zp + zg);
                cmp(s, "stored zeros:"); if (q.n < 3 || (mm & 3) == 3) { for (int j = 0; j < q.n; j++) { s.ordG[j] = 1 + (mm & 1); s.ordP[j] = mm >> 1 & 1; } cmp(s, "stored zeros + order:"); } }
        };
        U("n2m0p1-orders", U201, spec, 3); U("n2m0p2-orders", U202, spec, TH ? 1 : 29);
        U("n1m2p0-orders", U120, spec); U("n1m3p0-orders", U130, spec); U("n1m2p1-orders", U121, spec, TH ? 1 : 3); U("n2m1p1-orders", U211, spec, TH ? 1 : 5); U("n2m2p0-orders", U220, spec, TH ? 1 : 3); U("n2m2p1-orders", U221, spec, TH ? 3 : 41); F.push_back({"n2m3p0-orders", [=](bool) { return U230->size() / 7; }, [=](long k) { IntQP q = U230->get(k * 7); if (!rep3(q)) return; spec(q, k); }, 1024});
        F.push_back({"n3m3-orders", [=](bool) { return S3->size() / (TH ? 61 : 613); }, [=](long k) { spec(S3->get(k * (TH ? 61 : 613)), k); }, 4});
        { auto *SW = new std::vector<SCase>(sweep_menu(TH)); F.push_back({"sizes", [=](bool) { return (long)SW->size(); }, [=](long k) { auto &s = (*SW)[k]; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); Res ref = solve1(q, F_CCS); count("evaluations"); if (ref.it > 0) count("nontrivial", 2); for (int f : {(int)(k % 2), 3 + (int)(k % 4)}) { detail("%s", fmt_name(f)); Res r = solve1(q, f); count("evaluations"); std::string e = agree(q, ref, r, q.unique, 1e-4, 1e-2); if (!e.empty()) violation("%s differs from plain compressed columns: %s | %s", fmt_name(f), e.c_str(), show(q).c_str()); } }, 8}); }
        F.push_back(big::family(TH, [](const big::Prob &q, int kind, long) { big::Inst I(q, false), J(q, true); Res a = I.solve(), b = J.solve(); count("evaluations"); Prob t; t.n = q.n; std::string e = agree(t, a, b, true, 1e-6, 1e-3); if (!e.empty()) violation("rows in descending order differ from ascending ones: %s | %s", e.c_str(), q.tag.c_str());
            if (q.n > 20000 || (kind == 5 && q.n > 5001)) return; // the additional pattern causes fill-in
            big::Prob z = q; for (auto *v : {&z.P, &z.G, &z.A}) { int r = v == &z.P ? q.n : v == &z.G ? q.m : q.p; std::vector<std::vector<int>> C(q.n); for (auto &x : *v) C[x.j].push_back(x.i); for (int j = 0; j < q.n && r; j++) { int i = (int)((j * 7L + 3) % r); if (std::find(C[j].begin(), C[j].end(), i) == C[j].end() && j % 5 == 0 && (v != &z.P || std::abs(i - j) < 3)) v->push_back({i, j, 0.}); if (v == &z.P && j % 3 == 0 && j + 2 < q.n) { v->push_back({j + 2, j, 0.}); v->push_back({j, j + 2, 0.}); } } std::sort(v->begin(), v->end(), [](const big::Trip &a, const big::Trip &b) { return a.j != b.j ? a.j < b.j : a.i != b.i ? a.i < b.i : fabs(a.v) > fabs(b.v); }); v->erase(std::unique(v->begin(), v->end(), [](const big::Trip &a, const big::Trip &b) { return a.j == b.j && a.i == b.i; }), v->end()); }
            big::Inst K(z, false); Res c = K.solve(); count("evaluations"); e = agree(t, a, c, true, 1e-6, 1e-3); if (!e.empty()) violation("stored zeros change the answer: %s | %s", e.c_str(), q.tag.c_str()); }));
        // the same in other units: tiny and large entries must survive every conversion; answers are compared in the original units
        auto units4 = [](const Prob &q, long k, bool uniq, double tx) { (void)k; int w = 0;
            for (auto &c : UNITS) { w++; Prob t = rescale(q, c[0], c[1], c[2]); Res ref = unscale(solve1(t, F_CCS), c); count("evaluations"); if (ref.it > 0) count("nontrivial", F_NFMT - 1);
                for (int f = 0; f < F_NFMT; f++) if (f != F_CCS && (q.n < 8 || (f + k + w) % 2)) { detail("%s", fmt_name(f)); Res r = unscale(solve1(t, f), c); count("evaluations"); count("rescaled"); std::string e = agree(q, ref, r, uniq, 1e-3, tx); if (!e.empty()) violation("%s differs from plain compressed columns: %s | %s", fmt_name(f), e.c_str(), show(t).c_str()); } } };
        auto uni4 = [=](const IntQP &iq, long k) { Exact E = analyse(iq); if (!E.wellposed() || !regular(iq, E)) return; Prob q = from_int(iq); sample(show(q)); units4(q, k, true, 3e-2); };
        U("n1m2p0-units", U120, uni4); U("n1m1p1-units", U111, uni4); U("n2m0p1-units", U201, uni4); U("n2m1p1-units", U211, uni4, TH ? 1 : 3); U("n2m2p0-units", U220, uni4, TH ? 1 : 5); U("n2m2p1-units", U221, uni4, TH ? 11 : 61);
        F.push_back({"structured-units", [=](bool) { return (long)SM->size(); }, [=](long k) { auto &s = (*SM)[k]; if (s.N > (TH ? 65 : 33) && !cheap(s)) return; Prob q = structured(s.kind, s.N, s.pat); if (!q.unique) return; sample(q.tag); units4(q, k, true, 3e-2); }, 1});
        F.push_back({"structured", [=](bool) { return (long)SM->size(); }, [=](long k) { auto &s = (*SM)[k]; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); Res ref = solve1(q, F_CCS); count("evaluations"); if (ref.it > 0) count("nontrivial", F_NFMT - 1);
            for (int f = 0; f < F_NFMT; f++) if (f != F_CCS) { detail("%s", fmt_name(f)); Res r = solve1(q, f); count("evaluations"); std::string e = agree(q, ref, r, q.unique, 1e-4, 1e-2); if (!e.empty()) violation("%s differs from plain compressed columns: %s | %s", fmt_name(f), e.c_str(), show(q).c_str()); }
            if (q.p == 0 && s.N <= 12) nulls(q, ref, q.unique); }, 1});
    }
    if (prop == 5) {
        auto tryperm = [](const Prob &q, const Res &ref, const std::vector<qp_int> &pm, int f, bool uniq, double tx, bool zp = false) {
            if (W >= 0) { std::string s; for (size_t i = 0; i < pm.size() && i < 40; i++) s += (i ? "," : "") + std::to_string(pm[i]); detail("%s permutation [%s]", fmt_name(f), s.c_str()); }
            Inst I(q, f, Opt(), &pm); Res r = I.solve(); I.cleanup(); count("evaluations"); if (ref.it > 0) count("nontrivial");
            if (I.perm != pm) violation("the caller's permutation vector was modified | %s", show(q).c_str());
            if (zp) { count("zero_pivot_orders"); if (r.ret != 0 && ref.ret == 0) { count("zero_pivot_orders_not_solved"); return; } } // static regularisation may lose accuracy there: only a reported optimum is compared
            std::string e = agree(q, ref, r, uniq, 1e-4, tx); if (!e.empty()) violation("differs from the built-in ordering: %s | %s", e.c_str(), show(q).c_str());
            if (r.ret == 0) { std::string c = cert(q, r, Opt()); if (!c.empty()) violation("%s | %s", c.c_str(), show(q).c_str()); }
        };
        auto all = [=](const IntQP &iq, long k) {
            Exact E = analyse(iq); if (!E.wellposed()) return; bool reg = regular(iq, E); if (!reg) return; Prob q = from_int(iq); sample(show(q)); count("problems");
            int N = q.n + q.m + q.p; Res ref = solve1(q, F_ROW); std::vector<qp_int> pm(N); for (int i = 0; i < N; i++) pm[i] = i; long t = 0;
            do tryperm(q, ref, pm, (int)((k + t++) % F_NFMT), true, 1e-2, q.n >= 3 && zero_pivot(iq, pm)); while (std::next_permutation(pm.begin(), pm.end()));
        };
        U("n1m0p0", U100, all); U("n1m0p1", U101, all); U("n2m0p0", U200, all); U("n2m0p1", U201, all); U("n2m0p2", U202, all); U("n3m0p1", U301, all);
        U("n1m1p0", U110, all); U("n1m2p0", U120, all); U("n1m1p1", U111, all); U("n1m3p0", U130, all); U("n1m2p1", U121, all, TH ? 1 : 3); U("n2m1p0", U210, all); U("n2m1p1", U211, all, TH ? 1 : 3); U("n2m2p0", U220, all, TH ? 1 : 5); U("n2m2p1", U221, all, TH ? 29 : 41);
        more(all, 5);
        F.push_back({"n2m3p0", [=](bool) { return U230->size() / (TH ? 5 : 11); }, [=](long k) { IntQP q = U230->get(k * (TH ? 5 : 11)); if (!rep3(q)) return; all(q, k); }, 256});
        F.push_back({"n3m3", [=](bool) { return S3->size() / (TH ? 211 : 1499); }, [=](long k) { all(S3->get(k * (TH ? 211 : 1499)), k); }, 4});
        if (TH) F.push_back({"n3m4", [=](bool) { return S4->size() / 19997; }, [=](long k) { all(S4->get(k * 19997), k); }, 2});
        { auto *SW = new std::vector<SCase>(sweep_menu(TH)); F.push_back({"sizes", [=](bool) { return (long)SW->size(); }, [=](long k) { auto &s = (*SW)[k]; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); int N = q.n + q.m + q.p; Res ref = solve1(q, F_CCS); for (int w = 0; w < 2; w++) { std::vector<qp_int> pm(N); int st = 7; while (std::__gcd(st, N) != 1) st++; for (int i = 0; i < N; i++) pm[i] = s.kind == 11 && N > (TH ? 300 : 150) ? (w ? (i < N - 1 ? N - 1 - i : 0) : (i + 1) % N) : w ? (i + q.n + k) % N : s.kind == 6 ? N - 1 - i : (i * (long)st + 1) % N; tryperm(q, ref, pm, (int)((k + w) % F_NFMT), q.unique, 1e-2); } }, 8}); }
        F.push_back(big::family(TH, [](const big::Prob &q, int kind, long k) { Prob t; t.n = q.n; Res ref; for (int pm : big::perms(q, kind)) { big::Inst I(q, k & 1, pm); Res r = I.solve(); if (pm) count("evaluations"); if (!pm) { ref = r; continue; } detail("permutation %s", pm == 1 ? "reversed" : "inequalities first"); auto bad = agree(t, ref, r, true, 1e-5, 1e-2); if (bad.empty()) bad = big::judge(q, r, false); if (!bad.empty()) violation("differs from the built-in ordering: %s | %s", bad.c_str(), q.tag.c_str()); for (size_t i = 0; i < I.pm.size(); i++) if (I.pm[i] != (pm == 1 ? (qp_int)(I.pm.size() - 1 - i) : (qp_int)(i < (size_t)q.m ? q.n + q.p + i : i - q.m))) { violation("the caller's permutation vector was modified | %s", q.tag.c_str()); break; } } }));
        auto units5 = [=](const IntQP &iq, long k) {
            Exact E = analyse(iq); if (!E.wellposed()) return; if (!regular(iq, E)) return; Prob q = from_int(iq); sample(show(q)); count("problems"); int N = q.n + q.m + q.p;
            for (auto &c : UNITS) { Prob t = rescale(q, c[0], c[1], c[2]); Res ref = unscale(solve1(t, F_ROW), c); std::vector<qp_int> pm(N); for (int i = 0; i < N; i++) pm[i] = i; long n = 0;
                do { if (n++ % 24 && N > 4 && n % 7 != k % 7) continue; detail("%s", show(t).c_str()); std::vector<qp_int> p0 = pm; Inst I(t, (int)((k + n) % F_NFMT), Opt(), &pm); Res r = unscale(I.solve(), c); I.cleanup(); count("evaluations"); count("rescaled"); if (ref.it > 0) count("nontrivial"); if (I.perm != p0) violation("the caller's permutation vector was modified | %s", show(t).c_str());
                    std::string e = agree(q, ref, r, true, 1e-3, 3e-2); if (!e.empty()) { std::string ps; for (auto x : pm) ps += std::to_string(x) + ","; violation("differs from the built-in ordering: %s | permutation %s %s", e.c_str(), ps.c_str(), show(t).c_str()); } } while (std::next_permutation(pm.begin(), pm.end())); } };
        U("n1m2p0-units", U120, units5, TH ? 1 : 3); U("n1m1p1-units", U111, units5, TH ? 1 : 3); U("n2m1p0-units", U210, units5, TH ? 1 : 11); U("n2m1p1-units", U211, units5, TH ? 3 : 31); U("n2m2p0-units", U220, units5, TH ? 3 : 61); U("n2m2p1-units", U221, units5, TH ? 61 : 607);
        F.push_back({"structured", [=](bool) { return (long)SM->size(); }, [=](long k) { auto &s = (*SM)[k]; if (s.N > (TH ? 130 : 65) && !cheap(s)) return; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); int N = q.n + q.m + q.p; Res ref = solve1(q, F_ROW); int nw = N > 150 ? 3 : N > 60 ? 6 : 10;
            for (int w = 0; w < nw; w++) { std::vector<qp_int> pm(N); for (int i = 0; i < N; i++) pm[i] = w == 0 ? N - 1 - i : w == 1 ? i : w == 2 ? (i + q.n) % N : w == 3 ? (i % 2 ? N - 1 - i / 2 : i / 2) : w == 4 ? (i + q.n + q.p) % N : w == 5 ? (i + N - q.m) % N : w == 6 ? (q.n + i < N ? q.n + i : N - 1 - i) : i;
                if (w == 6) { for (int i = 0; i < N; i++) pm[i] = (i < N - q.n) ? N - 1 - i : i - (N - q.n); }
                if (w >= 7) { int st = w == 7 ? 3 : w == 8 ? 7 : 11; while (std::__gcd(st, N) != 1) st++; for (int i = 0; i < N; i++) pm[i] = (i * (long)st + w) % N; }
                tryperm(q, ref, pm, (int)((k + w) % F_NFMT), q.unique, 1e-2); } }, 1});
    }
    return main_(argc, argv, F);
}
