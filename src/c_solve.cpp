// C01 (exit 0 is certified), C02 (well-posed QPs are solved), C03 (infeasible/unbounded never optimal)
#include "prob.hpp"
#include "cat.hpp"
#include "big.hpp"
using namespace core;
static std::vector<Opt> menu() {
    std::vector<Opt> L; Opt d; L.push_back(d);
    auto add = [&](long mi, double rt, double at, double sg, double sd) { Opt o; o.maxit = mi; o.reltol = rt; o.abstol = at; o.sigma = sg; o.sigma_d = sd; L.push_back(o); };
    add(100, 1e-9, 1e-9, 100, 0); add(100, 1e-3, 1e-9, 100, 0); add(100, 1e-9, 1e-3, 100, 0); add(100, 1e-2, 1e-2, 100, 0); add(100, 1e-6, 1e-6, 1e-3, 0);
    add(100, 1e-6, 1e-6, 100, 0.2); add(100, 1e-6, 1e-6, 0.1, 0.3); add(4, 1e-4, 1e-4, 100, 0); add(7, 1e-6, 1e-6, 100, 0); add(199, 1e-8, 1e-5, 1, 0.05); add(100, 1e-4, 1e-6, 1e10, 1e-3);
    return L;
}
static const std::vector<Opt> OM = menu();
static std::string ostr(const Opt &o) { char b[200]; snprintf(b, 200, "maxit=%ld reltol=%g abstol=%g sigma=%g sigma_d=%g", o.maxit, o.reltol, o.abstol, o.sigma, o.sigma_d); return b; }
static long evals = 0;
// ---------------------------------------------------------------- C01
static Res c01(const Prob &q, int f, const Opt &o) {
    detail("%s; %s", fmt_name(f), ostr(o).c_str());
    Res r = solve1(q, f, o); count("evaluations");
    if (r.ret == 0) { count("exit0"); maxc("max_iterations", r.it); std::string e = cert(q, r, o); if (!e.empty()) violation("%s | %s", e.c_str(), show(q).c_str()); if (r.it > 0) count("nontrivial"); }
    else count(r.ret == 2 ? "exit2" : "exit_other");
    return r;
}
// tolerances placed just under / just over the residuals of every iterate of the trajectory
static void boundary(const Prob &q, int f) {
    std::vector<Kkt> K; Opt o; Res full = solve1(q, f, o); int N = (int)std::min(full.it, 30L); if (full.ret != 0) return;
    for (int k = 0; k <= N; k++) { Opt ok; ok.maxit = k; ok.reltol = ok.abstol = 1e-300; K.push_back(kkt_eval(q, solve1(q, f, ok))); count("evaluations"); }
    for (int k = 0; k <= N; k++) for (int w = 0; w < 4; w++) {
        ld v = w == 0 ? K[k].rx : w == 1 ? K[k].rz : w == 2 ? K[k].ry : K[k].mu; if (!(v > 1e-10L) || v > 1e3L) continue; if (w == 2 && !q.p) continue;
        Opt b; b.reltol = w < 3 ? (double)(v * (1 - 1e-5L)) : 1e3; b.abstol = w < 3 ? 1e6 : (double)(v * (1 - 1e-5L));
        c01(q, f, b); count("boundary_settings");
    }
}
static void add_universe(std::vector<Family> &F, const char *nm, Universe *U, std::function<void(const IntQP &, long)> fn, bool only_thorough = false) {
    F.push_back({nm, [=](bool t) { return only_thorough && !t ? 0 : U->size(); }, [=](long k) { IntQP q = U->get(k); fn(q, k); }, 512});
}
int main(int argc, char **argv) {
    std::vector<Family> F; int prop = argc > 1 ? atoi(argv[1]) : 1; argc--; argv++;
    (void)evals;
    bool TH = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"); for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "thorough")) TH = true;
    auto *SM = new std::vector<SCase>(structured_menu(TH));
    auto *U110 = new Universe(1, 1, 0, -1, 2), *U120 = new Universe(1, 2, 0, -1, 2), *U130 = new Universe(1, 3, 0, -1, 2), *U111 = new Universe(1, 1, 1, -1, 2), *U121 = new Universe(1, 2, 1, -1, 2);
    auto *U210 = new Universe(2, 1, 0, -1, 2), *U220s = new Universe(2, 2, 0, -1, 1), *U220 = new Universe(2, 2, 0, -1, 2), *U211 = new Universe(2, 1, 1, -1, 1), *U230 = new Universe(2, 3, 0, -1, 1), *U221 = new Universe(2, 2, 1, -1, 1, -1, 1), *U221b = new Universe(2, 2, 1, -1, 1);
    auto *S3 = new Strata3(3, 2, TH), *S4 = new Strata3(4, 2, false);
    auto *U100 = new Universe(1, 0, 0, -2, 2), *U101 = new Universe(1, 0, 1, -2, 2), *U200 = new Universe(2, 0, 0, -2, 2), *U201 = new Universe(2, 0, 1, -1, 1), *U202 = new Universe(2, 0, 2, -1, 1), *U301 = new Universe(3, 0, 1, -1, 1, -1, 1);
    // more rows than variables, up to three equalities on one or two variables and five inequalities on one
    auto rows = [&](std::function<void(const IntQP &, long)> fn) { struct X { const char *nm; Universe *u; long sq, st; };
        for (auto &x : std::vector<X>{{"n1m0p2", new Universe(1, 0, 2, -1, 2), 1, 1}, {"n1m1p2", new Universe(1, 1, 2, -1, 1), 1, 1}, {"n1m2p2", new Universe(1, 2, 2, -1, 1), 11, 1}, {"n1m0p3", new Universe(1, 0, 3, -1, 1), 1, 1}, {"n1m1p3", new Universe(1, 1, 3, -1, 1), 7, 1}, {"n2m1p2", new Universe(2, 1, 2, -1, 1, -1, 1), 41, 3}, {"n2m0p3", new Universe(2, 0, 3, -1, 1, -1, 1), 41, 3}, {"n2m1p3", new Universe(2, 1, 3, -1, 1, 0, 1), 701, 53}, {"n1m4p0", new Universe(1, 4, 0, -1, 1), 3, 1}, {"n1m5p0", new Universe(1, 5, 0, -1, 1), 19, 1}, {"n1m3p1", new Universe(1, 3, 1, -1, 1), 3, 1}, {"n2m4p0", new Universe(2, 4, 0, -1, 1, -1, 1), 601, 41}, {"n2m3p1", new Universe(2, 3, 1, -1, 1, -1, 1), 601, 41}})
            F.push_back({x.nm, [=](bool) { return x.u->size() / (TH ? x.st : x.sq); }, [=](long k) { fn(x.u->get(k * (TH ? x.st : x.sq)), k); }, 256}); };
    if (prop == 1) {
        auto all = [](const IntQP &iq, long) { Prob q = from_int(iq); sample(show(q)); for (int f = 0; f < F_NFMT; f++) for (auto &o : OM) c01(q, f, o); };
        auto opts = [](const IntQP &iq, long k) { Prob q = from_int(iq); sample(show(q)); int i = 0; for (auto &o : OM) c01(q, (int)((k + i++) % F_NFMT), o); };
        auto one = [](const IntQP &iq, long k) { Prob q = from_int(iq); sample(show(q)); c01(q, (int)(k % F_NFMT), OM[0]); c01(q, (int)((k + 3) % F_NFMT), OM[1 + k % (OM.size() - 1)]); };
        add_universe(F, "n1m0p0", U100, opts); add_universe(F, "n1m0p1", U101, opts); add_universe(F, "n2m0p0", U200, opts); add_universe(F, "n2m0p1", U201, opts); add_universe(F, "n2m0p2", U202, opts); add_universe(F, "n3m0p1", U301, opts);
        add_universe(F, "n1m1p0", U110, all); add_universe(F, "n1m2p0", U120, all); add_universe(F, "n1m1p1", U111, all);
        add_universe(F, "n1m3p0", U130, opts); add_universe(F, "n1m2p1", U121, opts); add_universe(F, "n2m1p0", U210, opts); add_universe(F, "n2m1p1", U211, opts); add_universe(F, "n2m2p0", U220s, opts);
        rows(one);
        F.push_back({"n2m3p0", [=](bool) { return U230->size(); }, [=](long k) { IntQP q = U230->get(k); // quick: one representative per row multiset, thorough: all
            auto row = [&](int i) { return (q.G[2 * i] + 1) * 9 + (q.G[2 * i + 1] + 1) * 3 + q.h[i] + 1; }; if (!TH && (row(0) > row(1) || row(1) > row(2))) return; one(q, k); }, 2048});
        add_universe(F, "n2m2p1", TH ? U221b : U221, one);
        if (TH) add_universe(F, "n2m2p0-wide", U220, opts);
        F.push_back({"n3m3", [=](bool) { return S3->size(); }, [=](long k) { Prob q = from_int(S3->get(k)); if (!TH && q.c[0] < 0) return; sample(show(q)); if (TH) { c01(q, (int)(k % F_NFMT), OM[0]); c01(q, (int)((k + 3) % F_NFMT), OM[1 + k % (OM.size() - 1)]); } else c01(q, (int)(k % F_NFMT), OM[(k / 7) % OM.size()]); }, 512});
        F.push_back({"structured", [=](bool) { return (long)SM->size(); }, [=](long k) { auto &s = (*SM)[k]; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); int i = 0; bool small = s.N <= 12;
            for (auto &o : OM) { if (small || TH) for (int f = 0; f < F_NFMT; f++) c01(q, f, o); else c01(q, (int)((k + i++) % F_NFMT), o); } }, 1});
        { auto *SW = new std::vector<SCase>(sweep_menu(TH)); F.push_back({"sizes", [=](bool) { return (long)SW->size(); }, [=](long k) { auto &s = (*SW)[k]; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); c01(q, (int)(k % F_NFMT), OM[0]); if (TH) c01(q, (int)((k + 3) % F_NFMT), OM[1 + k % (OM.size() - 1)]); }, 8}); }
        F.push_back(big::family(TH, [](const big::Prob &q, int, long k) { big::Inst I(q, k & 1); Res r = I.solve(); if (r.ret == 0) count("exit0"); std::string e = big::judge(q, r, false); if (!e.empty()) violation("%s | %s", e.c_str(), q.tag.c_str()); }));
        { static const double SC[] = {1e-6, 1e-4, 1e-2, 1e2, 1e4, 1e6}; auto scaled = [](const Prob &q, long k) { int i = 0; for (double a : SC) for (int w = 0; w < 4; w++) { Prob t = rescale(q, w == 0 || w == 3 ? a : 1, w == 1 || w == 3 ? a : 1, w == 2 ? a : 1); if (i == k % 24) sample(show(t)); int f = (int)((k + i) % F_NFMT); c01(t, f, OM[0]); c01(t, (f + 3) % F_NFMT, OM[1 + (k + i) % (OM.size() - 1)]); i++; } };
            struct X { const char *nm; Universe *u; long st; }; for (auto &x : std::vector<X>{{"scaled-n1m2p0", U120, 5}, {"scaled-n1m1p1", U111, 5}, {"scaled-n2m2p0", U220s, 11}, {"scaled-n2m2p1", U221, 131}}) F.push_back({x.nm, [=](bool) { return x.u->size() / (TH ? 1 + x.st / 8 : x.st); }, [=](long k) { scaled(from_int(x.u->get(k * (TH ? 1 + x.st / 8 : x.st))), k); }, 64});
            F.push_back({"scaled-structured", [=](bool) { return (long)SM->size(); }, [=](long k) { auto &s = (*SM)[k]; if (s.N > (TH ? 65 : 17) && !cheap(s)) return; scaled(structured(s.kind, s.N, s.pat), k); }, 1}); }
        { auto *SV = new std::vector<std::pair<Prob, long>>(special_menu(catalogue(true), 5));
          F.push_back({"special-values", [=](bool) { return (long)SV->size(); }, [=](long k) { Prob q = special((*SV)[k].first, (*SV)[k].second); if (k % 997 == 0) sample(show(q)); for (int f = 0; f < F_NFMT; f++) { c01(q, f, OM[0]); if (TH) for (auto &o : OM) c01(q, f, o); else c01(q, f, OM[1 + (k + f) % (OM.size() - 1)]); } }, 64}); }
        F.push_back({"boundary-tiny", [=](bool) { return TH ? U220s->size() : U220s->size() / 3; }, [=](long k) { boundary(from_int(U220s->get(TH ? k : k * 3)), (int)(k % F_NFMT)); }, 64});
        F.push_back({"boundary-structured", [=](bool) { return (long)SM->size(); }, [=](long k) { auto &s = (*SM)[k]; if (s.N > (TH ? 65 : 33) && !cheap(s)) return; boundary(structured(s.kind, s.N, s.pat), (int)(k % F_NFMT)); }, 1});
    }
    if (prop == 2) {
        auto chk = [](const Prob &q, const Exact *E, const IntQP *iq, int f) {
            detail("%s default options", fmt_name(f));
            Res r = solve1(q, f); count("evaluations"); count("wellposed"); maxc("max_iterations", r.it); if (r.it > 0) count("nontrivial");
            double fs = E ? E->f.dbl() : q.fs; bool reg = E ? regular(*iq, *E) : true; V xs; if (E) for (auto &v : E->x) xs.push_back(v.dbl()); else xs = q.xs;
            auto agree = [&](const Res &r, double tf, double tx) {
                if (!(fabs(r.fval - fs) <= tf * (1 + fabs(fs)))) violation("objective %.12g differs from the exact optimum %.12g | %s | %s", r.fval, fs, shr(r).c_str(), show(q).c_str());
                if (E ? E->unique : q.unique) for (int i = 0; i < q.n; i++) if (!(fabs(r.x[i] - xs[i]) <= tx * (1 + fabs(xs[i])))) { violation("x[%d]=%.12g differs from the unique minimiser %.12g | %s | %s", i, r.x[i], xs[i], shr(r).c_str(), show(q).c_str()); break; }
            };
            if (r.ret != 0 && !reg) { // degenerate: a failure counts only if it is not an accident of rounding, i.e. equivalent formulations fail as well
                for (int w = 0; w < 8; w++) { Prob t = q; int m = q.m, n = q.n; double sc = w & 1 ? 2 : w & 2 ? 0.75 : 1;
                    for (auto &v : t.P) v *= sc; for (auto &v : t.c) v *= sc;
                    if (w & 4) for (int i = 0; i < m; i++) { t.h[i] = q.h[m - 1 - i]; for (int j = 0; j < n; j++) t.G[(size_t)i * n + j] = q.G[(size_t)(m - 1 - i) * n + j]; }
                    else if (w >= 2) for (int i = 0; i < m; i++) { t.h[i] = 3 * q.h[i]; for (int j = 0; j < n; j++) t.G[(size_t)i * n + j] = 3 * q.G[(size_t)i * n + j]; }
                    Res u = solve1(t, w < 2 ? (f + 1 + w) % F_NFMT : f); if (u.ret == 0 && fabs(u.fval - sc * fs) <= 1e-4 * (1 + fabs(sc * fs))) { count("degenerate_rounding_sensitive"); return; } }
            }
            if (r.ret != 0 || r.flag != 0) { violation("well-posed QP not solved: exit code %ld after %ld iterations (optimum %.10g) | %s", r.ret, r.it, fs, show(q).c_str()); return; }
            if (r.it > 100) violation("%ld iterations with the default limit", r.it);
            agree(r, 1e-4, reg ? 1e-2 : 5e-2);
            if (reg) { count("regular"); Opt o; o.reltol = o.abstol = 1e-8; detail("%s tolerances 1e-8", fmt_name(f)); Res t = solve1(q, f, o); count("evaluations");
                if (t.ret != 0) violation("regular QP not solved at tolerance 1e-8: exit code %ld after %ld iterations | %s", t.ret, t.it, show(q).c_str()); else agree(t, 1e-6, 1e-4); }
        };
        auto one = [=](const IntQP &iq, long k) {
            Exact E = analyse(iq); count("classified"); if (!E.wellposed()) return;
            if (!E.solved) { violation("internal: exact oracle found no optimum of a well-posed QP"); return; }
            Prob q = from_int(iq); sample(show(q)); chk(q, &E, &iq, (int)(k % F_NFMT));
        };
        // the same problems in other units
        auto units = [](const Prob &q, long k) {
            static const double SC[][3] = {{1000, 1, 1}, {100, 1, 1}, {0.1, 1, 1}, {1, 0.1, 1}, {1, 10, 1}, {1, 100, 1}, {1, 1000, 1}, {1, 1, 0.1}, {1, 1, 10}, {1, 1, 100}, {10, 10, 10}, {100, 10, 0.1}, {100, 100, 1}, {1, 100, 10}, {10000, 1, 1}, {1, 0.01, 1}, {1, 1, 1000}, {1, 1, 0.01}, {1000, 0.1, 10}, {10000, 100, 1}}; int i = 0;
            for (auto &c : SC) { Prob t = rescale(q, c[0], c[1], c[2]); int f = (int)((k + i++) % F_NFMT); detail("%s default options", fmt_name(f)); Res r = solve1(t, f); count("evaluations"); count("rescaled"); if (r.it > 0) count("nontrivial"); maxc("max_iterations", r.it);
                if (r.ret != 0 || r.flag != 0) { violation("well-posed QP not solved in other units: exit code %ld after %ld iterations | %s", r.ret, r.it, show(t).c_str()); continue; }
                if (!(fabs(r.fval - t.fs) <= 1e-3 * c[0] * (1 + fabs(q.fs)))) violation("objective %.12g differs from the exact optimum %.12g | %s | %s", r.fval, t.fs, shr(r).c_str(), show(t).c_str());
                for (int j = 0; j < q.n; j++) if (!(fabs(r.x[j] - t.xs[j]) <= 3e-2 * c[1] * (1 + fabs(q.xs[j])))) { violation("x[%d]=%.12g differs from the unique minimiser %.12g | %s | %s", j, r.x[j], t.xs[j], shr(r).c_str(), show(t).c_str()); break; } } };
        auto units1 = [=](const IntQP &iq, long k) { Exact E = analyse(iq); count("classified"); if (!E.wellposed() || !regular(iq, E)) return; Prob q = from_int(iq); q.fs = E.f.dbl(); for (auto &v : E.x) q.xs.push_back(v.dbl()); sample(show(q)); units(q, k); };
        { struct X { const char *nm; Universe *u; long st; }; for (auto &x : std::vector<X>{{"units-n1m2p0", U120, 1}, {"units-n1m1p1", U111, 1}, {"units-n1m2p1", U121, 1}, {"units-n2m0p1", U201, 1}, {"units-n2m1p1", U211, 1}, {"units-n2m2p0", U220s, 1}, {"units-n2m2p1", U221, 7}}) F.push_back({x.nm, [=](bool) { return x.u->size() / (TH ? 1 + x.st / 8 : x.st); }, [=](long k) { units1(x.u->get(k * (TH ? 1 + x.st / 8 : x.st)), k); }, 64});
          F.push_back({"units-structured", [=](bool) { return (long)SM->size(); }, [=](long k) { auto &s = (*SM)[k]; if (s.N > (TH ? 65 : 33) && !cheap(s)) return; Prob q = structured(s.kind, s.N, s.pat); if (!q.unique) return; sample(q.tag); units(q, k); }, 1}); }
        add_universe(F, "n1m0p0", U100, one); add_universe(F, "n1m0p1", U101, one); add_universe(F, "n2m0p0", U200, one); add_universe(F, "n2m0p1", U201, one); add_universe(F, "n2m0p2", U202, one); add_universe(F, "n3m0p1", U301, one);
        add_universe(F, "n1m1p0", U110, one); add_universe(F, "n1m2p0", U120, one); add_universe(F, "n1m3p0", U130, one); add_universe(F, "n1m1p1", U111, one); add_universe(F, "n1m2p1", U121, one);
        add_universe(F, "n2m1p0", U210, one); add_universe(F, "n2m1p1", U211, one); add_universe(F, "n2m2p0", U220, one);
        add_universe(F, "n2m2p1", TH ? U221b : U221, one); 
        rows(one);
        if (TH) add_universe(F, "n2m3p0", U230, one);
        else F.push_back({"n2m3p0", [=](bool) { return U230->size(); }, [=](long k) { IntQP q = U230->get(k); // row order is covered by n2m2; keep one representative per row multiset
            auto row = [&](int i) { return (q.G[2 * i] + 1) * 9 + (q.G[2 * i + 1] + 1) * 3 + q.h[i] + 1; }; if (row(0) > row(1) || row(1) > row(2)) return; one(q, k); }, 2048});
        F.push_back({"n3m3", [=](bool) { return S3->size(); }, [=](long k) { IntQP q = S3->get(k); if (!TH && (q.c[0] < 0)) return; Exact E = analyse(q); count("classified"); if (!E.wellposed() || !regular(q, E)) return; Prob pq = from_int(q); sample(show(pq)); chk(pq, &E, &q, (int)(k % F_NFMT)); }, 512});
        if (TH) F.push_back({"n3m4", [=](bool) { return S4->size(); }, [=](long k) { IntQP q = S4->get(k); Exact E = analyse(q); count("classified"); if (!E.wellposed() || !regular(q, E)) return; Prob pq = from_int(q); chk(pq, &E, &q, (int)(k % F_NFMT)); }, 512});
        F.push_back({"structured", [=](bool) { return (long)SM->size(); }, [=](long k) { auto &s = (*SM)[k]; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); chk(q, nullptr, nullptr, F_ROW); if (s.N <= 33 || TH) for (int f = 1; f < F_NFMT; f++) chk(q, nullptr, nullptr, f); }, 1});
    }
    if (prop == 2) F.push_back(big::family(TH, [](const big::Prob &q, int, long k) { big::Inst I(q, !(k & 1)); Res r = I.solve(); std::string e = big::judge(q, r, true); if (!e.empty()) violation("%s | %s", e.c_str(), q.tag.c_str()); }));
    if (prop == 2) { auto *SW = new std::vector<SCase>(sweep_menu(TH)); F.push_back({"sizes", [=](bool) { return (long)SW->size(); }, [=](long k) { auto &s = (*SW)[k]; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); detail("default options"); Res r = solve1(q, (int)(k % F_NFMT)); count("evaluations"); if (r.it > 0) count("nontrivial"); if (r.ret != 0) { violation("well-posed QP not solved: exit code %ld after %ld iterations | %s", r.ret, r.it, show(q).c_str()); return; }
            if (!(fabs(r.fval - q.fs) <= 1e-4 * (1 + fabs(q.fs)))) violation("objective %.12g differs from the exact optimum %.12g | %s", r.fval, q.fs, show(q).c_str()); for (int j = 0; j < q.n; j++) if (!(fabs(r.x[j] - q.xs[j]) <= 1e-2 * (1 + fabs(q.xs[j])))) { violation("x[%d]=%.12g differs from the unique minimiser %.12g | %s", j, r.x[j], q.xs[j], show(q).c_str()); break; } }, 8}); }
    if (prop == 2) { // catalogued degenerate inputs (see KNOWN_FINDINGS.txt): reported as findings, looked up by key
        F.push_back({"catalogued", [=](bool) { return 1L; }, [=](long) {
            IntQP q; q.n = 3; q.m = 3; q.p = 1; q.P = {1,-1,0,-1,2,-1,0,-1,2}; q.c = {1,0,1}; q.G = {1,-1,1,1,-1,-1,0,-1,1}; q.h = {0,1,1}; q.A = {1,-1,0}; q.b = {-1};
            Exact E = analyse(q); Prob pq = from_int(q); Res r = solve1(pq, F_ROW); count("evaluations");
            if (!E.wellposed()) return;
            if (r.ret != 0) finding("degenerate-n3m3p1", "well-posed degenerate QP not solved: exit code " + std::to_string(r.ret) + " | " + show(pq)); }, 1});
    }
    if (prop == 3) {
        auto run = [](const Prob &q, const char *cls, int f, const Opt &o) {
            detail("%s; %s; %s", cls, fmt_name(f), ostr(o).c_str());
            Res r = solve1(q, f, o); count("evaluations"); count("nontrivial"); count(cls);
            if (r.ret != r.flag) violation("return value %ld differs from flag %ld | %s", r.ret, r.flag, show(q).c_str());
            if (r.it > o.maxit) violation("%ld iterations exceed the limit %ld | %s", r.it, o.maxit, show(q).c_str());
            if (r.ret == 0) { bool pri = !strncmp(cls, "infeasible", 10); ld big = 0; for (auto *v : pri ? std::vector<const std::vector<double> *>{&r.x, &r.s} : std::vector<const std::vector<double> *>{&r.y, &r.z}) for (double d : *v) big = std::max(big, fabs(d) <= 1e300 ? (ld)fabs(d) : (ld)INFINITY); if (big < 1e6L) violation("%s problem reported optimal: %s | %s", cls, shr(r).c_str(), show(q).c_str()); else count("exit0_with_huge_iterates"); }
            else if (r.ret != 1 && r.ret != 2 && r.ret != 3) violation("undocumented exit code %ld", r.ret);
        };
        auto one = [=](const IntQP &iq, long k) {
            Exact E = analyse(iq, false); count("classified"); if (E.feasible && !E.unbounded) return; Prob q = from_int(iq); sample(show(q));
            const char *cls = E.feasible ? "unbounded" : "infeasible"; run(q, cls, (int)(k % F_NFMT), OM[0]); run(q, cls, (int)((k + 3) % F_NFMT), OM[1 + k % (OM.size() - 1)]);
        };
        auto all = [=](const IntQP &iq, long) {
            Exact E = analyse(iq, false); count("classified"); if (E.feasible && !E.unbounded) return; Prob q = from_int(iq); sample(show(q));
            for (int f = 0; f < F_NFMT; f++) for (auto &o : OM) run(q, E.feasible ? "unbounded" : "infeasible", f, o);
        };
        add_universe(F, "n1m0p0", U100, one); add_universe(F, "n1m0p1", U101, one); add_universe(F, "n2m0p0", U200, one); add_universe(F, "n2m0p1", U201, one); add_universe(F, "n2m0p2", U202, one); add_universe(F, "n3m0p1", U301, one);
        add_universe(F, "n1m1p0", U110, all); add_universe(F, "n1m2p0", U120, all); add_universe(F, "n1m1p1", U111, TH ? std::function<void(const IntQP &, long)>(all) : one); add_universe(F, "n1m3p0", U130, one); add_universe(F, "n1m2p1", U121, one);
        add_universe(F, "n2m1p0", U210, one); add_universe(F, "n2m1p1", U211, one); add_universe(F, "n2m2p0", U220s, one); if (TH) { add_universe(F, "n2m2p1", U221b, one); add_universe(F, "n2m3p0", U230, one); add_universe(F, "n2m2p0-wide", U220, one); }
        else { F.push_back({"n2m2p1", [=](bool) { return U221->size() / 5; }, [=](long k) { one(U221->get(k * 5), k); }, 512});
               F.push_back({"n2m3p0", [=](bool) { return U230->size(); }, [=](long k) { IntQP q = U230->get(k); auto row = [&](int i) { return (q.G[2 * i] + 1) * 9 + (q.G[2 * i + 1] + 1) * 3 + q.h[i] + 1; }; if (row(0) > row(1) || row(1) > row(2) || q.c[0] < 0) return; one(q, k); }, 2048}); }
        F.push_back({"n3m3", [=](bool) { return S3->size(); }, [=](long k) { IntQP q = S3->get(k); if (!TH && (q.c[0] < 0 || q.c[1] < 0)) return; one(q, k); }, 512});
        rows(one);
        // narrow gaps: the right-hand sides and the linear cost shrink, so that the problem misses feasibility (boundedness) only by little
        { static const double GP[] = {0.1, 1e-2, 1e-3, 1e-4}; struct X { const char *nm; Universe *u; long st; };
          for (auto &x : std::vector<X>{{"narrow-n1m1p1", U111, 1}, {"narrow-n1m2p0", U120, 1}, {"narrow-n1m2p1", U121, 7}, {"narrow-n2m1p1", U211, 3}, {"narrow-n2m2p0", U220s, 5}, {"narrow-n2m2p1", U221, 31}}) F.push_back({x.nm, [=](bool) { return x.u->size() / (TH ? 1 + x.st / 6 : x.st); }, [=](long k) {
            IntQP iq = x.u->get(k * (TH ? 1 + x.st / 6 : x.st)); Exact E = analyse(iq, false); count("classified"); if (E.feasible && !E.unbounded) return; Prob q = from_int(iq); int i = 0;
            for (double g : GP) { Prob t = q; for (auto &v : t.c) v *= g; for (auto &v : t.h) v *= g; for (auto &v : t.b) v *= g; for (int o : {0, 1, 5, 6, 10}) { if (OM[o].reltol > g / 50) continue; run(t, E.feasible ? "unbounded" : "infeasible", (int)((k + i++) % F_NFMT), OM[o]); } } }, 256}); }
        // the same in other units
        { static const double SC[][3] = {{1000, 1, 1}, {10, 1, 1}, {1, 100, 1}, {1, 0.01, 1}, {1, 1, 100}, {10, 10, 10}, {1000, 10, 100}}; struct X { const char *nm; Universe *u; long st; };
          for (auto &x : std::vector<X>{{"units-n1m1p1", U111, 1}, {"units-n1m2p0", U120, 1}, {"units-n1m2p1", U121, 7}, {"units-n2m0p1", U201, 1}, {"units-n2m1p1", U211, 3}, {"units-n2m2p0", U220s, 5}, {"units-n2m2p1", U221, 31}}) F.push_back({x.nm, [=](bool) { return x.u->size() / (TH ? 1 + x.st / 6 : x.st); }, [=](long k) {
            IntQP iq = x.u->get(k * (TH ? 1 + x.st / 6 : x.st)); Exact E = analyse(iq, false); count("classified"); if (E.feasible && !E.unbounded) return; Prob q = from_int(iq); int i = 0;
            for (auto &c : SC) { Prob t = rescale(q, c[0], c[1], c[2]); for (int o : {0, 1, 5, 6, 10}) run(t, E.feasible ? "unbounded" : "infeasible", (int)((k + i++) % F_NFMT), OM[o]); } }, 256}); }
        // structured: make a solvable problem infeasible / unbounded in one place
        F.push_back({"structured", [=](bool) { return (long)SM->size() * 16; }, [=](long k) { static const double GP[] = {1, 1e-2, 1e-3, 1e-4}; double gap = GP[k % 16 / 4]; auto &s = (*SM)[k / 16]; int w = k % 4; if (s.N > (TH ? 65 : 33) || s.pat > 2) return; Prob q = structured(s.kind, s.N, s.pat);
            const char *cls = "infeasible"; int n = q.n, pos = (s.N * 7 + s.pat) % std::max(q.m, 1); if (!q.m && w < 2) return;
            auto addrow = [&](const V &g, double h) { q.G.insert(q.G.end(), g.begin(), g.end()); q.h.push_back(h); q.m++; };
            V row; if (q.m) row.assign(q.G.begin() + (size_t)pos * n, q.G.begin() + (size_t)(pos + 1) * n);
            if (w == 0) { for (auto &v : row) v = -v; addrow(row, -q.h[pos] - gap); }                       // contradicts row pos
            else if (w == 1) { q.A.insert(q.A.end(), row.begin(), row.end()); q.b.push_back(q.h[pos] + gap); q.p++; } // equality outside row pos
            else if (w == 2) { if (!q.p) return; V a(q.A.begin(), q.A.begin() + n); q.A.insert(q.A.end(), a.begin(), a.end()); q.b.push_back(q.b[0] + gap); q.p++; } // contradictory equalities
            else { // add a free variable with linear cost only
                cls = "unbounded"; Prob r; r.n = n + 1; r.m = q.m; r.p = q.p; r.h = q.h; r.b = q.b; r.c = q.c; r.c.push_back(s.pat % 2 ? gap : -gap); r.P.assign((size_t)(n + 1) * (n + 1), 0); r.tag = q.tag;
                for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r.P[(size_t)i * (n + 1) + j] = q.P[(size_t)i * n + j];
                auto wide = [&](const V &M, int rr) { V o; for (int i = 0; i < rr; i++) { o.insert(o.end(), M.begin() + (size_t)i * n, M.begin() + (size_t)(i + 1) * n); o.push_back(0); } return o; };
                r.G = wide(q.G, q.m); r.A = wide(q.A, q.p); if (q.m) r.G[(size_t)pos * (n + 1) + n] = s.pat % 2 ? 1 : -1; q = r; }
            q.tag += w == 3 ? "+free-descent-column" : "+contradiction"; sample(q.tag);
            run(q, cls, (int)(k % F_NFMT), OM[0]); const Opt &o2 = OM[1 + (k / 4) % (OM.size() - 1)]; if (o2.reltol <= gap / 50 || gap == 1) run(q, cls, (int)((k + 2) % F_NFMT), o2); }, 4});
    }
    return main_(argc, argv, F);
}
