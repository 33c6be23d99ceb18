// C09: histories of solve / option changes explored exhaustively against a reference state machine.
// Model state: (position on the trajectory, entering-parameter changes so far).  The trajectory (one iterate per
// position) is obtained from single-iteration solves with unattainable tolerances; every other way of reaching a
// position must produce the bit-identical iterate, and where a solve stops is decided from the independently
// evaluated residuals of the iterates.
#include "prob.hpp"
#include "big.hpp"
using namespace core;
static long outpos() { fflush(stdout); return (long)lseek(1, 0, SEEK_CUR); }
struct Pt { Res r; Kkt k; bool sane; };
typedef std::vector<std::pair<int, double>> Chg; // (position, sigma) changes, in order
enum { LEN = 36 };
struct Ref { // reference trajectories of one (problem, format, sigma_d, permutation)
    Prob q; int fmt; double sd; bool perm; std::vector<qp_int> pm; std::map<Chg, std::vector<Pt>> T;
    Ref(const Prob &p, int f, double s, bool pr) : q(p), fmt(f), sd(s), perm(pr) { int N = q.n + q.m + q.p; for (int i = 0; i < N; i++) pm.push_back(N - 1 - i); }
    Inst *fresh(long maxit, double tol, double sigma = 100) { Opt o; o.maxit = maxit; o.reltol = o.abstol = tol; o.sigma = sigma; o.sigma_d = sd; return new Inst(q, fmt, o, perm ? &pm : nullptr); }
    Pt pt(const Res &r) { Pt p; p.r = r; p.k = kkt_eval(q, r); p.sane = p.k.big < 1e8L && p.k.mu > 1e-13L && p.k.mu < 1e10L && std::isfinite((double)p.k.rx) && std::isfinite((double)p.k.mu); return p; }
    const std::vector<Pt> &get(const Chg &c) {
        auto it = T.find(c); if (it != T.end()) return it->second;
        std::vector<Pt> v; Inst *I = fresh(0, 0); size_t ci = 0; bool sane = true;
        for (int t = 0; t <= LEN; t++) {
            if (t == 0) { I->qp->options->maxit = 0; v.push_back(pt(I->solve())); I->qp->options->maxit = 1; } else v.push_back(pt(I->solve()));
            for (; ci < c.size() && c[ci].first == t; ci++) I->qp->options->sigma = c[ci].second;
            sane = sane && v.back().sane; v.back().sane = sane; count("model_states");
        }
        delete I; return T[c] = v;
    }
};
// -1 certainly not within tolerance, 1 certainly within, 0 borderline
static int meets(const Pt &p, double rt, double at) {
    const ld lo = 1 - 1e-9L, hi = 1 + 1e-9L, r3 = 1 / sqrtl(3.0L); ld m = std::max(p.k.rx, std::max(p.k.ry, p.k.rz)), e = std::max(p.k.ex, std::max(p.k.ey, p.k.ez));
    if (m - e > rt * hi || p.k.mu > at * hi || rt <= 0 || at <= 0) return -1; if (m + e < rt * r3 * lo && p.k.mu < at * lo) return 1; return 0;
}
static std::string wherestr(const Ref &R, const std::string &h) { return std::string(fmt_name(R.fmt)) + (R.perm ? " user-permutation " : " ") + "sigma_d=" + std::to_string(R.sd) + " history: " + h + "| " + show(R.q); }
// checks one solve made at position pos with limit k; returns the new position or -1 (violation) or -2 (left the modelled range)
static int step(Ref &R, const std::vector<Pt> &T, int pos, long k, double rt, double at, const Res &r, const std::string &h) {
    count("transitions"); auto bad = [&](const std::string &m) { violation("%s | %s", m.c_str(), wherestr(R, h).c_str()); return -1; };
    if (r.ret != r.flag) return bad("return value differs from the recorded exit code");
    long to = r.it; if (to < pos || to > pos + k) return bad("a solve with limit " + std::to_string(k) + " at iteration " + std::to_string(pos) + " reports iteration " + std::to_string(to) + "; " + shr(r));
    if (to > LEN || pos + k > LEN + 1000) return -2;
    if (to >= (int)T.size()) return -2;
    const Pt &p = T[to]; if (!biteq(p.r.x, r.x) || !biteq(p.r.y, r.y) || !biteq(p.r.z, r.z) || !biteq(p.r.s, r.s)) return bad("iterate " + std::to_string(to) + " is not the iterate that single-iteration solves reach; " + shr(r) + " expected " + shr(p.r));
    count("comparisons"); if (!p.sane) return -2;
    for (int j = pos; j < to; j++) if (meets(T[j], rt, at) > 0) return bad("iterate " + std::to_string(j) + " meets the tolerances but the solve went on to " + std::to_string(to) + " (tolerances " + std::to_string(rt) + ")");
    int mt = meets(p, rt, at); char b[400];
    if (r.ret == 0) { if (mt < 0) { snprintf(b, 400, "exit code 0 with residuals %Lg %Lg %Lg and mu %Lg, tolerances %g %g; ", p.k.rx, p.k.ry, p.k.rz, p.k.mu, rt, at); return bad(b + shr(r)); } count("exit0"); }
    else if (r.ret == 2) { if (to != pos + k) return bad("exit code 2 after " + std::to_string(to - pos) + " of " + std::to_string(k) + " iterations"); count("exit2"); }
    else return bad("exit code " + std::to_string(r.ret));
    if (!(p.k.minsz > 0)) return bad("s or z not strictly positive; " + shr(r));
    auto far = [](double rep, ld val, ld e) { return !(fabsl((ld)rep - val) <= e + 1e-9L * val + 1e-300L); };
    if (far(r.rx, p.k.rx, p.k.ex) || (R.q.p && far(r.ry, p.k.ry, p.k.ey)) || far(r.rz, p.k.rz, p.k.ez) || far(r.mu, p.k.mu, 0)) { snprintf(b, 400, "exit code %ld: reported residuals %g %g %g mu %g, those of the iterate are %Lg %Lg %Lg mu %Lg; ", r.ret, r.rx, r.ry, r.rz, r.mu, p.k.rx, p.k.ry, p.k.rz, p.k.mu); return bad(b + shr(r)); }
    if (!(fabsl(p.k.f - (ld)r.fval) <= p.k.ef + 1e-300L)) { snprintf(b, 400, "exit code %ld: reported objective %.17g, that of the iterate is %.17Lg; ", r.ret, r.fval, p.k.f); return bad(b + shr(r)); }
    if (to > pos) count("nontrivial"); return (int)to;
}
struct Op { int k; double rt, at, sigma; int verb; const char *nm; }; // sigma > 0: entering parameter change
static const Op OPS[] = {{0, 1e-6, 1e-6, 0, 0, "solve(0)"}, {1, 1e-6, 1e-6, 0, 0, "solve(1)"}, {3, 1e-6, 1e-6, 0, 1, "solve(3,verbose)"}, {25, 1e-6, 1e-6, 0, 0, "solve(25)"}, {25, 1e-2, 1e-2, 0, 0, "solve(25,tol=1e-2)"}, {25, 1e-9, 1e-9, 0, 3, "solve(25,tol=1e-9,verbose)"}, {2, 1e-9, 1e-9, 0, 0, "solve(2,tol=1e-9)"}, {1, 1e-2, 1e-2, 0, 2, "solve(1,tol=1e-2,verbose)"}, {2, 1e-1, 1e-9, 0, 0, "solve(2,reltol=0.1,abstol=1e-9)"}, {0, 0, 0, 100, 0, "sigma=100"}, {0, 0, 0, 1e-3, 0, "sigma=1e-3"}};
enum { NOP = sizeof OPS / sizeof *OPS };
static bool apply(Ref &R, Inst *I, int o, Chg &c, int &pos, std::string &h) {
    const Op &op = OPS[o]; h += std::string(op.nm) + " ";
    if (op.sigma > 0) { I->qp->options->sigma = op.sigma; c.push_back({pos, op.sigma}); count("transitions"); return true; }
    auto *q = I->qp->options; q->maxit = op.k; q->reltol = op.rt; q->abstol = op.at; q->verbose = op.verb; long w0 = outpos(); Res r = I->solve(); long w = outpos() - w0;
    if (!op.verb && w) { violation("%ld bytes printed at verbosity 0 | %s", w, wherestr(R, h).c_str()); return false; } if (op.verb && !w) { violation("nothing printed at verbosity %d | %s", op.verb, wherestr(R, h).c_str()); return false; }
    if (q->maxit != op.k || q->reltol != op.rt || q->abstol != op.at || q->verbose != op.verb) { violation("a solve changed the user's limit, tolerances or verbosity | %s", wherestr(R, h).c_str()); return false; }
    int np = step(R, R.get(c), pos, op.k, op.rt, op.at, r, h); if (np < 0) return false; pos = np; return true;
}
// depth-first over all histories; every prefix is replayed once per maximal history (the library has no undo)
static void explore(Ref &R, int depth) {
    long nh = 1; for (int i = 0; i < depth; i++) nh *= NOP;
    for (long k = 0; k < nh; ) {
        std::vector<int> ops(depth); long t = k; for (int i = depth - 1; i >= 0; i--) { ops[i] = (int)(t % NOP); t /= NOP; }
        Inst *I = R.fresh(100, 1e-6); Chg c; int pos = 0; std::string h; bool ok = true; int d = 0;
        for (; d < depth && ok; d++) ok = apply(R, I, ops[d], c, pos, h);
        count("evaluations"); count("traces"); delete I; if (viol_in_case) return;
        long skip = 1; if (!ok) for (int i = d; i < depth; i++) skip *= NOP; // left the modelled range: all continuations share this prefix
        k = ok ? k + 1 : (k / skip + 1) * skip;
    }
}
static void prefixes(Ref &R, double tol, int upto) { // a fresh solve for every iteration limit
    const auto &T = R.get({}); int last = -1; for (int k = 0; k <= upto; k++) { std::string h = "solve(" + std::to_string(k) + ") "; Inst *I = R.fresh(k, tol); Res r = I->solve(); count("evaluations"); count("traces"); int np = step(R, T, 0, k, tol, tol, r, h); delete I; if (np == -1 || viol_in_case) return; if (np == -2) return; if (np == last && r.ret == 0 && k > np + 3) return; last = np; }
}
static void options(Ref &R) { // tolerances x verbosity x entering parameter, one fresh solve each
    static const double TL[] = {1e-1, 1e-3, 1e-6, 1e-8, 1e-10, 0};
    for (double sg : {100.0, 1.0, 0.3, 1e-3}) { Chg c; if (sg != 100) c.push_back({0, sg}); const auto &T = R.get(c);
        for (double rt : TL) for (double at : TL) { Res base; for (int vb = 0; vb <= 3; vb++) {
            char h[200]; snprintf(h, 200, "solve(30,reltol=%g,abstol=%g,sigma=%g,verbose=%d) ", rt, at, sg, vb); detail("%s", h); long w0 = outpos(); Inst *I = R.fresh(30, 1, sg); I->qp->options->reltol = rt; I->qp->options->abstol = at; I->qp->options->verbose = vb; long w1 = outpos(); Res r = I->solve(); long w = outpos() - w1; delete I; long w2 = outpos();
            if (w1 != w0 || w2 != w1 + w) { violation("setup or cleanup prints | %s", wherestr(R, h).c_str()); return; } if (!vb && w) { violation("%ld bytes printed at verbosity 0 | %s", w, wherestr(R, h).c_str()); return; } if (vb && !w) { violation("nothing printed at verbosity %d | %s", vb, wherestr(R, h).c_str()); return; }
            count("evaluations"); count("traces"); if (vb == 0) base = r; else if (!same(base, r)) { violation("verbosity %d changes the result: %s instead of %s | %s", vb, shr(r).c_str(), shr(base).c_str(), wherestr(R, h).c_str()); return; }
            if (step(R, T, 0, 30, rt, at, r, h) == -1) return; if (viol_in_case) return; } } }
    if (ftruncate(1, 0) == 0) lseek(1, 0, SEEK_SET);
}
// limits far beyond the usual ones: one solve with limit K against a chain of short solves, and limits that do not fit 32 bits
static void longrun(const Prob &q, int f, double sd, bool perm, bool TH) {
    static const long KS[] = {100, 101, 127, 128, 150, 151, 199, 200, 201, 255, 256, 257, 300, 400, 500, 512, 600, 750, 999, 1000, 1001, 1024, 2000, 2048, 4096, 5000, 9999, 10000, 10001, 16384, 32767, 32768, 50000, 65535, 65536, 65537, 99999, 100000, 100001};
    Ref R(q, f, sd, perm); Inst *C = R.fresh(0, 0); long at = 0; size_t w = 0;
    for (long K : KS) { if (K > (TH ? 100001 : q.n <= 2 ? 10001 : 1024)) break; count("evaluations"); count("traces"); count("nontrivial"); detail("solve(%ld) with unattainable tolerances", K);
        Res c; while (at < K) { long d = std::min(K - at, 1 + (long)(w++ % 37)); C->qp->options->maxit = d; c = C->solve(); at += d; count("transitions"); if (c.it != at || c.ret != 2) { violation("a solve with limit %ld at iteration %ld ends at iteration %ld with exit code %ld | %s", d, at - d, c.it, c.ret, wherestr(R, "chain ").c_str()); delete C; return; } }
        Inst *I = R.fresh(K, 0); Res r = I->solve(); delete I; count("transitions");
        if (!same(r, c) || !numeq(r.rx, c.rx) || !numeq(r.rz, c.rz) || !numeq(r.mu, c.mu)) { violation("a solve with limit %ld: %s; a chain of shorter solves: %s | %s", K, shr(r).c_str(), shr(c).c_str(), wherestr(R, "solve(" + std::to_string(K) + ") ").c_str()); delete C; return; }
    }
    delete C; Inst *B = R.fresh(100, 1e-6); Res b = B->solve(); delete B; if (b.ret != 0) return;
    for (long K : {101L, 32768L, 65536L, 65537L, (1L << 31) - 1, 1L << 31, (1L << 31) + 1, 1L << 32, (1L << 32) + 1, (1L << 53) + 1, LONG_MAX - 1, LONG_MAX}) { detail("solve(%ld)", K); Inst *I = R.fresh(K, 1e-6); Res r = I->solve(); bool keep = I->qp->options->maxit == K; delete I; count("evaluations"); count("traces"); count("transitions"); if (!same(r, b) || !keep) { violation("a solve with limit %ld: %s; with limit 100: %s | %s", K, shr(r).c_str(), shr(b).c_str(), wherestr(R, "").c_str()); return; } }
}
int main(int argc, char **argv) {
    worker_init = [] { int fd = memfd_create("out", 0); fflush(stdout); dup2(fd, 1); close(fd); };
    bool TH = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"); for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "thorough")) TH = true;
    std::vector<Family> F; auto *C = new std::vector<Prob>(); auto add = [&](int n, int m, int p, V P, V c, V G, V h, V A, V b, const char *t) { Prob q; q.n = n; q.m = m; q.p = p; q.P = P; q.c = c; q.G = G; q.h = h; q.A = A; q.b = b; q.tag = t; C->push_back(q); };
    add(1, 1, 0, {1}, {-1}, {1}, {0}, {}, {}, "single-variable"); add(1, 1, 1, {1}, {0}, {1}, {2}, {1}, {1}, "single-variable+equality"); add(1, 3, 0, {0}, {1}, {-1, 1, 0}, {0, 5, 1}, {}, {}, "zero-P+zero-row"); add(2, 2, 1, {1, 0, 0, 0}, {0, 1}, {0, -1, 0, 1}, {0, 4}, {1, 1}, {1}, "zero-column-of-P");
    add(1, 2, 0, {1}, {0}, {1, -1}, {-1, -1}, {}, {}, "infeasible"); add(2, 1, 0, {0, 0, 0, 0}, {-1, 0}, {0, 1}, {1}, {}, {}, "unbounded"); add(2, 2, 0, {2, 1, 1, 2}, {-3, 1}, {1, 1, -1, 2}, {1, 3}, {}, {}, "two-variables");
    for (int k = 0; k < NKIND; k++) C->push_back(structured(k, k == 3 ? 2 : 4, 1 + k % 3)); C->push_back(structured(0, 12, 2)); C->push_back(structured(3, 5, 1)); C->push_back(structured(2, 9, 2));
    int dep = TH ? 6 : 5; long per = 4;
    F.push_back({"histories", [=](bool) { return (long)C->size() * per; }, [=](long k) { Prob &q = (*C)[k / per]; int v = (int)(k % per); sample(q.tag + " x all histories"); Ref R(q, (int)((k / per + v) % F_NFMT), v == 1 ? 0.2 : v == 3 ? 1e-3 : 0, v == 2); explore(R, v == 0 ? dep : dep - 1); }, 1});
    F.push_back({"options", [=](bool) { return (long)C->size() * 4; }, [=](long k) { Prob &q = (*C)[k / 4]; Ref R(q, (int)(k % F_NFMT), k % 4 == 1 ? 0.2 : k % 4 == 3 ? 1e-3 : 0, k % 4 == 2); options(R); }, 1});
    F.push_back({"long-limits", [=](bool) { return (long)C->size() * 4; }, [=](long k) { Prob &q = (*C)[k / 4]; longrun(q, (int)(k % F_NFMT), k % 4 == 1 ? 0.2 : k % 4 == 3 ? 1e-3 : 0, k % 4 == 2, TH); }, 1});
    auto *SM = new std::vector<SCase>(structured_menu(TH));
    F.push_back({"limits-structured", [=](bool) { return (long)SM->size(); }, [=](long k) { auto &s = (*SM)[k]; if (!TH && s.N > 33 && !cheap(s)) return; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); Ref R(q, (int)(k % F_NFMT), k % 5 == 3 ? 0.1 : 0, k % 2); prefixes(R, 1e-6, 30); }, 1});
    { auto *SW = new std::vector<SCase>(sweep_menu(TH)); F.push_back({"limits-sizes", [=](bool) { return (long)SW->size(); }, [=](long k) { auto &s = (*SW)[k]; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); Ref R(q, (int)(k % F_NFMT), k % 5 == 3 ? 0.1 : 0, k / 7 % 2 && s.N <= 150); prefixes(R, 1e-6, 30); }, 8}); }
    F.push_back(big::family(TH, [](const big::Prob &q, int, long k) { big::Inst I(q, k & 1); Res full = I.solve(); // one solve against chains of limited ones
        auto cmp = [&](const char *w, const Res &r) { count("traces"); count("comparisons"); if (!same(full, r)) violation("%s: exit %ld, %ld iterations, objective %.17g instead of exit %ld, %ld iterations, %.17g | %s", w, r.ret, r.it, r.fval, full.ret, full.it, full.fval, q.tag.c_str()); };
        { big::Inst J(q, k & 1); Res r; long at = 0; for (long d : {1L, 0L, 2L, 1L, 96L}) { J.Q->options->maxit = d; r = J.solve(); count("transitions"); long want = std::min(at + d, full.it); if (r.it != want || r.ret != (at + d > full.it && full.ret == 0 ? 0 : 2)) { violation("a solve with limit %ld at iteration %ld ends at iteration %ld with exit code %ld (a single solve: %ld, %ld) | %s", d, at, r.it, r.ret, full.it, full.ret, q.tag.c_str()); return; } at = r.it; if (r.ret == 0) break; } cmp("a chain of limited solves", r); }
        { big::Inst J(q, k & 1); J.Q->options->maxit = 1L << 40; cmp("limit 2^40", J.solve()); } { big::Inst J(q, k & 1); J.Q->options->maxit = full.it + 1; cmp("a limit one above the number of iterations", J.solve()); }  }));
    struct UU { const char *nm; Universe *u; long sq, st; };
    for (auto &x : std::vector<UU>{{"limits-n2m0p0", new Universe(2, 0, 0, -2, 2), 1, 1}, {"limits-n2m0p1", new Universe(2, 0, 1, -1, 1), 1, 1}, {"limits-n1m1p0", new Universe(1, 1, 0, -1, 2), 1, 1}, {"limits-n1m2p0", new Universe(1, 2, 0, -1, 2), 2, 1}, {"limits-n1m1p1", new Universe(1, 1, 1, -1, 2), 2, 1}, {"limits-n2m2p0", new Universe(2, 2, 0, -1, 1), 5, 1}, {"limits-n2m2p1", new Universe(2, 2, 1, -1, 1, -1, 1), 53, 7}, {"limits-n1m1p2", new Universe(1, 1, 2, -1, 1), 3, 1}, {"limits-n1m4p0", new Universe(1, 4, 0, -1, 1), 9, 1}, {"limits-n1m3p1", new Universe(1, 3, 1, -1, 1), 15, 1}, {"limits-n2m1p2", new Universe(2, 1, 2, -1, 1, -1, 1), 183, 22}, {"limits-n2m3p1", new Universe(2, 3, 1, -1, 1, -1, 1), 3603, 450}})
        F.push_back({x.nm, [=](bool t) { return x.u->size() / (t ? x.st : x.sq); }, [=](long k) { Prob q = from_int(x.u->get(k * (TH ? x.st : x.sq))); sample(show(q)); Ref R(q, (int)(k % F_NFMT), k % 7 == 3 ? 0.1 : 0, k % 2); prefixes(R, k % 3 ? 1e-6 : 1e-9, 30); }, 64});
    return main_(argc, argv, F);
}
