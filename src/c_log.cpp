// C17: the log printed at verbosity > 0 describes the run: one line per iterate with that iterate's number, objective and
// residuals, one line per step, the verdict and the summary of this solve; at verbosity 0 nothing is printed at all.
#include "prob.hpp"
#include "cat.hpp"
#include <sys/mman.h>
#include <unistd.h>
using namespace core;
static int LEN = 40;
struct Pt { Res r; Kkt k; double ap, ad; bool sane; };
static std::string taken() { fflush(stdout); long n = (long)lseek(1, 0, SEEK_CUR); std::string s(n, 0); if (n && pread(1, &s[0], n, 0) != n) s = "?"; if (ftruncate(1, 0)) {} lseek(1, 0, SEEK_SET); return s; }
static long errs() { fflush(stderr); return (long)lseek(2, 0, SEEK_CUR); }
static std::vector<Pt> trajectory(const Prob &q, int fmt, double sd, const std::vector<qp_int> *pm) {
    Opt o; o.maxit = 0; o.reltol = o.abstol = 0; o.sigma_d = sd; Inst I(q, fmt, o, pm); std::vector<Pt> T; bool sane = true;
    for (int t = 0; t <= LEN; t++) { Pt p; p.r = I.solve(); I.qp->options->maxit = 1; p.ap = I.qp->stats->alpha_p; p.ad = I.qp->stats->alpha_d; p.k = kkt_eval(q, p.r); p.sane = sane = sane && p.k.big < 1e8L && p.k.mu > 1e-13L && p.k.mu < 1e10L && p.k.rx < 1e100L && p.k.ry < 1e100L && p.k.rz < 1e100L && p.k.ef < 1e100L && std::isfinite((double)p.k.rx) && std::isfinite((double)p.k.mu); T.push_back(p); count("model_states"); }
    return T;
}
static bool num(const std::string &l, const char *lab, double &v) { // the number after a label that is not part of a longer word
    size_t n = strlen(lab); for (size_t a = l.find(lab); a != std::string::npos; a = l.find(lab, a + 1)) { if ((a && isalpha((unsigned char)l[a - 1])) || isalpha((unsigned char)l[a + n])) continue; const char *p = l.c_str() + a + n; while (*p == ' ' || *p == ':' || *p == '=') p++; char *e; v = strtod(p, &e); if (e != p) return true; } return false;
}
static bool prn(double got, double want, double rel, double abs_) { if (std::isnan(want) || std::isnan(got)) return std::isnan(want) && std::isnan(got); if (std::isinf(want) || std::isinf(got)) return got == want; return fabs(got - want) <= rel * fabs(want) + abs_; }
struct View { double tsolve, tsetup, kkt, ldl; };
static std::string check(const Prob &q, const std::vector<Pt> &T, const std::string &log, int pos, const Res &r, const View &S, bool &modelled) {
    char b[500]; long to = r.it; modelled = false; if (to < pos || to > LEN) return "";
    std::vector<std::string> L; for (size_t a = 0; a < log.size();) { size_t e = log.find('\n', a); if (e == std::string::npos) e = log.size(); L.push_back(log.substr(a, e - a)); a = e + 1; }
    long it = pos, steps = 0, seen = 0; int verdicts = 0; bool opt = false, mx = false, iters = false, solve = false, kkt = false, ldl = false, after = false; double v;
    for (auto &l : L) { double i;
        if (num(l, "pcost", v) && num(l, "It", i)) { if (after) return "an iterate is printed after the verdict: " + l; if (i != it) { snprintf(b, 500, "iteration number %g where iterate %ld is due: ", i, it); return b + l; } if (it > to) return "a line for an iterate after the returned one: " + l; if (seen > steps) return "two iterates without a step in between: " + l;
            const Pt &p = T[it]; double f = v, rx, ry, rz, mu; if (!num(l, "rx", rx) || !num(l, "ry", ry) || !num(l, "rz", rz) || !num(l, "mu", mu)) return "a residual is missing: " + l;
            struct { const char *n; double g, rep; ld val, e; } X[] = {{"objective", f, p.r.fval, p.k.f, p.k.ef}, {"rx", rx, p.r.rx, p.k.rx, p.k.ex}, {"ry", ry, q.p ? p.r.ry : 0, p.k.ry, p.k.ey}, {"rz", rz, q.m ? p.r.rz : 0, p.k.rz, p.k.ez}, {"mu", mu, p.r.mu, p.k.mu, 0}};
            for (auto &x : X) { if (!q.p && !strcmp(x.n, "ry") && x.g == 0) continue; bool ok = p.sane ? fabsl(x.g - x.val) <= 1.01e-6L * fabsl(x.val) + x.e + 1e-300L : prn(x.g, x.rep, 1.01e-6, 1e-300); if (!ok) { snprintf(b, 500, "%s printed as %g, that of iterate %ld is %.8Lg: ", x.n, x.g, it, p.sane ? x.val : (ld)x.rep); return b + l; } }
            seen++; count("lines"); }
        else if (num(l, "Primal Step Size", v)) { double d; if (!num(l, "Dual Step Size", d)) return "dual step size missing: " + l; if (seen != steps + 1) return "a step without its iterate: " + l; steps++; it++; if (it > to) return "more steps than iterations: " + l; const Pt &p = T[it]; if (!prn(v, p.ap, 0, 1.01e-6) || !prn(d, p.ad, 0, 1.01e-6)) { snprintf(b, 500, "step sizes %g %g printed, the step to iterate %ld had %.8g %.8g: ", v, d, it, p.ap, p.ad); return b + l; } count("lines"); }
        else if (l.find("Optimal Solution") != std::string::npos) { opt = after = true; verdicts++; }
        else if (l.find("Maximum Iterations") != std::string::npos) { mx = after = true; verdicts++; }
        else if (l.find("Unknown Error") != std::string::npos || l.find("Factorization fail") != std::string::npos) { after = true; verdicts++; }
        else if (num(l, "Iterations", v)) { iters = true; if (v != (double)r.it) { snprintf(b, 500, "summary says %g iterations, the result %ld", v, r.it); return b; } }
        else if (num(l, "KKT_Solve Time", v)) { kkt = true; if (!prn(v, S.kkt * 1e3, 0, 1.01e-6)) { snprintf(b, 500, "KKT time printed as %g ms, reported %g s", v, S.kkt); return b; } }
        else if (num(l, "LDL Time", v)) { ldl = true; if (!prn(v, S.ldl * 1e3, 0, 1.01e-6)) { snprintf(b, 500, "factorisation time printed as %g ms, reported %g s", v, S.ldl); return b; } }
        else if (num(l, "Solve Time", v)) { solve = true; if (!prn(v, S.tsolve * 1e3, 0, 1.01e-6) && !prn(v, (S.tsolve + S.tsetup) * 1e3, 0, 1.01e-6)) { snprintf(b, 500, "solve time printed as %g ms, reported %g s + setup %g s", v, S.tsolve, S.tsetup); return b; } }
    }
    if (steps != to - pos) { snprintf(b, 500, "%ld steps printed, %ld made", steps, to - pos); return b; } if (seen != to - pos + 1 && !(r.ret == 2 && seen == to - pos)) { snprintf(b, 500, "%ld iterates printed for %ld steps, exit code %ld", seen, to - pos, r.ret); return b; }
    if (verdicts != 1 || opt != (r.ret == 0) || mx != (r.ret == 2)) { snprintf(b, 500, "verdict printed does not match exit code %ld", r.ret); return b; } if ((r.ret == 0 || r.ret == 2) && !(iters && solve && kkt && ldl)) return "summary incomplete";
    modelled = true; return "";
}
struct Op { long k; double rt, at; int vb; };
static const Op OPS[] = {{0, 1e-6, 1e-6, 1}, {1, 1e-6, 1e-6, 1}, {2, 1e-6, 1e-6, 2}, {7, 1e-2, 1e-3, 1}, {30, 1e-6, 1e-6, 1}, {30, 1e-9, 1e-9, 3}, {3, 1e-6, 1e-6, 0}, {30, 1e-6, 1e-6, 0}};
static const Op LONG[] = {{60, 0, 0, 1}, {99, 1e-30, 0, 1}, {100, 0, 0, 2}, {101, 0, 0, 1}, {257, 0, 1e-30, 1}, {400, 0, 0, 0}, {999, 0, 0, 1}, {1001, 0, 0, 1}, {60, 1e-6, 1e-6, 1}};
enum { NOP = sizeof OPS / sizeof *OPS, NLONG = sizeof LONG / sizeof *LONG };
static void explore(const Prob &q, int fmt, double sd, bool perm, int depth, bool lng = false) {
    int NO = lng ? NLONG : NOP; LEN = lng ? 1100 : 40;
    std::vector<qp_int> pm; for (int N = q.n + q.m + q.p, i = 0; i < N; i++) pm.push_back(N - 1 - i); auto *pp = perm ? &pm : nullptr; long e0 = errs(); taken(); auto T = trajectory(q, fmt, sd, pp);
    auto bad = [&](const std::string &m, const std::string &h) { violation("%s | %s%s sigma_d=%g history: %s| %s", m.c_str(), fmt_name(fmt), perm ? " user-permutation" : "", sd, h.c_str(), show(q).c_str()); };
    if (!taken().empty()) { bad("something is printed at verbosity 0", "single iterations "); return; }
    long nh = 1; for (int i = 0; i < depth; i++) nh *= NO;
    for (long k = 0; k < nh; k++) { Opt o; o.sigma_d = sd; Inst I(q, fmt, o, pp); std::string h; int pos = 0; long t = k; bool go = true;
        for (int d = 0; d < depth && go; d++, t /= NO) { const Op &op = lng ? LONG[t % NO] : OPS[t % NO]; char w[120]; snprintf(w, 120, "solve(%ld,tol=%g/%g,verbose=%d) ", op.k, op.rt, op.at, op.vb); h += w; detail("%s", h.c_str()); auto *p = I.qp->options; p->maxit = op.k; p->reltol = op.rt; p->abstol = op.at; p->verbose = op.vb;
            std::string pre = taken(); if (!pre.empty()) { bad("setup prints", h); return; } Res r = I.solve(); std::string log = taken(); count("transitions"); auto *s = I.qp->stats;
            if (op.vb == 0) { if (!log.empty()) { bad("something is printed at verbosity 0: " + log.substr(0, 200), h); return; } if (r.it < pos || r.it > LEN) go = false; }
            else { bool md; std::string e = check(q, T, log, pos, r, View{s->tsolve, s->tsetup, s->kkt_time, s->ldl_numeric}, md); if (!e.empty()) { bad(e, h); return; } go = md; if (r.it > pos) count("nontrivial"); }
            pos = (int)r.it; }
        I.cleanup(); if (!taken().empty()) { bad("cleanup prints", h); return; } count("evaluations"); count("traces"); }
    if (errs() != e0) bad("something is printed on the error stream", "all ");
}
int main(int argc, char **argv) {
    worker_init = [] { for (int s = 1; s <= 2; s++) { int fd = memfd_create("out", 0); fflush(nullptr); dup2(fd, s); close(fd); } };
    bool TH = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"); for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "thorough")) TH = true; std::vector<Family> F;
    auto *C = new std::vector<Prob>(); auto add = [&](int n, int m, int p, V P, V c, V G, V h, V A, V b, const char *t) { Prob q; q.n = n; q.m = m; q.p = p; q.P = P; q.c = c; q.G = G; q.h = h; q.A = A; q.b = b; q.tag = t; C->push_back(q); };
    add(1, 1, 0, {1}, {-1}, {1}, {0}, {}, {}, "single-variable"); add(1, 1, 1, {1}, {0}, {1}, {2}, {1}, {1}, "single-variable+equality"); add(2, 0, 1, {1, 0, 0, 1}, {1, 1}, {}, {}, {1, 1}, {1}, "no-inequalities"); add(1, 2, 0, {1}, {0}, {1, -1}, {-1, -1}, {}, {}, "infeasible"); add(2, 1, 0, {0, 0, 0, 0}, {-1, 0}, {0, 1}, {1}, {}, {}, "unbounded"); add(2, 2, 0, {2, 1, 1, 2}, {-3, 1}, {1, 1, -1, 2}, {1, 3}, {}, {}, "two-variables");
    for (int k = 0; k < NKIND; k++) C->push_back(structured(k, k == 3 ? 2 : 4, 1 + k % 3)); C->push_back(structured(0, 12, 2)); C->push_back(structured(2, 9, 2));
    F.push_back({"histories", [=](bool) { return (long)C->size() * 4; }, [=](long k) { Prob &q = (*C)[k / 4]; int v = (int)(k % 4); sample(q.tag + " x all histories"); explore(q, (int)((k / 4 + v) % F_NFMT), v == 1 ? 0.2 : v == 3 ? 1e-3 : 0, v == 2, TH ? 4 : 3); }, 1});
    // runs of hundreds of iterations (tolerances that cannot be met)
    F.push_back({"long-logs", [=](bool) { return (long)C->size() * (TH ? 4 : 2); }, [=](long k) { Prob &q = (*C)[k % C->size()]; int v = (int)(k / C->size()); sample(q.tag + " up to 1001 iterations"); explore(q, (int)((k + v) % F_NFMT), v == 1 ? 0.2 : 0, v == 2, 2, true); }, 1});
    { auto *SW = new std::vector<SCase>(sweep_menu(TH)); F.push_back({"logs-sizes", [=](bool) { return (long)SW->size(); }, [=](long k) { auto &s = (*SW)[k]; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); explore(q, (int)(k % F_NFMT), k % 7 == 3 ? 0.1 : 0, k / 7 % 2 && s.N <= 150, 1); }, 8}); }
    struct UU { const char *nm; Universe *u; long sq, st; };
    for (auto &x : std::vector<UU>{{"logs-n2m0p0", new Universe(2, 0, 0, -2, 2), 1, 1}, {"logs-n2m0p1", new Universe(2, 0, 1, -1, 1), 1, 1}, {"logs-n1m1p0", new Universe(1, 1, 0, -1, 2), 1, 1}, {"logs-n1m2p0", new Universe(1, 2, 0, -1, 2), 3, 1}, {"logs-n1m1p1", new Universe(1, 1, 1, -1, 2), 3, 1}, {"logs-n2m2p0", new Universe(2, 2, 0, -1, 1), 13, 1}, {"logs-n2m2p1", new Universe(2, 2, 1, -1, 1, -1, 1), 211, 17}, {"logs-n1m1p2", new Universe(1, 1, 2, -1, 1), 7, 1}, {"logs-n1m4p0", new Universe(1, 4, 0, -1, 1), 21, 2}, {"logs-n1m3p1", new Universe(1, 3, 1, -1, 1), 35, 4}, {"logs-n2m1p2", new Universe(2, 1, 2, -1, 1, -1, 1), 427, 53}, {"logs-n2m3p1", new Universe(2, 3, 1, -1, 1, -1, 1), 8407, 1050}})
        F.push_back({x.nm, [=](bool t) { return x.u->size() / (t ? x.st : x.sq); }, [=](long k) { Prob q = from_int(x.u->get(k * (TH ? x.st : x.sq))); sample(show(q)); explore(q, (int)(k % F_NFMT), k % 7 == 3 ? 0.1 : 0, k % 2, 1 + (k % 16 == 0)); }, 16});
    { auto *SV = new std::vector<std::pair<Prob, long>>(special_menu(catalogue(true), 5));
      F.push_back({"special-values", [=](bool) { return (long)SV->size(); }, [=](long k) { Prob q = special((*SV)[k].first, (*SV)[k].second); explore(q, (int)(k % F_NFMT), k % 7 == 3 ? 0.1 : 0, k % 2, TH ? 2 : 1); }, 16}); }
    return main_(argc, argv, F);
}
