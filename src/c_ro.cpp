// C06: caller-owned inputs are never modified - all inputs live in write-protected pages while the library runs
#include "prob.hpp"
#include "cat.hpp"
#include "big.hpp"
using namespace core;
struct Arena { char *base = nullptr; size_t cap = 0, used = 0; std::vector<char> snap;
    void reset() { if (!base) { cap = 64u << 20; base = (char *)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); } if (used) mprotect(base, len(), PROT_READ | PROT_WRITE); used = 0; }
    size_t len() const { return (used + 4095) / 4096 * 4096; }
    template <class T> T *put(const std::vector<T> &v) { used = (used + 63) / 64 * 64; T *p = (T *)(base + used); if (v.size()) memcpy(p, v.data(), v.size() * sizeof(T)); used += v.size() * sizeof(T) + 8; return p; }
    void seal() { snap.assign(base, base + used); mprotect(base, len(), PROT_READ); }
    bool same() const { return !memcmp(snap.data(), base, used); }
} AR;
static V colm(const V &M, int r, int c) { V o(M.size()); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) o[(size_t)j * r + i] = M[(size_t)i * c + j]; return o; }
// ops: list of (maxit, tol, sigma)
struct Op { long maxit; double tol, sigma; };
static const Op OPS[] = {{100, 1e-6, 100}, {0, 1e-6, 100}, {3, 1e-12, 100}, {100, 1e-9, 1e-3}, {1, 1e-6, 0.05}};
static void history(const Prob &q, int f, bool perm, double sigma_d, const std::vector<int> &ops) {
    AR.reset(); int n = q.n, m = q.m, p = q.p, N = n + m + p; QP *Q; std::vector<qp_int> pm(N); for (int i = 0; i < N; i++) pm[i] = N - 1 - i;
    bool dense = f == F_ROW || f == F_COL; qp_int *PP = perm ? AR.put(pm) : nullptr; double *c = AR.put(q.c), *h = AR.put(q.h), *b = p ? AR.put(q.b) : nullptr;
    char hist[64] = ""; for (int o : ops) snprintf(hist + strlen(hist), 8, "S%d ", o);
    auto chk = [&](const char *w) { count("comparisons"); if (!AR.same()) violation("caller-owned input changed during %s | %s", w, show(q).c_str()); };
    detail("%s %s sigma_d=%g history setup %scleanup: a write to (or release of) caller-owned memory kills the process", fmt_name(f), perm ? "user permutation" : "built-in ordering", sigma_d, hist);
    if (dense) {
        double *P = AR.put(f == F_ROW ? q.P : colm(q.P, n, n)), *G = AR.put(f == F_ROW ? q.G : colm(q.G, m, n)), *A = p ? AR.put(f == F_ROW ? q.A : colm(q.A, p, n)) : nullptr; AR.seal();
        Q = QP_SETUP_dense(n, m, p, P, A, G, c, h, b, PP, f == F_ROW ? ROW_MAJOR_ORDERING : COLUMN_MAJOR_ORDERING); Q->sigma_d = sigma_d;
    } else {
        int ord = f == F_CCSREV ? 1 : f == F_CCSROT ? 2 : f == F_CCSSWAPZ ? 3 : 0, z = f == F_CCSZ ? 1 : f == F_CCSSWAPZ ? 2 : 0; Ccs P = to_ccs(q.P, n, n, ord, z), G = to_ccs(q.G, m, n, ord, z), A; if (p) A = to_ccs(q.A, p, n, ord, z);
        qp_int *pj = AR.put(P.jc), *pi = AR.put(P.ir), *gj = AR.put(G.jc), *gi = AR.put(G.ir), *aj = p ? AR.put(A.jc) : nullptr, *ai = p ? AR.put(A.ir) : nullptr; double *pp = AR.put(P.pr), *gp = AR.put(G.pr), *ap = p ? AR.put(A.pr) : nullptr; AR.seal();
        Q = QP_SETUP(n, m, p, pj, pi, pp, aj, ai, ap, gj, gi, gp, c, h, b, sigma_d, PP);
    }
    chk("setup"); count("evaluations");
    for (int o : ops) { Q->options->maxit = OPS[o].maxit; Q->options->reltol = Q->options->abstol = OPS[o].tol; Q->options->sigma = OPS[o].sigma; qp_int r = QP_SOLVE(Q); count(r == 0 ? "exit0" : "exit_other"); count("evaluations"); if (Q->stats->IterationCount > 0) count("nontrivial"); chk("solve"); }
    if (dense) QP_CLEANUP_dense(Q); else QP_CLEANUP(Q); chk("cleanup"); count("evaluations");
}
int main(int argc, char **argv) {
    std::vector<Family> F; bool TH = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
    auto *SM = new std::vector<SCase>(structured_menu(TH));
    struct UU { const char *nm; Universe *u; long sq, st; };
    for (auto &x : std::vector<UU>{{"n2m0p0", new Universe(2, 0, 0, -2, 2), 1, 1}, {"n2m0p1", new Universe(2, 0, 1, -1, 1), 1, 1}, {"n1m1p0", new Universe(1, 1, 0, -1, 2), 1, 1}, {"n1m2p0", new Universe(1, 2, 0, -1, 2), 1, 1}, {"n1m1p1", new Universe(1, 1, 1, -1, 2), 1, 1}, {"n2m1p0", new Universe(2, 1, 0, -1, 1), 1, 1}, {"n2m1p1", new Universe(2, 1, 1, -1, 1), 1, 1}, {"n2m2p0", new Universe(2, 2, 0, -1, 1), 1, 1}, {"n2m2p1", new Universe(2, 2, 1, -1, 1, -1, 1), 5, 1}, {"n1m1p2", new Universe(1, 1, 2, -1, 1), 1, 1}, {"n1m4p0", new Universe(1, 4, 0, -1, 1), 3, 1}, {"n1m3p1", new Universe(1, 3, 1, -1, 1), 5, 1}, {"n2m1p2", new Universe(2, 1, 2, -1, 1, -1, 1), 61, 7}, {"n2m3p1", new Universe(2, 3, 1, -1, 1, -1, 1), 1201, 150}})
        F.push_back({x.nm, [=](bool t) { return x.u->size() / (t ? x.st : x.sq); }, [=](long k) { Prob q = from_int(x.u->get(k * (TH ? x.st : x.sq))); sample(show(q)); history(q, (int)(k % F_NFMT), k / 3 % 2, k % 5 == 0 ? 0.2 : 0, {(int)(k % 5), 0}); if (TH) for (int f = 0; f < F_NFMT; f++) history(q, f, !(k / 3 % 2), 0, {2, (int)(k % 5), 0}); }, 256});
    F.push_back({"strata-n3", [=](bool) { return 20000L * (TH ? 20 : 1); }, [=](long k) { static Strata3 *S = new Strata3(3, 2, true); Prob q = from_int(S->get((k * 7919) % S->size())); history(q, (int)(k % F_NFMT), k / 7 % 2, k % 11 == 0 ? 0.1 : 0, {2, 0}); }, 128});
    // all histories up to depth 3 (thorough 4) on the structured catalogue's small members and all formats
    std::vector<SCase> sm; for (auto &s : *SM) if (s.N == 1 || s.N == 2 || s.N == 5) if (s.pat < 3) sm.push_back(s);
    long nh = 0; std::vector<std::vector<int>> H; { std::vector<std::vector<int>> fr{{}}; H.push_back({}); for (int d = 0; d < (TH ? 4 : 3); d++) { std::vector<std::vector<int>> nx; for (auto &v : fr) for (int o = 0; o < 5; o++) { auto w = v; w.push_back(o); nx.push_back(w); H.push_back(w); } fr = nx; } nh = (long)H.size(); }
    F.push_back({"histories", [=](bool) { return (long)sm.size() * F_NFMT * 2; }, [=](long k) { auto &s = sm[k / (F_NFMT * 2)]; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag + " x all histories"); for (long i = 0; i < nh; i++) history(q, (int)(k / 2 % F_NFMT), k & 1, i % 3 == 2 ? 0.2 : 0, H[i]); count("histories", nh); }, 1});
    F.push_back({"structured", [=](bool) { return (long)SM->size(); }, [=](long k) { auto &s = (*SM)[k]; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); for (int f = 0; f < F_NFMT; f++) { if (s.N > 40 && f != (int)(k % F_NFMT)) continue; history(q, f, f & 1, 0, {2, 0}); history(q, f, !(f & 1), 0.3, {0, 3}); } }, 1});
    F.push_back(big::family(TH, [](const big::Prob &q, int kind, long k) { std::vector<int> L = big::perms(q, kind); int pm = L[k % L.size()]; AR.reset(); int N = q.n + q.m + q.p; std::vector<qp_int> P0(N); for (int i = 0; i < N; i++) P0[i] = pm == 1 ? N - 1 - i : i < q.m ? q.n + q.p + i : i - q.m; qp_int *PP = pm ? AR.put(P0) : nullptr; Ccs P = big::ccs(q.n, q.n, q.P, k & 1), G = big::ccs(q.m, q.n, q.G, k & 1), A = big::ccs(q.p, q.n, q.A, k & 1); bool e = q.p > 0;
        double *c = AR.put(q.c), *h = AR.put(q.h), *b = e ? AR.put(q.b) : nullptr, *Pp = AR.put(P.pr), *Gp = AR.put(G.pr), *Ap = e ? AR.put(A.pr) : nullptr; qp_int *Pj = AR.put(P.jc), *Pi = AR.put(P.ir), *Gj = AR.put(G.jc), *Gi = AR.put(G.ir), *Aj = e ? AR.put(A.jc) : nullptr, *Ai = e ? AR.put(A.ir) : nullptr; AR.seal();
        QP *Q = QP_SETUP(q.n, q.m, q.p, Pj, Pi, Pp, Aj, Ai, Ap, Gj, Gi, Gp, c, h, b, 0, PP); Q->options->verbose = 0; Q->options->maxit = 2; QP_SOLVE(Q); Q->options->maxit = 100; QP_SOLVE(Q); QP_CLEANUP(Q); count("transitions", 4); count("comparisons"); if (!AR.same()) violation("caller-owned input changed | %s", q.tag.c_str()); }));
    { auto *SW = new std::vector<SCase>(sweep_menu(TH)); F.push_back({"sizes", [=](bool) { return (long)SW->size(); }, [=](long k) { auto &s = (*SW)[k]; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); history(q, (int)(k % F_NFMT), k / 7 & 1, 0, {2, 0}); }, 8}); }
    { auto *SV = new std::vector<std::pair<Prob, long>>(special_menu(catalogue(true), 6));
      F.push_back({"special-values", [=](bool) { return (long)SV->size(); }, [=](long k) { Prob q = special((*SV)[k].first, (*SV)[k].second); if (k % 997 == 0) sample(show(q)); for (int f = 0; f < F_NFMT; f++) { if (!TH && f > F_CCS && f != (int)(3 + k % 4)) continue; history(q, f, (f + k) & 1, k % 5 == 0 ? 0.2 : 0, {(int)(k % 5), 0}); } }, 64}); }
    return main_(argc, argv, F);
}
