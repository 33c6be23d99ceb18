// C08 (sequential part): results do not depend on heap contents, on what ran before, or on which problems are alive.
// The allocator wrapper fills every block handed to the library with a chosen byte.
#ifndef MSAN
#define MSAN 0
#endif
#include "cat.hpp"
#include "acct.hpp"
#include <sys/prctl.h>
using namespace core;
struct Ro { Res a, b; }; // a short solve, then a full one
static bool same2(const Res &a, const Res &b) { return same(a, b) && numeq(a.rx, b.rx) && (a.y.empty() || numeq(a.ry, b.ry)) && numeq(a.rz, b.rz) && numeq(a.mu, b.mu); }
static void __attribute__((noinline)) stackfill(int v) { volatile char b[1 << 16]; memset((void *)b, v, sizeof b); asm volatile("" : : "r"(b) : "memory"); } // what the library finds in its uninitialised locals
struct Sess { // setup, solve(2), solve(100), cleanup as separate operations
    const Prob &q; int fmt; double sd; std::vector<qp_int> pm; bool perm; Inst *I = nullptr; int st = 0; Ro r;
    Sess(const Prob &p, int f, bool pr, double s) : q(p), fmt(f), sd(s), perm(pr) { for (int i = 0, N = q.n + q.m + q.p; i < N; i++) pm.push_back(N - 1 - i); }
    void op() { if (acctn::fill >= 0) stackfill(acctn::fill); acctn::In in(1); count("transitions"); Opt o; o.sigma_d = sd; o.maxit = 2; o.reltol = o.abstol = 1e-8;
        switch (st++) { case 0: I = new Inst(q, fmt, o, perm ? &pm : nullptr); break; case 1: r.a = I->solve(); break; case 2: I->qp->options->maxit = 100; r.b = I->solve(); break; case 3: delete I; I = nullptr; break; } }
    void all() { for (int i = 0; i < 4; i++) op(); }
    ~Sess() { if (I) delete I; }
};
static Ro solo(const Prob &q, int f, bool pr, double sd) { Sess s(q, f, pr, sd); s.all(); return s.r; }
static void cmp(const Ro &x, const Ro &y, const char *how, const Prob &q, int f) { count("evaluations"); if (x.b.it > 0) count("nontrivial"); if (!same2(x.a, y.a) || !same2(x.b, y.b)) violation("%s changes the result: %s / %s instead of %s / %s | %s %s", how, shr(y.a).c_str(), shr(y.b).c_str(), shr(x.a).c_str(), shr(x.b).c_str(), fmt_name(f), show(q).c_str()); }
static const int FILLS[] = {0x00, 0xFF, 0x7F, 0x3F, 0x01, 0xC0};
static void fills(const Prob &q, int f, bool pr, double sd, int nf) { Ro ref; for (int i = 0; i < nf; i++) { acctn::fill = FILLS[i]; Ro r = solo(q, f, pr, sd); if (!i) ref = r; else { char b[60]; snprintf(b, 60, "heap filled with 0x%02x instead of 0x00", FILLS[i]); cmp(ref, r, b, q, f); } } acctn::fill = -1; Ro r = solo(q, f, pr, sd); cmp(ref, r, "an unfilled heap", q, f); }
// all merges of k sequences of 4 (or fewer) operations
static void merges(std::vector<int> left, std::vector<int> &cur, const std::function<void(const std::vector<int> &)> &go) { bool any = false; for (size_t t = 0; t < left.size(); t++) if (left[t]) { any = true; left[t]--; cur.push_back((int)t); merges(left, cur, go); cur.pop_back(); left[t]++; } if (!any) go(cur); }
// ---- twins: problems that agree in every size and count (and lie in the same caller buffers) but differ in pattern or values
static Prob permuted(const Prob &q, int how) { // variables (1,2) or rows (3) renamed
    Prob r = q; int n = q.n; auto v = [&](int i) { return how == 1 ? n - 1 - i : how == 2 ? (i + 1) % n : i; }; auto w = [&](int i, int k) { return how == 3 ? k - 1 - i : how == 2 && k ? (i + 1) % k : i; };
    for (int i = 0; i < n; i++) { r.c[v(i)] = q.c[i]; for (int j = 0; j < n; j++) r.P[(size_t)v(i) * n + v(j)] = q.P[(size_t)i * n + j]; }
    for (int i = 0; i < q.m; i++) { r.h[w(i, q.m)] = q.h[i]; for (int j = 0; j < n; j++) r.G[(size_t)w(i, q.m) * n + v(j)] = q.G[(size_t)i * n + j]; }
    for (int i = 0; i < q.p; i++) { r.b[w(i, q.p)] = q.b[i]; for (int j = 0; j < n; j++) r.A[(size_t)w(i, q.p) * n + v(j)] = q.A[(size_t)i * n + j]; }
    return r; }
static std::vector<Prob> twins(const Prob &q) { std::vector<Prob> T; for (int h : {1, 2, 3}) T.push_back(permuted(q, h)); Prob r = q; for (auto &x : r.P) x *= 3; T.push_back(r); r = q; for (auto &x : r.c) x -= 0.75; T.push_back(r); r = q; for (auto &x : r.h) x += 0.125; T.push_back(r); r = q; for (auto &x : r.b) x += 0.125; for (auto &x : r.G) x *= 2; for (auto &x : r.h) x *= 2; T.push_back(r); r = q; for (auto &x : r.A) x *= -1; for (auto &x : r.b) x *= -1; if (q.n > 1) { r.c[0] += 0.5; r.c[q.n - 1] -= 0.5; } T.push_back(r); return T; }
static char BUF[1 << 18]; static size_t btop; static double *bd(const V &v) { double *p = (double *)(BUF + btop); btop += 8 * v.size() + 8; if (btop > sizeof BUF) abort(); std::copy(v.begin(), v.end(), p); return p; } static qp_int *bi(const std::vector<qp_int> &v) { qp_int *p = (qp_int *)(BUF + btop); btop += 8 * v.size() + 8; if (btop > sizeof BUF) abort(); std::copy(v.begin(), v.end(), p); return p; }
static Ro inplace(const Prob &q, bool dense, bool perm, double sd) { // one life cycle with the data in BUF, at the same addresses for every problem of the same sizes
    acctn::In in(1); btop = 0; memset(BUF, 0, 64); int n = q.n, m = q.m, p = q.p; std::vector<qp_int> pm; for (int i = n + m + p - 1; i >= 0; i--) pm.push_back(i); qp_int *PP = perm ? bi(pm) : nullptr; double *c = bd(q.c), *h = bd(q.h), *b = p ? bd(q.b) : nullptr; QP *Q; count("transitions", 4);
    if (dense) { double *P = bd(q.P), *G = bd(q.G), *A = p ? bd(q.A) : nullptr; Q = QP_SETUP_dense(n, m, p, P, A, G, c, h, b, PP, ROW_MAJOR_ORDERING); Q->sigma_d = sd; }
    else { Ccs P = to_ccs(q.P, n, n), G = to_ccs(q.G, m, n), A; if (p) A = to_ccs(q.A, p, n); qp_int *pj = bi(P.jc), *gj = bi(G.jc), *aj = p ? bi(A.jc) : nullptr, *pi = bi(P.ir), *gi = bi(G.ir), *ai = p ? bi(A.ir) : nullptr; double *pp = bd(P.pr), *gp = bd(G.pr), *ap = p ? bd(A.pr) : nullptr; Q = QP_SETUP(n, m, p, pj, pi, pp, aj, ai, ap, gj, gi, gp, c, h, b, sd, PP); }
    auto snap = [&](long ret) { Res r; r.ret = ret; r.flag = Q->stats->Flag; r.it = Q->stats->IterationCount; r.fval = Q->stats->fval; r.rx = Q->stats->n_rx; r.ry = Q->stats->n_ry; r.rz = Q->stats->n_rz; r.mu = Q->stats->n_mu; r.x.assign(Q->x, Q->x + n); if (p) r.y.assign(Q->y, Q->y + p); r.z.assign(Q->z, Q->z + m); r.s.assign(Q->s, Q->s + m); return r; };
    Ro r; Q->options->reltol = Q->options->abstol = 1e-8; Q->options->maxit = 2; r.a = snap(QP_SOLVE(Q)); Q->options->maxit = 100; r.b = snap(QP_SOLVE(Q)); if (dense) QP_CLEANUP_dense(Q); else QP_CLEANUP(Q); return r; }
// ---- reference results from a process in which nothing was solved before: a server forked when the worker starts forks again for every request
static std::function<Ro(long, long, long)> REF; static int rq[2], rp[2]; static pid_t srv;
static void wr(int fd, const void *p, size_t n) { while (n) { ssize_t k = write(fd, p, n); if (k <= 0) _exit(7); p = (const char *)p + k; n -= (size_t)k; } }
static bool rd(int fd, void *p, size_t n) { while (n) { ssize_t k = read(fd, p, n); if (k <= 0) return false; p = (char *)p + k; n -= (size_t)k; } return true; }
static void put(int fd, const Res &r) { double d[8] = {(double)r.ret, (double)r.flag, (double)r.it, r.fval, r.rx, r.ry, r.rz, r.mu}; wr(fd, d, sizeof d); for (auto v : {&r.x, &r.y, &r.z, &r.s}) { long n = (long)v->size(); wr(fd, &n, 8); wr(fd, v->data(), 8 * n); } }
static bool get(int fd, Res &r) { double d[8]; if (!rd(fd, d, sizeof d)) return false; r.ret = (long)d[0]; r.flag = (long)d[1]; r.it = (long)d[2]; r.fval = d[3]; r.rx = d[4]; r.ry = d[5]; r.rz = d[6]; r.mu = d[7]; for (auto v : {&r.x, &r.y, &r.z, &r.s}) { long n; if (!rd(fd, &n, 8)) return false; v->resize(n); if (n && !rd(fd, v->data(), 8 * n)) return false; } return true; }
static void start_server() { if (pipe(rq) || pipe(rp)) _exit(7); pid_t w = getpid(); srv = fork(); if (srv) { close(rq[0]); close(rp[1]); return; } prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != w) _exit(0); close(rq[1]); close(rp[0]);
    long a[3]; while (rd(rq[0], a, sizeof a)) { pid_t g = fork(); if (!g) { Ro r = REF(a[0], a[1], a[2]); put(rp[1], r.a); put(rp[1], r.b); _exit(0); } int st; waitpid(g, &st, 0); char ok = WIFEXITED(st) && !WEXITSTATUS(st); if (!ok) _exit(8); } _exit(0); }
static Ro pristine(long mode, long k, long i) { long a[3] = {mode, k, i}; Ro r; wr(rq[1], a, sizeof a); if (!get(rp[0], r.a) || !get(rp[0], r.b)) { fprintf(stderr, "the solve in a fresh process died\n"); abort(); } return r; }
int main(int argc, char **argv) {
    bool TH = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"); for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "thorough")) TH = true;
    std::vector<Family> F; auto *C = new std::vector<Prob>(catalogue(true)); int nc = (int)C->size(); auto *SM = new std::vector<SCase>(structured_menu(TH));
    struct UU { const char *nm; Universe *u; long sq, st; };
    for (auto &x : std::vector<UU>{{"fill-n2m0p0", new Universe(2, 0, 0, -2, 2), 1, 1}, {"fill-n2m0p1", new Universe(2, 0, 1, -1, 1), 1, 1}, {"fill-n1m1p0", new Universe(1, 1, 0, -1, 2), 1, 1}, {"fill-n1m2p0", new Universe(1, 2, 0, -1, 2), 1, 1}, {"fill-n1m1p1", new Universe(1, 1, 1, -1, 2), 1, 1}, {"fill-n2m1p0", new Universe(2, 1, 0, -1, 1), 1, 1}, {"fill-n2m2p0", new Universe(2, 2, 0, -1, 1), 1, 1}, {"fill-n2m2p1", new Universe(2, 2, 1, -1, 1, -1, 1), 11, 1}, {"fill-n1m1p2", new Universe(1, 1, 2, -1, 1), 1, 1}, {"fill-n1m4p0", new Universe(1, 4, 0, -1, 1), 3, 1}, {"fill-n1m3p1", new Universe(1, 3, 1, -1, 1), 5, 1}, {"fill-n2m1p2", new Universe(2, 1, 2, -1, 1, -1, 1), 61, 7}, {"fill-n2m3p1", new Universe(2, 3, 1, -1, 1, -1, 1), 1201, 150}})
        F.push_back({x.nm, [=](bool t) { return x.u->size() / (t ? x.st : x.sq); }, [=](long k) { Prob q = from_int(x.u->get(k * (TH ? x.st : x.sq))); sample(show(q)); fills(q, (int)(k % F_NFMT), k / 3 % 2, k % 5 == 0 ? 0.2 : 0, 4); }, 128});
    F.push_back({"fill-structured", [=](bool) { return (long)SM->size(); }, [=](long k) { auto &s = (*SM)[k]; if (!TH && s.N > 40 && !cheap(s)) return; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); for (int f = 0; f < F_NFMT; f++) if (s.N <= 12 || f == (int)(k % F_NFMT)) fills(q, f, (f + k) & 1, f == 2 ? 0.3 : 0, s.N <= 12 ? 6 : 3); }, 1});
    { auto *SW = new std::vector<SCase>(sweep_menu(TH)); F.push_back({"fill-sizes", [=](bool) { return (long)SW->size(); }, [=](long k) { auto &s = (*SW)[k]; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); fills(q, (int)(k % F_NFMT), k / 7 % 2 && s.N <= 150, k % 5 == 0 ? 0.2 : 0, 3); }, 8}); }
    // every ordered pair of problems: the second solved after the first, and every merge of their operations
    { auto *SV = new std::vector<std::pair<Prob, long>>(special_menu(catalogue(true), 5));
      F.push_back({"fill-special-values", [=](bool) { return (long)SV->size() / (TH ? 1 : 3); }, [=](long k) { k *= TH ? 1 : 3; Prob q = special((*SV)[k].first, (*SV)[k].second); fills(q, (int)(k % F_NFMT), k / 3 % 2, k % 5 == 0 ? 0.2 : 0, 4); }, 64}); }
    F.push_back({"pairs", [=](bool) { return (long)nc * nc * 4; }, [=](long k) { int v = (int)(k % 4); const Prob &a = (*C)[k / 4 % nc], &b = (*C)[k / 4 / nc]; int fa = (int)((k / 4 + v) % F_NFMT), fb = (int)((k / 4 / nc + 3 * v) % F_NFMT); double sd = v == 3 ? 0.2 : 0;
        Ro ra = pristine(1, k, 0), rb = pristine(1, k, 1); sample(show(a) + " with " + show(b)); { Ro r = solo(a, fa, v & 1, sd); cmp(ra, r, "another problem solved before", a, fa); }
        std::vector<int> cur; merges({4, 4}, cur, [&](const std::vector<int> &s) { count("traces"); count("states", 8); Sess A(a, fa, v & 1, sd), B(b, fb, v & 1, sd); std::string h; for (int t : s) { h += t ? 'B' : 'A'; (t ? B : A).op(); } h = "operation order " + h; cmp(ra, A.r, h.c_str(), a, fa); cmp(rb, B.r, h.c_str(), b, fb); }); }, 1});
    F.push_back({"triples", [=](bool) { return (long)(TH ? nc * 9 : nc * 3); }, [=](long k) { const Prob *P[3] = {&(*C)[k % nc], &(*C)[(k * 5 + 1) % nc], &(*C)[(k * 3 + 2 + k / nc) % nc]}; int f[3]; Ro r[3]; for (int i = 0; i < 3; i++) { f[i] = (int)((k + 2 * i) % F_NFMT); r[i] = solo(*P[i], f[i], k & 1, 0); }
        std::vector<int> cur; merges({3, 3, 3}, cur, [&](const std::vector<int> &s) { count("traces"); count("states", 9); Sess *S[3]; for (int i = 0; i < 3; i++) S[i] = new Sess(*P[i], f[i], k & 1, 0); std::string h = "operation order of three problems "; for (int t : s) { h += (char)('A' + t); S[t]->op(); } for (int i = 0; i < 3; i++) { cmp(r[i], S[i]->r, h.c_str(), *P[i], f[i]); delete S[i]; } }); }, 1});
    // a problem solved after each of its twins, the caller's data at the same addresses, against the same problem solved after an unrelated one
    auto *TW = new std::vector<Prob>; for (int N : {1, 2, 3, 4, 6, 9}) for (int k = 0; k < NKIND; k++) for (int pat : {1, 2}) { if (N < 9 || TH || pat == 1) TW->push_back(structured(k, N, pat)); } for (auto &q : *C) TW->push_back(q); int nt = (int)TW->size();
    F.push_back({"twins", [=](bool) { return (long)nt * 4; }, [=](long k) { int v = (int)(k % 4); const Prob &q = (*TW)[k / 4]; bool dense = v & 1, perm = v >= 2; double sd = k % 7 == 0 ? 0.2 : 0; std::vector<Prob> T = twins(q); T.push_back(q); sample(q.tag);
        std::vector<Ro> ref; for (auto &t : T) ref.push_back(pristine(0, k, (long)(&t - &T[0]))); count("states", (long)T.size());
        for (size_t i = 0; i < T.size(); i++) for (size_t j = 0; j < T.size(); j++) { if (!TH && i + 1 < T.size() && j + 1 < T.size() && j > i + 1) continue; Ro x = inplace(T[i], dense, perm, sd); cmp(ref[i], x, "a similar problem solved before", T[i], 0); x = inplace(T[j], dense, perm, sd); char b[80]; snprintf(b, 80, "twin %zu solved right before twin %zu in the same buffers", i, j); cmp(ref[j], x, b, T[j], 0); count("traces"); if (viol_in_case) return; } }, 1});
    // one process, very many life cycles
    F.push_back({"long-history", [=](bool t) { return t ? 16L : 8L; }, [=](long k) { const Prob &q = (*C)[k % 8]; int f = (int)(k % F_NFMT); long R = TH ? 250000 : 70000; Ro ref = solo(q, f, k & 1, 0); sample(q.tag); for (long i = 1; i < R; i++) { Ro r = solo(q, f, k & 1, 0); if (!same2(ref.a, r.a) || !same2(ref.b, r.b)) { char b[60]; snprintf(b, 60, "life cycle number %ld in the process", i + 1); cmp(ref, r, b, q, f); return; } } count("evaluations", R); count("nontrivial", R); count("traces"); }, 1});
    REF = [=](long mode, long k, long i) -> Ro { int v = (int)(k % 4); if (mode == 0) { const Prob &q = (*TW)[k / 4]; std::vector<Prob> T = twins(q); T.push_back(q); return inplace(T[i], v & 1, v >= 2, k % 7 == 0 ? 0.2 : 0); }
        return i ? solo((*C)[k / 4 / nc], (int)((k / 4 / nc + 3 * v) % F_NFMT), v & 1, v == 3 ? 0.2 : 0) : solo((*C)[k / 4 % nc], (int)((k / 4 + v) % F_NFMT), v & 1, v == 3 ? 0.2 : 0); };
    worker_init = start_server;
    return main_(argc, argv, F);
}
