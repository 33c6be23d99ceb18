// C11: the ordering routine over all small directed patterns, undirected graphs, blow-ups and large structured graphs
#include "core.hpp"
extern "C" {
#include "amd.h"
}
using namespace core; typedef SuiteSparse_long L; typedef std::vector<L> PV;
static void *t_malloc(size_t n) { return malloc(n); }
template <class T> struct Buf { T *p; size_t n; Buf(const std::vector<T> &v) : p((T *)malloc(v.size() * sizeof(T))), n(v.size()) { for (size_t i = 0; i < n; i++) p[i] = v[i]; } Buf(size_t k, T v) : p((T *)malloc(k * sizeof(T))), n(k) { for (size_t i = 0; i < k; i++) p[i] = v; } ~Buf() { free(p); } Buf(const Buf &) = delete; T &operator[](size_t i) { return p[i]; } bool is(const std::vector<T> &v) const { return v.size() == n && (n == 0 || !memcmp(p, v.data(), n * sizeof(T))); } };
static std::string pat(int n, const PV &Ap, const PV &Ai) { std::string s = "n=" + std::to_string(n) + " Ap=["; for (int j = 0; j <= n && j < 40; j++) s += std::to_string(Ap[j]) + ","; s += "] Ai=["; for (size_t k = 0; k < Ai.size() && k < 120; k++) s += std::to_string(Ai[k]) + ","; return s + "]"; }
struct Ctl { const char *nm; bool null; double dense, aggr; };
static const Ctl CT[] = {{"default", true, 0, 0}, {"dense=10 aggressive=0", false, 10, 0}, {"dense=-1 aggressive=1", false, -1, 1}, {"dense=0 aggressive=1", false, 0, 1}, {"dense=0.5 aggressive=0", false, 0.5, 0}, {"dense=3 aggressive=2", false, 3, 2}, {"dense=1e9 aggressive=-1", false, 1e9, -1}, {"dense=-1 aggressive=0", false, -1, 0}, {"dense=NaN aggressive=NaN", false, NAN, NAN}, {"dense=inf aggressive=inf", false, INFINITY, INFINITY}, {"dense=1e300 aggressive=0", false, 1e300, 0}, {"dense=-inf aggressive=0", false, -INFINITY, 0}};
enum { NC = 12 };
typedef std::vector<std::vector<uint64_t>> Bits;
struct True { long nz, nzdiag, both, offd, nzaat; std::vector<int> deg; Bits adj; std::vector<std::vector<int>> nb; }; // facts about the (deduplicated) pattern
static True facts(int n, const PV &Ap, const PV &Ai) {
    True t; int w = (n + 63) / 64; Bits A(n, std::vector<uint64_t>(w, 0)); t.adj = A; for (int j = 0; j < n; j++) for (L p = Ap[j]; p < Ap[j + 1]; p++) A[j][Ai[p] >> 6] |= 1ULL << (Ai[p] & 63);
    auto has = [&](int j, int i) { return A[j][i >> 6] >> (i & 63) & 1; }; t.nz = t.nzdiag = t.both = t.offd = t.nzaat = 0;
    for (int j = 0; j < n; j++) for (int b = 0; b < w; b++) { uint64_t x = A[j][b]; while (x) { int i = b * 64 + __builtin_ctzll(x); x &= x - 1; t.nz++; if (i == j) t.nzdiag++; else { t.offd++; if (has(i, j)) t.both++; t.adj[i][j >> 6] |= 1ULL << (j & 63); t.adj[j][i >> 6] |= 1ULL << (i & 63); } } }
    t.deg.assign(n, 0); for (int j = 0; j < n; j++) { for (uint64_t x : t.adj[j]) t.deg[j] += __builtin_popcountll(x); t.nzaat += t.deg[j]; } return t;
}
// the same facts for patterns too large for bit sets (adjacency as lists)
static True sfacts(int n, const PV &Ap, const PV &Ai) {
    True t; t.nz = t.nzdiag = t.both = t.offd = t.nzaat = 0; t.nb.resize(n); std::vector<std::vector<int>> c(n), r(n); for (int j = 0; j < n; j++) { c[j].assign(Ai.begin() + Ap[j], Ai.begin() + Ap[j + 1]); std::sort(c[j].begin(), c[j].end()); c[j].erase(std::unique(c[j].begin(), c[j].end()), c[j].end()); } for (int j = 0; j < n; j++) for (int i : c[j]) r[i].push_back(j);
    t.deg.assign(n, 0); for (int j = 0; j < n; j++) { std::vector<int> &o = t.nb[j]; std::set_union(c[j].begin(), c[j].end(), r[j].begin(), r[j].end(), std::back_inserter(o)); size_t all = o.size(); o.erase(std::remove(o.begin(), o.end(), j), o.end()); long dg = (long)(all - o.size()); t.nz += (long)c[j].size(); t.nzdiag += dg; t.offd += (long)c[j].size() - dg; t.both += (long)(c[j].size() + r[j].size()) - 2 * dg - (long)o.size(); t.deg[j] = (int)o.size(); t.nzaat += t.deg[j]; } return t;
}
static bool isperm(const L *P, int n) { std::vector<char> s(n, 0); for (int k = 0; k < n; k++) { if (P[k] < 0 || P[k] >= n || s[P[k]]) return false; s[P[k]] = 1; } return true; }
static void counts(const True &t, int n, const L *P, double &lnz, double &lu, double &ldl, double &dmax) { // exact column counts of L for A(P,P)
    std::vector<int> inv(n); for (int k = 0; k < n; k++) inv[P[k]] = k;
    if (!t.nb.empty()) { // row subtrees of the elimination tree
        std::vector<int> par(n, -1), anc(n, -1), mark(n, -1), cc(n, 0); for (int k = 0; k < n; k++) for (int v : t.nb[P[k]]) for (int i = inv[v]; i < k && i >= 0;) { int nx = anc[i]; anc[i] = k; if (nx < 0) { par[i] = k; break; } if (nx == k) break; i = nx; }
        for (int k = 0; k < n; k++) { mark[k] = k; for (int v : t.nb[P[k]]) for (int i = inv[v]; i < k && i >= 0 && mark[i] != k; i = par[i]) { mark[i] = k; cc[i]++; } } lnz = lu = ldl = 0; dmax = 1; for (double f : cc) { lnz += f; lu += f * f; ldl += (f * f + f) / 2; dmax = std::max(dmax, f + 1); } return; }
    std::vector<std::vector<int>> kids(n); int w = (n + 63) / 64; Bits C(n, std::vector<uint64_t>(w, 0)); lnz = lu = ldl = 0; dmax = 1;
    for (int k = 0; k < n; k++) { auto &c = C[k]; for (int b = 0; b < w; b++) { uint64_t x = t.adj[P[k]][b]; while (x) { int i = inv[b * 64 + __builtin_ctzll(x)]; x &= x - 1; if (i > k) c[i >> 6] |= 1ULL << (i & 63); } }
        for (int ch : kids[k]) for (int b = k >> 6; b < w; b++) c[b] |= C[ch][b]; c[k >> 6] &= ~(1ULL << (k & 63)); for (int b = 0; b < (k >> 6); b++) c[b] = 0; if (k & 63) c[k >> 6] &= ~((1ULL << (k & 63)) - 1); else {}
        double f = 0; int first = -1; for (int b = 0; b < w; b++) { f += __builtin_popcountll(c[b]); if (first < 0 && c[b]) first = b * 64 + __builtin_ctzll(c[b]); } if (first >= 0) kids[first].push_back(k); lnz += f; lu += f * f; ldl += (f * f + f) / 2; dmax = std::max(dmax, f + 1); for (int ch : kids[k]) { std::vector<uint64_t>().swap(C[ch]); } }
}
// the most entries of L any minimum degree elimination can produce (ties broken in the worst way; indistinguishable vertices may or may not be
// counted in the degree), small graphs only
static double worst_md(const True &t, int n) {
    static std::map<std::vector<uint32_t>, double> cache; std::vector<uint32_t> a(n); for (int i = 0; i < n; i++) a[i] = (uint32_t)t.adj[i][0] & ~(1u << i); auto it = cache.find(a); if (it != cache.end()) return it->second;
    std::vector<double> w(1u << n, 0); for (uint32_t S = (1u << n) - 1; S-- > 0;) { // S eliminated; neighbours of v after that: reachable through S
        int dg[8], ex[8], md = 99; uint32_t cl[8] = {0}; for (int v = 0; v < n; v++) { if (S >> v & 1) continue; uint32_t seen = 1u << v, fr = a[v], r = 0; while (fr &= ~seen) { int u = __builtin_ctz(fr); seen |= 1u << u; if (S >> u & 1) fr |= a[u]; else r |= 1u << u; } dg[v] = __builtin_popcount(r); cl[v] = r | 1u << v; md = std::min(md, dg[v]); }
        for (int v = 0; v < n; v++) { ex[v] = dg[v]; if (!(S >> v & 1)) for (int u = 0; u < n; u++) if (u != v && cl[u] == cl[v]) ex[v]--; }
        double b = 0; for (int v = 0; v < n; v++) if (!(S >> v & 1) && ex[v] <= md) b = std::max(b, dg[v] + w[S | 1u << v]); w[S] = b; }
    if (cache.size() > 100000) cache.clear(); return cache[a] = w[0];
}
static bool forest(const True &t, int n) { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; auto f = [&](int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; }; if (!t.nb.empty()) { for (int i = 0; i < n; i++) for (int j : t.nb[i]) if (j < i) { int u = f(i), v = f(j); if (u == v) return false; p[u] = v; } return true; } for (int i = 0; i < n; i++) for (size_t b = 0; b < t.adj[i].size(); b++) { uint64_t x = t.adj[i][b]; while (x) { int j = (int)(b * 64) + __builtin_ctzll(x); x &= x - 1; if (j < i) { int u = f(i), v = f(j); if (u == v) return false; p[u] = v; } } } return true; }
static void order(int n, const PV &Ap, const PV &Ai, const True &t, const Ctl &c, bool jumbled, bool stats = true) {
    count("evaluations"); count("transitions"); if (t.offd) count("nontrivial");
    auto X = [&] { return pat(n, Ap, Ai) + " control " + c.nm; };
    Buf<L> ap(Ap), ai(Ai), P(n, -7); std::vector<double> cv = {c.dense, c.aggr, -1, -1, -1}; Buf<double> C(cv), I(AMD_INFO, 77.0); bool info = stats;
    L r = amd_l_order(n, ap.p, ai.p, P.p, c.null ? nullptr : C.p, info ? I.p : nullptr);
    if (r != (jumbled ? AMD_OK_BUT_JUMBLED : AMD_OK)) { violation("status %ld instead of %d | %s", (long)r, jumbled ? AMD_OK_BUT_JUMBLED : AMD_OK, X().c_str()); return; }
    if (!isperm(P.p, n)) { std::string s; for (int k = 0; k < n && k < 40; k++) s += std::to_string(P[k]) + ","; violation("result is no permutation: %s | %s", s.c_str(), X().c_str()); return; }
    if (!ap.is(Ap) || !ai.is(Ai) || !C.is(cv)) { violation("input modified | %s", X().c_str()); return; }
    if (!info) return;
    auto bad = [&](const char *w, double got, double want) { violation("Info: %s is %.17g instead of %.17g | %s", w, got, want, X().c_str()); };
    if (I[AMD_STATUS] != r) bad("status", I[AMD_STATUS], (double)r); if (I[AMD_N] != n) bad("n", I[AMD_N], n);
    if (I[AMD_NZ] != (double)Ap[n] && I[AMD_NZ] != (double)t.nz) bad("nz", I[AMD_NZ], (double)Ap[n]);
    if (I[AMD_NZDIAG] != t.nzdiag) bad("number of diagonal entries", I[AMD_NZDIAG], t.nzdiag);
    if (I[AMD_NZ_A_PLUS_AT] != t.nzaat) bad("nonzeros of A+A'", I[AMD_NZ_A_PLUS_AT], t.nzaat);
    double sym = t.offd ? (double)t.both / t.offd : 1; if (!(fabs(I[AMD_SYMMETRY] - sym) < 1e-12)) bad("symmetry", I[AMD_SYMMETRY], sym);
    if (c.null || (c.dense >= 0 && c.dense < 1e12)) { double a = c.null ? AMD_DEFAULT_DENSE : c.dense, th = a * sqrt((double)n); double lim = std::max(16.0, floor(th)); int nd = 0; for (int j = 0; j < n; j++) nd += t.deg[j] > lim;
        if (I[AMD_NDENSE] != nd) bad("number of dense rows", I[AMD_NDENSE], nd); else for (int k = n - nd; k < n; k++) if (!(t.deg[P[k]] > lim)) { violation("dense rows are not placed last (position %d holds row %ld) | %s", k, (long)P[k], X().c_str()); break; } if (nd) count("with_dense_rows"); }
    double lnz, lu, ldl, dm; counts(t, n, P.p, lnz, lu, ldl, dm); const double e = 1 - 1e-12;
    if (!(I[AMD_LNZ] >= lnz * e)) bad("bound on the nonzeros of L (below the true number)", I[AMD_LNZ], lnz); if (!(I[AMD_NDIV] >= lnz * e)) bad("divisions", I[AMD_NDIV], lnz);
    if (!(I[AMD_NMULTSUBS_LDL] >= ldl * e)) bad("LDL' multiply-subtract pairs", I[AMD_NMULTSUBS_LDL], ldl); if (!(I[AMD_NMULTSUBS_LU] >= lu * e)) bad("LU multiply-subtract pairs", I[AMD_NMULTSUBS_LU], lu); if (!(I[AMD_DMAX] >= dm * e)) bad("largest column of L", I[AMD_DMAX], dm);
    if (I[AMD_NDIV] != I[AMD_LNZ]) bad("divisions (one per entry of L)", I[AMD_NDIV], I[AMD_LNZ]); double both = (I[AMD_NMULTSUBS_LU] + I[AMD_LNZ]) / 2; if (!(fabs(I[AMD_NMULTSUBS_LDL] - both) <= 1e-9 * (1 + both))) bad("LDL' against LU multiply-subtract pairs", I[AMD_NMULTSUBS_LDL], both); if (I[AMD_NMULTSUBS_LU] > (n - 1.0) * n * (2.0 * n - 1) / 6 * (1 + 1e-9)) bad("LU multiply-subtract pairs (above dense)", I[AMD_NMULTSUBS_LU], (n - 1.0) * n * (2.0 * n - 1) / 6);
    if (I[AMD_NDENSE] == 0) { if (n <= 7) { double w = worst_md(t, n); if (lnz > w) bad("fill-in: entries of L (more than any minimum degree order gives)", lnz, w); else count("order_quality"); } if (forest(t, n)) { count("order_quality"); if (lnz > t.nzaat / 2) bad("fill-in: entries of L of a forest", lnz, t.nzaat / 2); } }
    double full = 0.5 * n * (n - 1.0); if (I[AMD_LNZ] > full * (1 + 1e-12)) bad("bound on the nonzeros of L (above the dense triangle)", I[AMD_LNZ], full); if (I[AMD_DMAX] > n) bad("largest column", I[AMD_DMAX], n);
    if (!(I[AMD_MEMORY] > 0) || !(I[AMD_NCMPA] >= 0)) bad("memory / garbage collections", I[AMD_MEMORY], I[AMD_NCMPA]); if (I[AMD_NCMPA] > 0) count("garbage_collections");
    for (int k = 14; k < AMD_INFO; k++) if (I[k] != -1) bad("unused entry", I[k], -1);
}
// the in-place routine with explicit elbow room (the documented minimum is n words): few spare words force garbage collections
static void inplace(int n, const True &t, int elbow, const Ctl &c) {
    count("evaluations"); count("transitions"); PV iw, pe(n), len(n); for (int j = 0; j < n; j++) { pe[j] = (L)iw.size(); for (size_t b = 0; b < t.adj[j].size(); b++) { uint64_t x = t.adj[j][b]; while (x) { iw.push_back((L)(b * 64 + __builtin_ctzll(x))); x &= x - 1; } } len[j] = (L)iw.size() - pe[j]; }
    L pf = (L)iw.size(); iw.resize(pf + elbow, -1); Buf<L> Iw(iw), Pe(pe), Len(len), Nv(n, -9), Nx(n, -9), La(n, -9), He(n, -9), El(n, -9), De(n, -9), W(n, -9); std::vector<double> cv = {c.dense, c.aggr, -1, -1, -1}; Buf<double> C(cv), I(AMD_INFO, 77.0);
    amd_l2(n, Pe.p, Iw.p, Len.p, (L)iw.size(), pf, Nv.p, Nx.p, La.p, He.p, El.p, De.p, W.p, c.null ? nullptr : C.p, I.p);
    bool ok = isperm(La.p, n); for (int k = 0; ok && k < n; k++) ok = Nx[La[k]] == k; if (I[AMD_NCMPA] > 0) count("garbage_collections");
    if (!ok) { std::string s; for (int j = 0; j < n && j < 24; j++) for (int i = 0; i < j; i++) if (t.adj[j][i >> 6] >> (i & 63) & 1) s += std::to_string(i) + "-" + std::to_string(j) + " "; violation("in-place ordering (elbow room %d, control %s) gives no permutation with inverse | n=%d edges %s", elbow, c.nm, n, s.c_str()); }
}
// storage variants of a pattern given as column sets: 0 ascending, 1 descending, 2 rotated, 3 every entry twice, 4 first entry of each column repeated at the end
static bool storeas(int n, const std::vector<std::vector<int>> &cols, int how, PV &Ap, PV &Ai) {
    Ap.assign(1, 0); Ai.clear(); bool jum = false; for (int j = 0; j < n; j++) { auto r = cols[j]; if (how == 1) std::reverse(r.begin(), r.end()); if (how == 2 && r.size() > 1) std::rotate(r.begin(), r.begin() + 1, r.end()); if (how == 3) { auto q = r; r.clear(); for (int i : q) { r.push_back(i); r.push_back(i); } } if (how == 4 && !r.empty()) r.push_back(r[0]); for (size_t k = 0; k + 1 < r.size(); k++) jum |= r[k] >= r[k + 1]; for (int i : r) Ai.push_back(i); Ap.push_back((L)Ai.size()); } return jum;
}
static void both(int n, const std::vector<std::vector<int>> &cols, int hows, int ctls, bool inpl, bool sparse = false) {
    PV Ap, Ai; True t; auto facts = [&](int n, const PV &a, const PV &b) { return sparse ? sfacts(n, a, b) : ::facts(n, a, b); }; for (int h = 0; h < hows; h++) { bool j = storeas(n, cols, h, Ap, Ai); if (h && !j) continue; if (h == 0) t = facts(n, Ap, Ai); if (h == 3) { PV a, b; storeas(n, cols, 0, a, b); t = facts(n, a, b); } for (int c = 0; c < ctls; c++) { order(n, Ap, Ai, t, CT[c], j); if (c == 0) order(n, Ap, Ai, t, CT[c], j, false); } }
    if (inpl) for (int e : {n, n + 1, n + n / 5 + 1}) for (int c = 0; c < 2; c++) inplace(n, t, e, CT[c]);
}
typedef std::vector<std::vector<int>> G; // undirected: symmetric adjacency lists without diagonal
static G fromedges(int n, const std::vector<std::pair<int, int>> &E) { std::vector<std::set<int>> s(n); for (auto &e : E) if (e.first != e.second) { s[e.first].insert(e.second); s[e.second].insert(e.first); } G g(n); for (int i = 0; i < n; i++) g[i].assign(s[i].begin(), s[i].end()); return g; }
static G sided(const G &g, int side) { G r = g; int n = (int)g.size(); if (side == 0) return r; for (int j = 0; j < n; j++) { std::vector<int> v; for (int i : g[j]) if (side == 1 ? i < j : side == 2 ? i > j : true) v.push_back(i); if (side == 3) { v.push_back(j); std::sort(v.begin(), v.end()); } r[j] = v; } return r; }
int main(int argc, char **argv) {
    amd_malloc = t_malloc; std::vector<Family> F; bool TH = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"); for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "thorough")) TH = true;
    for (int n = 1; n <= 4; n++) F.push_back({"digraphs-n" + std::to_string(n), [n](bool) { return 1L << (n * n); }, [n, TH](long k) { std::vector<std::vector<int>> c(n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (k >> (j * n + i) & 1) c[j].push_back(i); if (k == (1L << (n * n)) / 2 + 5) { PV a, b; storeas(n, c, 0, a, b); sample(pat(n, a, b)); } both(n, c, n < 4 || TH ? 5 : 4, n < 4 ? NC : 3, n < 4 || TH); }, 256});
    auto graphs = [&](int n, long stride, int hows, int ctls) { int ne = n * (n - 1) / 2; F.push_back({"graphs-n" + std::to_string(n), [=](bool) { return (1L << ne) / stride; }, [=](long k) { k *= stride; std::vector<std::pair<int, int>> E; int t = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, t++) if (k >> t & 1) E.push_back({i, j}); G g = fromedges(n, E); both(n, sided(g, (int)(k % 4)), hows, ctls, true); }, 128}); };
    graphs(5, 1, 5, NC); graphs(6, 1, 2, 3); graphs(7, TH ? 1 : 7, 1, 2); if (TH) graphs(8, 151, 1, 2);
    // blow-ups: every vertex of every graph on 4 vertices becomes a single vertex, a clique or an independent set (supervariables, mass elimination, equal hashes)
    F.push_back({"blowups-4", [TH](bool) { return 64L * 81 * (TH ? 7 : 3); }, [TH](long k) { int sz = 2 + (int)(k / (64 * 81)) * (TH ? 1 : 2), h = (int)(k % 64), ty = (int)(k / 64 % 81); int kind[4], st[5]; st[0] = 0; for (int v = 0; v < 4; v++) { kind[v] = ty % 3; ty /= 3; st[v + 1] = st[v] + (kind[v] ? sz : 1); }
        int n = st[4]; std::vector<std::pair<int, int>> E; int t = 0; for (int v = 0; v < 4; v++) { if (kind[v] == 1) for (int i = st[v]; i < st[v + 1]; i++) for (int j = st[v]; j < i; j++) E.push_back({i, j}); for (int u = v + 1; u < 4; u++, t++) if (h >> t & 1) for (int i = st[v]; i < st[v + 1]; i++) for (int j = st[u]; j < st[u + 1]; j++) E.push_back({i, j}); }
        int mul = 1; if (k % 2) for (mul = 3; std::__gcd(mul, n) != 1; mul++); for (auto &e : E) { e.first = e.first * mul % n; e.second = e.second * mul % n; } G g = fromedges(n, E); both(n, sided(g, (int)(k % 3)), 1, 4, true); }, 64});
    // near-twins: vertices that share all but a few neighbours, and whose neighbour numbers have the same sum (equal hash keys, equal degrees), behind pivots adjacent to the twins only
    F.push_back({"near-twins", [TH](bool) { return (TH ? 40L : 26L) * 24 * 4 * 2 * 2 * 3; }, [](long k) { int ord = (int)(k % 24), bg = (int)(k / 24 % 4), nd = 1 + (int)(k / 96 % 2), piv = 1 + (int)(k / 192 % 2), tw = (int)(k / 384 % 3), c = (int)(k / 1152); // tw: 0 two near-twins, 1 two and a true twin of each, 2 three near-twins
        int sz[4] = {c, nd * (tw == 2 ? 6 : 4), tw == 0 ? 2 : tw == 1 ? 4 : 3, piv}, st[4], perm[4] = {0, 1, 2, 3}, n = 0; for (int i = 0, f = ord; i < 4; i++) { int r = 4 - i, w = f % r; f /= r; std::rotate(perm + i, perm + i + w, perm + i + w + 1); } for (int i = 0; i < 4; i++) { st[perm[i]] = n; n += sz[perm[i]]; }
        int C = st[0], D = st[1], T = st[2], M = st[3], g = tw == 2 ? 6 : 4; std::vector<std::pair<int, int>> E; for (int t = 0; t < sz[2]; t++) { for (int i = 0; i < c; i++) E.push_back({T + t, C + i}); for (int i = 0; i < piv; i++) E.push_back({T + t, M + i}); int w = tw == 1 ? t % 2 : t; for (int d = 0; d < nd; d++) { E.push_back({T + t, D + d * g + w}); E.push_back({T + t, D + d * g + g - 1 - w}); } }
        for (int i = 0; i < c + sz[1]; i++) { int u = i < c ? C + i : D + i - c; auto at = [&](int j) { return j < c ? C + j : D + j - c; }; if (bg == 1) for (int j = 0; j < i; j++) E.push_back({u, at(j)}); if (bg == 2) E.push_back({u, at((i + 1) % (c + sz[1]))}); if (bg == 3) { E.push_back({u, at((i + 1) % (c + sz[1]))}); E.push_back({u, at((i + 3) % (c + sz[1]))}); E.push_back({u, at((i * 5 + 2) % (c + sz[1]))}); } }
        both(n, sided(fromedges(n, E), (int)(k % 4)), 1, k % 7 == 0 ? 4 : 2, k % 11 == 0); }, 32});
    // circulant graphs: every subset of offsets
    F.push_back({"circulants", [TH](bool) { long s = 0; for (int n = 5; n <= (TH ? 24 : 18); n++) s += 1L << (n / 2); return s; }, [](long k) { int n = 5; while (k >= (1L << (n / 2))) { k -= 1L << (n / 2); n++; } std::vector<std::pair<int, int>> E; for (int o = 1; o <= n / 2; o++) if (k >> (o - 1) & 1) for (int i = 0; i < n; i++) E.push_back({i, (i + o) % n}); both(n, sided(fromedges(n, E), (int)(k % 4)), 2, 4, true); }, 32});
    // base graph x size x number and kind of dense rows x labelling
    static const int NS[] = {17, 18, 20, 33, 64, 101, 150, 257, 500, 1000, 1500, 3000}; enum { BASES = 8 };
    auto graph = [](int base, int n, int nd, int lab) { std::vector<std::pair<int, int>> E; int q = std::max(1, (int)sqrt((double)n));
        for (int i = 0; i < n; i++) { if (base == 1 && i + 1 < n) E.push_back({i, i + 1}); if (base == 2) E.push_back({i, (i + 1) % n}); if (base == 3 && i) E.push_back({i, (i - 1) / 2}); if (base == 4) { if ((i + 1) % q) if (i + 1 < n) E.push_back({i, i + 1}); if (i + q < n) E.push_back({i, i + q}); } if (base == 5) { E.push_back({i, (i + 1) % n}); E.push_back({i, (i + 2) % n}); E.push_back({i, (i + 7) % n}); } if (base == 6) for (int j = i - i % 6; j < i; j++) E.push_back({i, j}); if (base == 7) { E.push_back({i, (int)((i * 17L + 5) % n)}); E.push_back({i, (int)(((long)i * i + 3) % n)}); } }
        for (int d = 0; d < nd; d++) { int v = (int)((d * 7L) % n); int lim = lab == 1 ? (int)(n * 2L / 3) : n; for (int i = 0; i < lim; i++) E.push_back({v, i}); }
        if (lab) { int mul = lab == 1 ? n - 1 : 5; if (n > 1) while (std::__gcd(mul, n) != 1) mul++; for (auto &e : E) { e.first = (int)((long)e.first * mul % n); e.second = (int)((long)e.second * mul % n); } } return E; };
    auto big = [=](long k) { int base = (int)(k % BASES); k /= BASES; int nd = (int)(k % 5); k /= 5; int lab = (int)(k % 3); k /= 3; int n = NS[k]; if (nd == 4) nd = n / 3; if (n > 500 && nd > 3) nd = 3;
        detail("base %d n %d dense rows %d labelling %d", base, n, nd, lab); G g = fromedges(n, graph(base, n, nd, lab)); if (k == 0) sample("structured base " + std::to_string(base) + " n " + std::to_string(n)); both(n, sided(g, (int)(base + nd + lab) % 4), n <= 150 ? 3 : 1, n <= 500 ? NC : 4, n <= 150); };
    F.push_back({"structured-dense-rows", [TH](bool) { return (long)BASES * 5 * 3 * (TH ? 12 : 10); }, big, 1});
    // every size in a range
    F.push_back({"structured-sizes", [TH](bool) { return (TH ? 1200L : 400L) * BASES * 2; }, [=](long k) { int base = (int)(k % BASES), nd = (int)(k / BASES % 2), n = (int)(k / BASES / 2) + 1, lab = (n + base) % 3; detail("base %d n %d dense rows %d labelling %d", base, n, nd, lab); both(n, sided(fromedges(n, graph(base, n, nd, lab)), (n / 3 + base + nd) % 4), n % 5 == 0 ? 2 : 1, TH ? 3 : n % 4 == 0 ? 2 : 1, n <= 60, n > 64); }, 8});
    // large sparse graphs: the base graphs with bounded fill (matching-free, path, cycle, tree, grid, clique blocks), stars and near-empty ones, around powers of two
    static const int HN[] = {4095, 4096, 4097, 10007, 32767, 32768, 32769, 65535, 65536, 65537, 100001, 131071, 131072, 131073, 262144, 262145}; static const int HB[] = {0, 1, 2, 3, 4, 6};
    F.push_back({"huge", [TH](bool) { return (TH ? 16L : 14L) * 6 * 2 * 2; }, [=](long k) { int base = HB[k % 6], nd = (int)(k / 6 % 2), v = (int)(k / 12 % 2), n = HN[k / 24], lab = (int)((k / 24 + k + v) % 3); if (!TH && v && n > 70000) { return; } detail("base %d n %d dense rows %d labelling %d", base, n, nd, lab); sample("base " + std::to_string(base) + " n " + std::to_string(n)); both(n, sided(fromedges(n, graph(base, n, nd, lab)), v ? 1 + (int)(k % 2) : 3 * (int)(k % 2)), 1, TH ? 3 : 1, false, true); }, 1});
    // invalid inputs: acceptance of every small (Ap, Ai), of both entry points
    for (int n = 0; n <= 3; n++) F.push_back({"validity-n" + std::to_string(n), [n](bool) { long t = 1; for (int i = 0; i <= n; i++) t *= 5; for (int i = 0; i < 3; i++) t *= n + 2; return t; }, [n](long k) {
        PV Ap(n + 1), Ai(3), big(8, 0); long t = k; for (auto &v : Ap) { v = t % 5 - 1; t /= 5; } for (auto &v : Ai) { v = t % (n + 2) - 1; t /= n + 2; } bool ok = Ap[0] == 0 && Ap[n] >= 0, jum = false; for (int j = 0; j < n; j++) ok = ok && Ap[j] <= Ap[j + 1]; if (ok) for (int j = 0; j < n; j++) for (L p = Ap[j]; p < Ap[j + 1]; p++) { ok = ok && Ai[p] >= 0 && Ai[p] < n; if (p > Ap[j] && Ai[p] <= Ai[p - 1]) jum = true; }
        for (int i = 0; i < 3; i++) big[i] = Ai[i]; Buf<L> ap(Ap), ai(big), P(n, -7); std::vector<double> I(AMD_INFO, 77); count("evaluations"); count("transitions", 2); if (ok && n) count("nontrivial"); L want = !ok ? AMD_INVALID : jum ? AMD_OK_BUT_JUMBLED : AMD_OK;
        L v = amd_l_valid(n, n, ap.p, ai.p); if (v != want) violation("validity check returns %ld instead of %ld | %s", (long)v, (long)want, pat(n, Ap, Ai).c_str());
        if (n == 0) { L r = amd_l_order(0, ap.p, ai.p, P.p, nullptr, I.data()); if (r != AMD_OK) violation("empty matrix gives status %ld", (long)r); }
        else { L r = amd_l_order(n, ap.p, ai.p, P.p, nullptr, I.data()); if (r != want || I[AMD_STATUS] != want) violation("ordering returns %ld (Info %g) instead of %ld | %s", (long)r, I[AMD_STATUS], (long)want, pat(n, Ap, Ai).c_str()); else if (ok && !isperm(P.p, n)) violation("no permutation | %s", pat(n, Ap, Ai).c_str()); }
        if (!ap.is(Ap) || !ai.is(big)) violation("input modified | %s", pat(n, Ap, Ai).c_str()); }, 1024});
    // larger patterns: every single defect, every place where rows are out of order or repeated
    static const int LN[] = {4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 128, 129, 257}; enum { NLN = 18 };
    F.push_back({"validity-larger", [](bool) { return (long)NLN * 4; }, [](long k) { int n = LN[k / 4], w = (int)(k % 4); PV Ap(1, 0), Ai; for (int j = 0; j < n; j++) { std::set<int> r; for (int d = 0; d < (w == 0 ? 2 : w == 1 ? j % 4 : w == 2 ? (j % 3 ? 0 : 4) : 1 + j % 2); d++) r.insert((j * 5 + d * 7) % n); for (int i : r) Ai.push_back(i); Ap.push_back((L)Ai.size()); }
        auto t = [&](L want, const char *what, long i) { count("evaluations"); count("transitions", 2); if (want != AMD_INVALID) count("nontrivial"); PV padded(Ai); padded.push_back(n - 1); Buf<L> ap(Ap), ai(padded), P(n, -7); std::vector<double> I(AMD_INFO, 77); L v = amd_l_valid(n, n, ap.p, ai.p), r = amd_l_order(n, ap.p, ai.p, P.p, nullptr, I.data());
            if (v != want) violation("validity check returns %ld instead of %ld, n=%d pattern %d, %s %ld", (long)v, (long)want, n, w, what, i); if (r != want || I[AMD_STATUS] != want) violation("ordering returns %ld (Info %g) instead of %ld, n=%d pattern %d, %s %ld", (long)r, I[AMD_STATUS], (long)want, n, w, what, i); else if (want != AMD_INVALID && !isperm(P.p, n)) violation("no permutation, n=%d pattern %d, %s %ld", n, w, what, i); if (!ap.is(Ap) || !ai.is(padded)) violation("input modified, n=%d pattern %d, %s %ld", n, w, what, i); };
        t(AMD_OK, "sorted", 0); for (size_t q = 0; q < Ai.size() && !viol_in_case; q++) { L o = Ai[q]; for (L v : {(L)-1, (L)n, ((L)1 << 32) + o, o - ((L)1 << 32)}) { Ai[q] = v; t(AMD_INVALID, "index out of range at entry", (long)q); } Ai[q] = o; }
        for (int j = 0; j < n && !viol_in_case; j++) for (L p = Ap[j]; p + 1 < Ap[j + 1]; p++) { std::swap(Ai[p], Ai[p + 1]); t(AMD_OK_BUT_JUMBLED, "rows exchanged at entry", p); std::swap(Ai[p], Ai[p + 1]); L o = Ai[p]; Ai[p] = Ai[p + 1]; t(AMD_OK_BUT_JUMBLED, "duplicate at entry", p); Ai[p] = o; }
        for (int j = 1; j < n && !viol_in_case; j++) { L o = Ap[j]; if (Ap[j - 1] > 0) { Ap[j] = Ap[j - 1] - 1; t(AMD_INVALID, "decreasing pointer of column", j); } Ap[j] = Ap[j + 1] + 1; t(AMD_INVALID, "pointer beyond the next of column", j); Ap[j] = o; } Ap[0] = 1; t(AMD_INVALID, "first pointer not zero", 1); Ap[0] = -1; t(AMD_INVALID, "first pointer not zero", -1); Ap[0] = 0; if (n > 1) { L o = Ap[n]; Ap[n] = -1; t(AMD_INVALID, "negative number of entries", 0); Ap[n] = o; } }, 1});
    F.push_back({"null-arguments", [](bool) { return 5L * 16; }, [](long k) { int n = (int)(k / 16) - 1, nu = (int)(k % 16); PV Ap(std::max(0, n) + 1, 0), Ai(1, 0), P(std::max(0, n) + 1); std::vector<double> I(AMD_INFO, 77); count("evaluations"); count("transitions"); L r = amd_l_order(n, nu & 1 ? nullptr : Ap.data(), nu & 2 ? nullptr : Ai.data(), nu & 4 ? nullptr : P.data(), nullptr, nu & 8 ? nullptr : I.data()); bool inv = n < 0 || (nu & 7); if (r != (inv ? AMD_INVALID : AMD_OK)) violation("n=%d with NULL mask %d gives status %ld", n, nu, (long)r); if (!(nu & 8) && I[AMD_STATUS] != r) violation("n=%d with NULL mask %d: Info status %g differs from the return value %ld", n, nu, I[AMD_STATUS], (long)r); if (!(nu & 3)) { L v = amd_l_valid(n, n, Ap.data(), Ai.data()); if (v != (n < 0 ? AMD_INVALID : AMD_OK)) violation("validity check n=%d gives %ld", n, (long)v); } else if (amd_l_valid(std::max(n, 0), std::max(n, 0), nu & 1 ? nullptr : Ap.data(), nu & 2 ? nullptr : Ai.data()) != AMD_INVALID) violation("validity check accepts NULL"); }, 8});
    F.push_back({"defaults", [](bool) { return 1L; }, [](long) { double C[AMD_CONTROL]; amd_l_defaults(C); count("evaluations"); if (C[AMD_DENSE] != AMD_DEFAULT_DENSE || C[AMD_AGGRESSIVE] != AMD_DEFAULT_AGGRESSIVE) violation("default control values wrong"); amd_l_defaults(nullptr); }, 1});
    return main_(argc, argv, F);
}
