// C08 (concurrent part): two real threads, each with its own problem, under a controlled scheduler.
// The library is compiled with thread instrumentation, but this file supplies the runtime: every memory access of
// library code outside the accessing thread's own heap arena and stack is recorded; accesses that conflict between
// the threads become scheduling points, and all schedules up to the preemption bound over these points (to a
// fixpoint) are executed and compared with the runs alone.  Independently of conflicts, every function entry is a
// scheduling point of a second exploration.
#include "cat.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <unordered_set>
using namespace core;
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *); }
struct Th { char *arena = nullptr; size_t cap = 0, used = 0; long clk = 0; char *slo = nullptr, *shi = nullptr; sem_t sem; bool done = false; long fpts = 0, cpts = 0; pthread_t id; };
static Th TT[2]; static __thread int me = -1; static __thread bool lib = false;
struct Seg { int thr; long pt; }; // run thr until its pt-th scheduling point (or its end)
static std::vector<Seg> PLAN; static size_t cur; static int MODE; // MODE 1: function entries are points, 2: conflicting accesses
struct Cell { unsigned char rw[2] = {0, 0}; }; static std::unordered_map<uintptr_t, Cell> ACC; static std::unordered_set<uintptr_t> CONF; static bool newconf; static long nacc;
static void handoff() { int o = 1 - me; if (TT[o].done) return; count("switches"); bool l = lib; sem_post(&TT[o].sem); while (sem_wait(&TT[me].sem)) {} lib = l; }
static inline void point(long &k) { k++; if (cur < PLAN.size() && PLAN[cur].thr == me && PLAN[cur].pt == k) { cur++; handoff(); } }
static inline void access(const void *a, size_t n, bool w) {
    if (me < 0 || !lib) return; Th &t = TT[me]; char *p = (char *)a; if (p >= t.arena && p < t.arena + t.cap) return; if (p >= t.slo && p < t.shi) return; lib = false; nacc++;
    Th &o = TT[1 - me]; bool foreign = p >= o.arena && p < o.arena + o.cap; bool hit = false;
    for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n - 1) >> 3; g++) { Cell &c = ACC[g]; c.rw[me] |= w ? 2 : 1; if (foreign) c.rw[1 - me] |= 3; if (((c.rw[0] | c.rw[1]) & 2) && c.rw[0] && c.rw[1] && !CONF.count(g)) { CONF.insert(g); newconf = true; } hit |= CONF.count(g) > 0; }
    if (hit && MODE == 2) point(t.cpts); lib = true;
}
#define RW(n) void __tsan_read##n(void *a) { access(a, n, false); } void __tsan_write##n(void *a) { access(a, n, true); } void __tsan_read##n##_pc(void *a, void *) { access(a, n, false); } void __tsan_write##n##_pc(void *a, void *) { access(a, n, true); } void __tsan_unaligned_read##n(void *a) { access(a, n, false); } void __tsan_unaligned_write##n(void *a) { access(a, n, true); } void __tsan_read_write##n(void *a) { access(a, n, true); } void __tsan_volatile_read##n(void *a) { access(a, n, false); } void __tsan_volatile_write##n(void *a) { access(a, n, true); }
#define AT(n, T) T __tsan_atomic##n##_load(const volatile T *a, int) { access((void *)a, sizeof(T), false); return *a; } void __tsan_atomic##n##_store(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); *a = v; } T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); T o = *a; *a = v; return o; } T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); T o = *a; *a = o + v; return o; } T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); T o = *a; *a = o - v; return o; } T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); T o = *a; *a = o | v; return o; } T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { access((void *)a, sizeof(T), true); T o = *a; *a = o & v; return o; } int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { access((void *)a, sizeof(T), true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *e, T v, int x, int y) { return __tsan_atomic##n##_compare_exchange_strong(a, e, v, x, y); }
static std::map<void *, int> OWN;
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) { if (me >= 0 && lib && MODE == 1) { lib = false; point(TT[me].fpts); lib = true; } } void __tsan_func_exit(void *) {} void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
void __tsan_read_range(void *a, unsigned long n) { if (n) access(a, n, false); } void __tsan_write_range(void *a, unsigned long n) { if (n) access(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16) AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long) void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
static void *aget(size_t n) { Th &t = TT[me]; size_t s = (n + 31) / 16 * 16; if (t.used + s > t.cap) return nullptr; char *p = t.arena + t.used; t.used += s; *(size_t *)p = n; memset(p + 16, 0xA5, s - 16); return p + 16; }
void *__wrap_malloc(size_t n) { return me >= 0 && lib ? aget(n) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (me >= 0 && lib) { void *p = aget(a * b); if (p) memset(p, 0, a * b); return p; } return __real_calloc(a, b); }
static bool inarena(void *p) { for (auto &t : TT) if ((char *)p >= t.arena && (char *)p < t.arena + t.cap) return true; return false; }
void __wrap_free(void *p) { if (!inarena(p)) __real_free(p); }
void *__wrap_realloc(void *p, size_t n) { if (me >= 0 && lib) { void *q = aget(n); if (p && q) memcpy(q, p, std::min(n, inarena(p) ? ((size_t *)p)[-2] : n)); return q; } return __real_realloc(p, n); }
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { access(s, n, false); access(d, n, true); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { access(s, n, false); access(d, n, true); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n) access(d, n, true); return __real_memset(d, c, n); }
// each thread has a clock of its own that advances only when the thread reads it, so that the reported times are a function of the thread's own execution; the write of the reading is an access of the library
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { if (me < 0 || !lib) return __real_clock_gettime(c, ts); access(ts, sizeof *ts, true); Th &t = TT[me]; t.clk++; ts->tv_sec = 1000 + 4000 * me + t.clk / 3; ts->tv_nsec = (t.clk * 370000000) % 1000000000; return 0; }
// locks, should the library ever take one, block cooperatively
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (me < 0) return __real_pthread_mutex_lock(m); while (__real_pthread_mutex_trylock(m)) handoff(); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return __real_pthread_mutex_unlock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return __real_pthread_mutex_trylock(m); }
}
// the library's static data (moved to sections of their own by the build) is put back to its initial contents before every schedule, so that first-use effects are explored as well
extern "C" { extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak)), __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak)); }
static std::vector<char> INIT[2]; static void snapstatics() { if (__start_libdata) INIT[0].assign(__start_libdata, __stop_libdata); if (__start_libbss) INIT[1].assign(__start_libbss, __stop_libbss); }
static void resetstatics() { if (INIT[0].size()) __real_memcpy(__start_libdata, INIT[0].data(), INIT[0].size()); if (INIT[1].size()) __real_memcpy(__start_libbss, INIT[1].data(), INIT[1].size()); }
struct Job { const Prob *q; int fmt; bool perm; double sd; long it; int verb; Res a, b; double ta[4], tb[4]; };
static Job J[2];
// caller arrays live in the thread's own arena too
static void work(Job &j) {
    const Prob &q = *j.q; int n = q.n, m = q.m, p = q.p, N = n + m + p; bool dense = j.fmt == F_ROW || j.fmt == F_COL; auto cp = [&](const V &v) { double *d = (double *)aget(8 * v.size() + 8); if (v.size()) __real_memcpy(d, v.data(), 8 * v.size()); return d; }; auto ci = [&](const std::vector<qp_int> &v) { qp_int *d = (qp_int *)aget(8 * v.size() + 8); if (v.size()) __real_memcpy(d, v.data(), 8 * v.size()); return d; };
    auto colm = [&](const V &M, int r, int c) { V o(M.size()); for (int i = 0; i < r; i++) for (int k = 0; k < c; k++) o[(size_t)k * r + i] = M[(size_t)i * c + k]; return o; };
    std::vector<qp_int> pm; for (int i = 0; i < N; i++) pm.push_back(N - 1 - i); qp_int *PP = j.perm ? ci(pm) : nullptr; double *c = cp(q.c), *h = cp(q.h), *b = p ? cp(q.b) : nullptr; QP *Q;
    if (dense) { bool row = j.fmt == F_ROW; double *P = cp(row ? q.P : colm(q.P, n, n)), *G = cp(row ? q.G : colm(q.G, m, n)), *A = p ? cp(row ? q.A : colm(q.A, p, n)) : nullptr; lib = true; Q = QP_SETUP_dense(n, m, p, P, A, G, c, h, b, PP, row ? ROW_MAJOR_ORDERING : COLUMN_MAJOR_ORDERING); lib = false; Q->sigma_d = j.sd; }
    else { Ccs P = to_ccs(q.P, n, n), G = to_ccs(q.G, m, n), A; if (p) A = to_ccs(q.A, p, n); qp_int *pj = ci(P.jc), *pi = ci(P.ir), *gj = ci(G.jc), *gi = ci(G.ir), *aj = p ? ci(A.jc) : nullptr, *ai = p ? ci(A.ir) : nullptr; double *pp = cp(P.pr), *gp = cp(G.pr), *ap = p ? cp(A.pr) : nullptr; lib = true; Q = QP_SETUP(n, m, p, pj, pi, pp, aj, ai, ap, gj, gi, gp, c, h, b, j.sd, PP); lib = false; }
    auto snap = [&](Res &r, long ret) { r = Res(); r.ret = ret; r.flag = Q->stats->Flag; r.it = Q->stats->IterationCount; r.fval = Q->stats->fval; r.rx = Q->stats->n_rx; r.ry = p ? Q->stats->n_ry : 0; r.rz = Q->stats->n_rz; r.mu = Q->stats->n_mu; r.x.assign(Q->x, Q->x + n); if (p) r.y.assign(Q->y, Q->y + p); r.z.assign(Q->z, Q->z + m); r.s.assign(Q->s, Q->s + m); };
    auto times = [&](double *t) { t[0] = Q->stats->tsetup; t[1] = Q->stats->tsolve; t[2] = Q->stats->kkt_time; t[3] = Q->stats->ldl_numeric; };
    Q->options->verbose = j.verb; Q->options->maxit = 1; Q->options->reltol = Q->options->abstol = 1e-8; lib = true; long ra = QP_SOLVE(Q); lib = false; snap(j.a, ra); times(j.ta);
    Q->options->maxit = j.it; lib = true; long rb = QP_SOLVE(Q); lib = false; snap(j.b, rb); times(j.tb);
    lib = true; if (dense) QP_CLEANUP_dense(Q); else QP_CLEANUP(Q); lib = false;
}
static void *body(void *x) { int t = (int)(long)x; char here; me = t; TT[t].slo = &here - (1 << 17); TT[t].shi = &here + 4096; while (sem_wait(&TT[t].sem)) {} work(J[t]); TT[t].done = true; lib = false; int o = 1 - t; if (!TT[o].done) sem_post(&TT[o].sem); me = -1; return nullptr; }
static void run(const std::vector<Seg> &plan, int first) {
    PLAN = plan; cur = 0; resetstatics(); static pthread_attr_t at; static bool init = false; if (!init) { pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 18); init = true; for (auto &t : TT) { t.cap = 32u << 20; t.arena = (char *)mmap(nullptr, t.cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); } }
    for (int t = 0; t < 2; t++) { TT[t].used = 0; TT[t].clk = 0; TT[t].done = false; TT[t].fpts = TT[t].cpts = 0; sem_init(&TT[t].sem, 0, 0); }
    for (long t = 0; t < 2; t++) pthread_create(&TT[t].id, &at, body, (void *)t);
    sem_post(&TT[first].sem); for (auto &t : TT) pthread_join(t.id, nullptr); for (auto &t : TT) sem_destroy(&t.sem); count("schedules");
}
static Res base[2][2]; static double tbase[2][8]; static bool timed;
static bool sametimes(int t) { for (int k = 0; k < 4; k++) if (!numeq(tbase[t][k], J[t].ta[k]) || !numeq(tbase[t][4 + k], J[t].tb[k])) return false; return true; }
static bool same2(const Res &a, const Res &b) { return same(a, b) && numeq(a.rx, b.rx) && numeq(a.ry, b.ry) && numeq(a.rz, b.rz) && numeq(a.mu, b.mu); }
static bool check(const std::vector<Seg> &plan, int first) { count("transitions", (long)plan.size() + 1); count("evaluations"); if (plan.size()) count("nontrivial"); for (int t = 0; t < 2; t++) if (!same2(base[t][0], J[t].a) || !same2(base[t][1], J[t].b)) {
        std::string s = "thread " + std::to_string(first) + " first"; for (auto &g : plan) s += ", thread " + std::to_string(g.thr) + " preempted at its " + std::to_string(g.pt) + (MODE == 2 ? "th conflicting access" : "th function entry"); Res &w = same2(base[t][0], J[t].a) ? J[t].b : J[t].a, &e = same2(base[t][0], J[t].a) ? base[t][1] : base[t][0];
        violation("a schedule of two threads changes the result of thread %d: %s instead of %s | schedule: %s | %s %s, %s %s", t, shr(w).c_str(), shr(e).c_str(), s.c_str(), fmt_name(J[0].fmt), J[0].q->tag.c_str(), fmt_name(J[1].fmt), J[1].q->tag.c_str()); return false; }
    if (timed) for (int t = 0; t < 2; t++) if (!sametimes(t)) { std::string s = "thread " + std::to_string(first) + " first"; for (auto &g : plan) s += ", thread " + std::to_string(g.thr) + " preempted at its " + std::to_string(g.pt) + (MODE == 2 ? "th conflicting access" : "th function entry"); violation("a schedule of two threads changes the times reported to thread %d (each thread with a clock of its own): setup, solve, KKT, LDL %g %g %g %g / %g %g %g %g instead of %g %g %g %g / %g %g %g %g | schedule: %s | %s, %s", t, J[t].ta[0], J[t].ta[1], J[t].ta[2], J[t].ta[3], J[t].tb[0], J[t].tb[1], J[t].tb[2], J[t].tb[3], tbase[t][0], tbase[t][1], tbase[t][2], tbase[t][3], tbase[t][4], tbase[t][5], tbase[t][6], tbase[t][7], s.c_str(), J[0].q->tag.c_str(), J[1].q->tag.c_str()); return false; }
    return true; }
static bool go(const std::vector<Seg> &plan, int first) { if (plan.size()) detail("mode %d thread %d first, %zu preemptions, first at %ld", MODE, first, plan.size(), plan[0].pt); run(plan, first); return check(plan, first); }
// every schedule with at most `bound` preemptions, points numbered per thread; bounded in time per case, and after that time of the whole check in number,
// so that shared state without an effect does not keep the check from an answer
static double T00; static bool TQ = true; static double spent() { return now() - T00; } static bool late() { return now() - SH->cur[W].start > (W == MAXW - 1 ? 80 : 25); }
static bool all(int bound, long n0, long n1, long cap) { long N[2] = {n0, n1}; long left = cap;
    for (int f = 0; f < 2; f++) for (long i = 1; i <= N[f]; i++) { if (!go({{f, i}}, f)) return false; if (newconf && MODE == 2) return true; if (--left <= 0 || late()) { count("capped"); return true; } }
    if (bound > 1) for (int f = 0; f < 2; f++) for (long i = 1; i <= N[f]; i++) for (long j = 1; j <= N[1 - f]; j++) { if (!go({{f, i}, {1 - f, j}}, f)) return false; if (newconf && MODE == 2) return true; if (--left <= 0 || late()) { count("capped"); return true; } }
    return true; }
static void pair(const Prob &a, int fa, const Prob &b, int fb, bool perm, double sd, int fbound, long fcap, long it = 6, int verb = 0) {
    J[0] = {&a, fa, perm, sd, it, verb}; J[1] = {&b, fb, perm, sd, it, verb}; MODE = 0; ACC.clear(); CONF.clear(); nacc = 0; newconf = false; run({}, 0); for (int t = 0; t < 2; t++) { base[t][0] = J[t].a; base[t][1] = J[t].b; } // serial: thread 0 then thread 1
    for (int t = 0; t < 2; t++) for (int k = 0; k < 4; k++) { tbase[t][k] = J[t].ta[k]; tbase[t][4 + k] = J[t].tb[k]; } run({}, 0); timed = sametimes(0) && sametimes(1); if (timed) count("timed_pairs"); // times read from another clock are not compared
    run({}, 1); if (!check({}, 1)) return; run({}, 0); if (!check({}, 0)) return; count("states", 2);
    MODE = 2; for (int round = 0; round < 12; round++) { newconf = false; if (CONF.empty()) break; long n[2]; go({}, 0); if (viol_in_case) return; n[0] = TT[0].cpts; n[1] = TT[1].cpts; maxc("max_conflicting_accesses", std::max(n[0], n[1])); if (!all(2, n[0], n[1], spent() < (TQ ? 150 : 3000) ? 20000 : 25)) return; if (!newconf || late()) break; }
    count("conflicting_locations", (long)CONF.size()); count("shared_accesses", nacc); count("shared_locations", (long)ACC.size());
    if (!fbound) { count("probed_pairs"); maxc("max_arena_bytes", (long)std::max(TT[0].used, TT[1].used)); return; }
    MODE = 1; go({}, 0); if (viol_in_case) return; maxc("max_function_entries", std::max(TT[0].fpts, TT[1].fpts)); all(fbound, TT[0].fpts, TT[1].fpts, fcap); count("pairs"); maxc("max_arena_bytes", (long)std::max(TT[0].used, TT[1].used));
}
int main(int argc, char **argv) {
    bool TH = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"); for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "thorough")) TH = true;
    std::vector<Family> F; auto *C = new std::vector<Prob>(catalogue(true)); int nc = (int)C->size(); int NF = 4; static const int FM[] = {F_ROW, F_CCS, F_COL, F_CCS};
    F.push_back({"pairs-preemption-1", [=](bool) { return (long)nc * nc * (TH ? NF : 1); }, [=](long k) { int i = (int)(k % nc), j = (int)(k / nc % nc), v = (int)(k / nc / nc + i + 2 * j); sample((*C)[i].tag + " against " + (*C)[j].tag); pair((*C)[i], FM[v % NF], (*C)[j], FM[(v / 2 + j) % NF], v % 3 == 2, v % 5 == 4 ? 0.2 : 0, 1, 1000000); }, 1});
    F.push_back({"pairs-preemption-2", [=](bool) { return (long)(TH ? 4 : 1) * 9; }, [=](long k) { int i = (int)(k % 3), j = (int)(k / 3 % 3), v = (int)(k / 9 + i); pair((*C)[i], FM[v % NF], (*C)[j], FM[(v / 2 + j) % NF], v & 1, 0, 2, 1000000, TH ? 3 : 1); }, 1});
    // wide search for shared state: conflict detection (and, where there is a conflict, exploration) for every problem of the universes and structured families against itself and against a catalogue problem
    auto probe = [=](const Prob &q, long k) { bool self = k & 1; const Prob &o = self ? q : (*C)[k / 2 % nc]; pair(q, FM[k % NF], o, self ? FM[k % NF] : FM[(k / 3) % NF], k % 3 == 1, k % 5 == 4 ? 0.2 : 0, 0, 0, 12, k % 7 == 3 ? 2 : 0); };
    struct UU { const char *nm; Universe *u; long sq, st; };
    for (auto &x : std::vector<UU>{{"shared-n2m0p1", new Universe(2, 0, 1, -1, 1), 3, 1}, {"shared-n1m2p1", new Universe(1, 2, 1, -1, 2), 5, 1}, {"shared-n2m1p1", new Universe(2, 1, 1, -1, 1), 13, 1}, {"shared-n2m2p0", new Universe(2, 2, 0, -1, 1), 11, 1}, {"shared-n2m2p1", new Universe(2, 2, 1, -1, 1, -1, 1), 101, 5}, {"shared-n1m1p2", new Universe(1, 1, 2, -1, 1), 23, 2}, {"shared-n1m4p0", new Universe(1, 4, 0, -1, 1), 69, 8}, {"shared-n1m3p1", new Universe(1, 3, 1, -1, 1), 115, 14}, {"shared-n2m1p2", new Universe(2, 1, 2, -1, 1, -1, 1), 1403, 175}, {"shared-n2m3p1", new Universe(2, 3, 1, -1, 1, -1, 1), 27623, 3452}})
        F.push_back({x.nm, [=](bool t) { return x.u->size() / (t ? x.st : x.sq); }, [=](long k) { Prob q = from_int(x.u->get(k * (TH ? x.st : x.sq))); sample(show(q)); probe(q, k); }, 64});
    auto *SM = new std::vector<SCase>(structured_menu(TH)); F.push_back({"shared-structured", [=](bool) { return (long)SM->size() * 2; }, [=](long k) { auto &s = (*SM)[k / 2]; if (s.N > (TH ? 130 : 65) && !cheap(s)) return; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); probe(q, k); }, 1});
    // every size of the size sweep against itself
    auto *SW = new std::vector<SCase>(sweep_menu(TH)); F.push_back({"shared-sizes", [=](bool) { return (long)SW->size(); }, [=](long k) { auto &s = (*SW)[k]; Prob q = structured(s.kind, s.N, s.pat); sample(q.tag); probe(q, 2 * k + 1); }, 1});
    snapstatics(); worker_init = [] { if (!freopen("/dev/null", "w", stdout)) _exit(7); };
    T00 = now(); TQ = !TH; limit_s = 100; return main_(argc, argv, F);
}
