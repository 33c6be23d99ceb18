// C15: reported times under every scripted clock behaviour.  The library's clock is replaced by a
// virtual one; it advances at clock readings (script) or on entry/exit of library functions (hooks
// inserted by the compiler), so what really elapsed inside every call is known exactly.
#include "prob.hpp"
#include "cat.hpp"
#include <sys/time.h>
#include <fcntl.h>
using namespace core;
typedef long long ns_t;
static ns_t T0, T; static long reads; static ns_t first_r, last_r; static bool vclock = false; static long realbk; // realbk: how far the wall clock has been set back
static std::vector<ns_t> script; static ns_t step; // advance before reading i: script[i] if present, otherwise step
static void *pick = nullptr; static int when = 0; static ns_t D = 0; // advance D on entry (0), exit (1) or both (2) of function pick; nullptr = none
static std::vector<void *> *seen = nullptr; static int in_num, in_lin, depth_; static ns_t t_num, t_lin, t_oth;
extern "C" { // addresses only
extern char w_numeric __asm__("LDL_numeric") __attribute__((weak));
extern char w_lsolve __asm__("LDL_lsolve") __attribute__((weak));
extern char w_dsolve __asm__("LDL_dsolve") __attribute__((weak));
extern char w_ltsolve __asm__("LDL_ltsolve") __attribute__((weak));
extern char w_perm __asm__("LDL_perm") __attribute__((weak));
extern char w_permt __asm__("LDL_permt") __attribute__((weak));
}
static void adv(ns_t d) { T += d; if (in_num) t_num += d; else if (in_lin) t_lin += d; else t_oth += d; }
static bool lin(void *f) { return f && (f == (void *)&w_lsolve || f == (void *)&w_dsolve || f == (void *)&w_ltsolve || f == (void *)&w_perm || f == (void *)&w_permt); }
extern "C" {
void __cyg_profile_func_enter(void *f, void *) { if (!vclock) return; if (f == (void *)&w_numeric) in_num++; else if (lin(f)) in_lin++; if (seen && std::find(seen->begin(), seen->end(), f) == seen->end()) seen->push_back(f); if (pick && f == pick && when != 1) adv(D); }
void __cyg_profile_func_exit(void *f, void *) { if (!vclock) return; if (pick && f == pick && when != 0) adv(D); if (f == (void *)&w_numeric) in_num--; else if (lin(f)) in_lin--; }
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t id, struct timespec *t) {
    if (!vclock) return __real_clock_gettime(id, t);
    ns_t d = reads < (long)script.size() ? script[reads] : step; reads++; if (d) adv(d); if (first_r < 0) first_r = T; last_r = T;
    ns_t v = T; if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) v = 2000000000LL * 1000000000LL + T - 7000000000LL * reads; // the wall clock is being set back
    else if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) v = T / 3; // the process does not run all the time
    t->tv_sec = v / 1000000000LL; t->tv_nsec = v % 1000000000LL; return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *) { struct timespec t; __wrap_clock_gettime(CLOCK_REALTIME, &t); if (tv) { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; } return 0; }
time_t __wrap_time(time_t *p) { struct timespec t; __wrap_clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
clock_t __wrap_clock(void) { struct timespec t; __wrap_clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return (clock_t)(t.tv_sec * CLOCKS_PER_SEC + t.tv_nsec / 1000); }
}
struct Step { int kind; long arg; }; // 0 solve with maxit=arg; 1 solve with maxit arg and verbose 1 (stdout closed to /dev/null)
static std::vector<Prob> *C;
static bool closeto(double v, ns_t e) { double x = e * 1e-9; return std::isfinite(v) && fabs(v - x) <= 2e-9 + 1e-11 * x; }
static void begin() { first_r = last_r = -1; t_num = t_lin = t_oth = 0; in_num = in_lin = 0; }
struct Out { std::vector<Res> r; };
// one history under the current clock; checks all times; returns the results
static Out history(const Prob &q, int fmt, const std::vector<long> &limits, const char *what) {
    Out O; reads = 0; T = T0; begin(); vclock = true; Opt o; o.maxit = 100;
    auto bad = [&](const char *w, double v, ns_t e) { vclock = false; violation("%s = %.12g s, but %.12g s elapsed on the clock | %s | %s %s", w, v, e * 1e-9, what, fmt_name(fmt), show(q).c_str()); vclock = true; };
    Inst I(q, fmt, o); vclock = false; double ts = I.qp->stats->tsetup;
    if (!(ts >= 0) || !closeto(ts, first_r < 0 ? 0 : last_r - first_r)) bad("setup time", ts, last_r - first_r);
    count("timed_calls");
    for (long mi : limits) {
        I.qp->options->maxit = mi; begin(); vclock = true; QP_SOLVE(I.qp); vclock = false; Res r; r.ret = I.qp->stats->Flag; I.snap(r); O.r.push_back(r); count("timed_calls");
        double tw = I.qp->stats->tsolve, tk = I.qp->stats->kkt_time, tl = I.qp->stats->ldl_numeric, tol = 1e-8 + 1e-11 * tw;
        if (!(tw >= 0) || !closeto(tw, first_r < 0 ? 0 : last_r - first_r)) bad("solve time", tw, last_r - first_r);
        else if (!(std::isfinite(tk) && tk >= 0 && tk <= tw + tol)) bad("KKT time (reported next to a solve time that is smaller, or negative)", tk, (ns_t)(tw * 1e9));
        else if (!(std::isfinite(tl) && tl >= 0 && tl <= tk + tol)) bad("factorisation time (the reported KKT time is smaller, or it is negative)", tl, (ns_t)(tk * 1e9));
        else if (!step && script.empty()) { // time passes only inside functions: attribute it
            if (tl < t_num * 1e-9 * (1 - 1e-11) - tol) bad("factorisation time (the factorisation took longer)", tl, t_num);
            if (tl > (t_num + t_oth) * 1e-9 * (1 + 1e-11) + tol) bad("factorisation time (includes triangular solves)", tl, t_num);
            if (tk < (t_num + t_lin) * 1e-9 * (1 - 1e-11) - tol) bad("KKT time (the factorisations and triangular solves took longer)", tk, t_num + t_lin);
            if (t_num + t_lin > 0) count("attributed");
        }
        if (ts != I.qp->stats->tsetup) bad("setup time changed by a solve", I.qp->stats->tsetup, (ns_t)(ts * 1e9));
    }
    I.cleanup(); return O;
}
static Out ref(const Prob &q, int fmt, const std::vector<long> &lim) { pick = nullptr; D = 0; script.clear(); step = 0; T0 = 0; return history(q, fmt, lim, "clock standing still"); }
static void compare(const Out &a, const Out &b, const Prob &q, const char *what) { for (size_t i = 0; i < a.r.size(); i++) if (!same(a.r[i], b.r[i])) violation("clock readings changed the result of solve %zu: %s instead of %s | %s | %s", i, shr(b.r[i]).c_str(), shr(a.r[i]).c_str(), what, show(q).c_str()); }
static const ns_t S = 1000000000LL;
static const ns_t BASE[] = {0, 1, S / 2, S - 1, 17 * S + 999999000, 3 * S + 300000000, 86400 * S + 123456789};
static const ns_t DS[] = {1, 999, 1000000, 400000000, S - 1, S, S + 1, 2 * S + 700000000, 5 * S, 5000 * S, 1000000 * S};
int main(int argc, char **argv) {
    C = new std::vector<Prob>(catalogue(true)); C->push_back(structured(16, 4, 1)); // no inequalities
    { int fd = open("/dev/null", 1); (void)fd; }
    static const std::vector<std::vector<long>> LIM = {{100}, {3, 2, 100, 100}, {0, 1, 100}, {1, 1, 1, 50}};
    static std::vector<void *> FN; // library functions entered by setup or solve of any catalogue problem, sorted by address
    { static Shared tmp; SH = &tmp; W = 0; seen = &FN; for (auto &q : *C) for (int f : {F_ROW, F_COL, F_CCS}) ref(q, f, LIM[1]); seen = nullptr; std::sort(FN.begin(), FN.end()); }
    auto all = [](std::vector<Family> &F) {
        auto nC = (long)C->size(), nF = 3L, nL = (long)LIM.size(), nB = (long)(sizeof BASE / sizeof *BASE), nD = (long)(sizeof DS / sizeof *DS);
        // 1. time passes inside one function
        F.push_back({"time-in-function", [=](bool) { return nC * (long)FN.size() * 3; }, [=](long k) {
            const Prob &q = (*C)[k % nC]; k /= nC; int w = k % 3; k /= 3; void *f = FN[k]; int fm[] = {F_ROW, F_CCS, F_COL};
            for (int fi = 0; fi < nF; fi++) for (auto &lim : LIM) { if (fi && &lim != &LIM[1]) continue; Out R = ref(q, fm[fi], lim);
                for (int b = 0; b < nB; b++) for (int d = 0; d < nD; d++) { char t[160]; snprintf(t, 160, "clock starts at %.9f s and advances by %.9f s at %s of library function %zu", BASE[b] * 1e-9, DS[d] * 1e-9, w == 0 ? "entry" : w == 1 ? "exit" : "entry and exit", (size_t)k);
                    detail("%s", t); pick = f; when = w; D = DS[d]; script.clear(); step = 0; T0 = BASE[b]; Out O = history(q, fm[fi], lim, t); compare(R, O, q, t); count("evaluations"); count("nontrivial"); if (viol_in_case) return; } }
            sample("time passing only inside function #" + std::to_string(k) + " for " + q.tag); }, 2});
        // 2. the clock advances by a constant at every reading
        F.push_back({"constant-step", [=](bool) { return nC * nL * nF; }, [=](long k) {
            const Prob &q = (*C)[k % nC]; k /= nC; auto &lim = LIM[k % nL]; k /= nL; int fm[] = {F_ROW, F_CCS, F_COL}; Out R = ref(q, fm[k], lim);
            for (int b = 0; b < nB; b++) for (int d = 0; d < nD; d++) { char t[160]; snprintf(t, 160, "clock starts at %.9f s and advances by %.9f s at every reading", BASE[b] * 1e-9, DS[d] * 1e-9); detail("%s", t);
                pick = nullptr; script.clear(); step = DS[d]; T0 = BASE[b]; Out O = history(q, fm[k], lim, t); compare(R, O, q, t); count("evaluations"); count("nontrivial"); if (viol_in_case) return; } }, 2});
        // 3. every placement of one or two advances among all readings of a history
        F.push_back({"two-jumps", [=](bool) { return nC * nB * 2; }, [=](long k) {
            const Prob &q = (*C)[k % nC]; k /= nC; T0 = BASE[k % nB]; int fmt = k / nB ? F_CCS : F_ROW; ns_t t0 = T0; auto &lim = LIM[1]; Out R = ref(q, fmt, lim); long N = std::min(reads, thorough ? 120L : 60L);
            const ns_t J[] = {1, 400000000, S - 1, S, 2 * S + 700000000};
            for (long i = 0; i < N; i++) for (long j = i; j < N; j++) for (int d1 = 0; d1 < 5; d1++) for (int d2 = 0; d2 < (j == i ? 1 : thorough ? 5 : 2); d2++) {
                char t[200]; pick = nullptr; step = 0; script.assign(j + 1, 0); script[i] = J[d1]; if (j != i) script[j] = J[(d1 + d2 + 1) % 5]; T0 = t0;
                snprintf(t, 200, "clock starts at %.9f s, advances by %.9f s before reading %ld and %.9f s before reading %ld", t0 * 1e-9, script[i] * 1e-9, i, script[j] * 1e-9, j); detail("%s", t);
                Out O = history(q, fmt, lim, t); compare(R, O, q, t); count("evaluations"); count("nontrivial"); if (viol_in_case) return; } }, 1});
        // 4. every script over an alphabet of advances for a one-iteration solve
        F.push_back({"all-scripts", [=](bool th) { return (th ? 3L : 2L) * 3 * 3 * 3 * 3; }, [=](long k) {
            long sd = k % 81; k /= 81; const Prob &q = (*C)[k == 0 ? 1 : k == 1 ? 2 : 5]; const std::vector<long> lim = {1}; Out R = ref(q, F_ROW, lim); long N = std::min(reads, thorough ? 12L : 10L); long tot = 1; for (long i = 4; i < N; i++) tot *= 3;
            const ns_t al[3] = {0, 600000000, S + 250000000};
            for (long u = 0; u < tot; u++) { script.clear(); long t = sd; for (int i = 0; i < 4; i++) { script.push_back(al[t % 3]); t /= 3; } t = u; for (long i = 4; i < N; i++) { script.push_back(al[t % 3]); t /= 3; }
                char tx[240]; int o = snprintf(tx, 240, "clock advances (s) before successive readings:"); for (ns_t d : script) o += snprintf(tx + o, 240 - o, " %.2f", d * 1e-9); detail("%s", tx);
                pick = nullptr; step = 0; T0 = 500000000; Out O = history(q, F_ROW, lim, tx); compare(R, O, q, tx); count("evaluations"); count("nontrivial"); if (viol_in_case) return; } }, 1});
        // 5. tiny problems of every shape and exit code under a clock that advances everywhere
        static auto *U = new Universe(2, 1, 1, -1, 1); static auto *U2 = new Universe(1, 2, 0, -1, 1);
        auto sweep = [=](const Prob &q, long k) { int fmt = k % 3 == 0 ? F_ROW : k % 3 == 1 ? F_CCS : F_COL; auto &lim = LIM[k % nL]; Out R = ref(q, fmt, lim); pick = nullptr; script.clear(); step = DS[k % nD]; T0 = BASE[k % nB]; Out O = history(q, fmt, lim, "constant step"); compare(R, O, q, "constant step"); count("evaluations"); count("nontrivial", R.r[0].it > 0); };
        F.push_back({"n2m1p1", [=](bool) { return U->size(); }, [=](long k) { if (!thorough && k % 3) return; sweep(from_int(U->get(k)), k); }, 512});
        F.push_back({"n1m2", [=](bool) { return U2->size(); }, [=](long k) { sweep(from_int(U2->get(k)), k); }, 64});
    };
    std::vector<Family> F; all(F); return main_(argc, argv, F);
}
