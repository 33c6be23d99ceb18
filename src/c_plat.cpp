// C15: the timer of the other platforms (Windows performance counter, macOS absolute time), built against models of
// their clocks; every start value x advance per reading x tick rate, and every placement of one jump
#include "core.hpp"
#include "exact.hpp"
#include <math.h>
#ifdef PLAT_MAC
#define __APPLE__ 1
#endif
#include "prob.hpp"
#include "cat.hpp"
using namespace core;
typedef unsigned long long u64; static u64 T0, T, step; static long reads, jump_at; static u64 jump; static u64 numer = 1, denom = 1, freq = 1; static bool used; static u64 first_r, last_r; static bool any;
static u64 reading() { T += step; if (reads++ == jump_at) T += jump; if (!any) { any = true; first_r = T; } last_r = T; return T; }
extern "C" {
#ifdef PLAT_MAC
uint64_t mach_absolute_time(void) { return reading(); }
int mach_timebase_info(mach_timebase_info_t t) { t->numer = (uint32_t)numer; t->denom = (uint32_t)denom; return 0; }
#else
BOOL QueryPerformanceFrequency(LARGE_INTEGER *f) { f->QuadPart = (long long)freq; return 1; }
BOOL QueryPerformanceCounter(LARGE_INTEGER *c) { c->QuadPart = (long long)reading(); return 1; }
#endif
}
static long double secs(u64 ticks) {
#ifdef PLAT_MAC
    return (long double)ticks * numer / denom * 1e-9L;
#else
    return (long double)ticks / freq;
#endif
}
static std::vector<Res> history(const Prob &q, int fmt, const char *what) {
    std::vector<Res> O; reads = 0; T = T0; any = false; first_r = last_r = 0; auto el = [&] { return any ? secs(last_r - first_r) : 0.0L; };
    auto bad = [&](const char *w, double v, long double e) { violation("%s = %.12g s, but %.12Lg s elapsed on the clock | %s | %s %s", w, v, e, what, fmt_name(fmt), show(q).c_str()); }; auto near = [](double v, long double e) { return v >= 0 && fabsl(v - e) <= 2e-9L + 1e-11L * e; };
    Inst I(q, fmt, Opt()); if (!near(I.qp->stats->tsetup, el())) bad("setup time", I.qp->stats->tsetup, el()); count("transitions");
    for (long mi : {3, 2, 100}) { I.qp->options->maxit = mi; any = false; first_r = last_r = 0; Res r = I.solve(); O.push_back(r); auto *s = I.qp->stats; double tol = 1e-8 + 1e-11 * s->tsolve; count("transitions");
        if (!near(s->tsolve, el())) bad("solve time", s->tsolve, el());
        else if (!(std::isfinite(s->kkt_time) && s->kkt_time >= 0 && s->kkt_time <= s->tsolve + tol)) bad("KKT time (more than the solve time, or negative)", s->kkt_time, s->tsolve);
        else if (!(std::isfinite(s->ldl_numeric) && s->ldl_numeric >= 0 && s->ldl_numeric <= s->kkt_time + tol)) bad("factorisation time (more than the KKT time, or negative)", s->ldl_numeric, s->kkt_time); }
    I.cleanup(); return O;
}
int main(int argc, char **argv) {
    static auto *C = new std::vector<Prob>(catalogue(true)); std::vector<Family> F;
#ifdef PLAT_MAC
    static const u64 RN[] = {1, 125}, RD[] = {1, 3}; enum { NR = 2 };
#else
    static const u64 RF[] = {1000, 3579545, 10000000, 2400000000ULL}; enum { NR = 4 };
#endif
    static const u64 B[] = {0, 1, 0x7fffffffULL, 0xffffffffULL, 0xfffffff0ULL, 0x1234567890ULL, 1ULL << 53, 1ULL << 60}, DV[] = {0, 1, 7, 1000, 10000000, 0x7fffffffULL, 0x80000001ULL, 0x100000001ULL, 30000000000ULL};
    auto rate = [](int i) {
#ifdef PLAT_MAC
        numer = RN[i]; denom = RD[i];
#else
        freq = RF[i];
#endif
    };
    F.push_back({"constant-step", [=](bool) { return (long)C->size() * NR; }, [=](long k) { const Prob &q = (*C)[k / NR]; rate((int)(k % NR)); for (int f : {F_ROW, F_CCS, F_COL}) { T0 = step = 0; jump_at = -1; auto ref = history(q, f, "clock standing still");
        for (u64 b : B) for (u64 d : DV) { char t[200]; snprintf(t, 200, "counter starts at %llu and advances by %llu at every reading, tick rate %d", b, d, (int)(k % NR)); detail("%s", t); T0 = b; step = d; count("evaluations"); if (d) count("nontrivial"); auto O = history(q, f, t); for (size_t i = 0; i < O.size(); i++) if (!same(O[i], ref[i])) violation("clock readings changed the result | %s | %s", t, show(q).c_str()); if (viol_in_case) return; } } sample(q.tag); }, 1});
    F.push_back({"one-jump", [=](bool) { return (long)C->size() * NR; }, [=](long k) { const Prob &q = (*C)[k / NR]; rate((int)(k % NR)); T0 = step = 0; jump_at = -1; auto ref = history(q, F_ROW, "clock standing still"); long N = std::min(reads, 200L);
        for (long at = 0; at < N; at++) for (u64 b : B) for (u64 d : DV) { char t[200]; snprintf(t, 200, "counter starts at %llu and advances by %llu before reading %ld, tick rate %d", b, d, at, (int)(k % NR)); detail("%s", t); T0 = b; jump_at = at; jump = d; count("evaluations"); count("nontrivial"); auto O = history(q, F_ROW, t); for (size_t i = 0; i < O.size(); i++) if (!same(O[i], ref[i])) violation("clock readings changed the result | %s | %s", t, show(q).c_str()); if (viol_in_case) return; } }, 1});
    return main_(argc, argv, F);
}
