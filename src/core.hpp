// Exploration engine: enumerates (family, index) cases over worker processes, records
// violations, detects crashes/hangs, confirms every violation by replaying the case alone, or, where
// the case alone does not show it, after the cases that the same process had run before it.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <time.h>

namespace core {
struct Family { std::string name; std::function<long(bool)> count; std::function<void(long)> run; long chunk = 64; };
enum { MAXH = 1 << 16, MAXW = 64, MAXV = 16, MAXC = 160, MAXS = 48, MAXK = 32 };
struct Chunk { int fam; long a, b; };
struct Viol { int fam; long idx; int kind; int w; long hb, he; char msg[3000]; }; // kind 0 property, 1 crash, 2 hang
struct Cur { volatile int fam; volatile long idx; volatile double start; char detail[400]; };
struct Shared {
    std::atomic<long> next[256], famt[256];
    std::atomic<int> stop, nviol, ns, nc, lock;
    Viol v[MAXV]; Cur cur[MAXW];
    struct { char name[64]; std::atomic<long> val; std::atomic<int> ismax; } c[MAXC];
    struct { char txt[500]; } s[MAXS];
    long hb[MAXW], he[MAXW]; // each worker's chunks since its process began: [hb, he) of its log
    std::atomic<int> nk; struct { char key[64]; char msg[600]; } k[MAXK];
};
inline Shared *SH; inline Chunk *HL; inline int W = -1; inline bool thorough = false; inline int curfam = 0; inline long curidx = 0;
inline std::map<std::string, long> loc; inline std::map<std::string, long> locmax;
inline double limit_s = 60;
inline std::string vdetail;
inline double now() { struct timespec t; syscall(228 /*clock_gettime*/, CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline void count(const char *n, long k = 1) { loc[n] += k; }
inline void maxc(const char *n, long v) { long &x = locmax[n]; if (v > x) x = v; }
inline void detail(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline void detail(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(SH->cur[W].detail, sizeof SH->cur[W].detail, f, a); va_end(a); }
inline void lk() { while (SH->lock.exchange(1)) usleep(50); }
inline void ulk() { SH->lock.store(0); }
inline void sample(const std::string &s, int maxn = 6) {
    static std::map<int, int> n; if (n[curfam]++ >= 1 || SH->ns.load() >= maxn) return;
    lk(); int i = SH->ns.load(); if (i < MAXS && i < maxn) { snprintf(SH->s[i].txt, sizeof SH->s[i].txt, "%s", s.c_str()); SH->ns.store(i + 1); } ulk();
}
inline int viol_in_case = 0;
inline void record(int fam, long idx, int kind, const std::string &m, int w) {
    lk(); int i = SH->nviol.load(); bool dup = false;
    for (int k = 0; k < i && k < MAXV; k++) if (SH->v[k].fam == fam && SH->v[k].idx == idx) dup = true;
    if (!dup && i < MAXV) { SH->v[i].fam = fam; SH->v[i].idx = idx; SH->v[i].kind = kind; SH->v[i].w = w; SH->v[i].hb = SH->hb[w]; SH->v[i].he = SH->he[w]; snprintf(SH->v[i].msg, sizeof SH->v[i].msg, "%s", m.c_str()); SH->nviol.store(i + 1); }
    ulk();
    if (i + 1 >= 6) SH->stop.store(1);
}
inline void violation(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline void violation(const char *f, ...) {
    if (viol_in_case++) return;
    char b[2600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    std::string m = b; if (SH->cur[W].detail[0]) { m += " | at "; m += SH->cur[W].detail; }
    record(curfam, curidx, 0, m, W);
}
// a failure of a catalogued input that the driver looks up in the known-findings file
inline void finding(const char *key, const std::string &m) {
    lk(); int i = SH->nk.load(); bool dup = false; for (int k = 0; k < i; k++) dup |= !strcmp(SH->k[k].key, key);
    if (!dup && i < MAXK) { snprintf(SH->k[i].key, 64, "%s", key); snprintf(SH->k[i].msg, 600, "%s", m.c_str()); SH->nk.store(i + 1); } ulk();
}
inline long slot(const char *n, bool mx) {
    for (int i = 0; i < SH->nc.load(); i++) if (!strcmp(SH->c[i].name, n)) return i;
    int i = SH->nc.load(); if (i >= MAXC) return MAXC - 1;
    snprintf(SH->c[i].name, sizeof SH->c[i].name, "%s", n); SH->c[i].ismax = mx; SH->nc.store(i + 1); return i;
}
inline void flush() {
    lk();
    for (auto &k : loc) SH->c[slot(k.first.c_str(), false)].val += k.second;
    for (auto &k : locmax) { auto &v = SH->c[slot(k.first.c_str(), true)].val; if (k.second > v.load()) v = k.second; }
    ulk(); loc.clear(); locmax.clear();
}
inline std::vector<Family> *FAM; inline std::vector<long> CNT;
inline void run_one(int f, long i) {
    curfam = f; curidx = i; viol_in_case = 0; Cur &c = SH->cur[W]; c.fam = f; c.idx = i; c.detail[0] = 0; c.start = now();
    (*FAM)[f].run(i); double t1 = now(); SH->famt[f] += (long)((t1 - c.start) * 1e6); c.start = 0;
}
inline std::function<void()> worker_init = [] {};
inline void worker(int w) {
    W = w; worker_init();
    for (int f = 0; f < (int)FAM->size(); f++) {
        long ch = (*FAM)[f].chunk;
        while (!SH->stop.load()) {
            long a = SH->next[f].fetch_add(ch); if (a >= CNT[f]) break;
            if (SH->he[w] < MAXH) HL[(long)w * MAXH + SH->he[w]++] = {f, a, std::min(a + ch, CNT[f])};
            for (long i = a; i < a + ch && i < CNT[f] && !SH->stop.load(); i++) run_one(f, i);
            flush();
        }
    }
    flush(); fflush(stdout); _exit(0);
}
inline std::string jstr(const std::string &s) { std::string o = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; } return o + "\""; }
inline int main_(int argc, char **argv, std::vector<Family> fams) {
    int jobs = (int)sysconf(_SC_NPROCESSORS_ONLN); if (jobs > 8) jobs = 8; if (jobs < 1) jobs = 1;
    const char *out = nullptr; std::string replay; const char *e = getenv("VERIF_TIER"); thorough = e && !strcmp(e, "thorough"); std::string only;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--tier") thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--out") out = argv[++i];
        else if (a == "--replay") replay = argv[++i];
        else if (a == "--limit") limit_s = atof(argv[++i]);
        else if (a == "--only") only = argv[++i];
    }
    std::vector<Family> F; for (auto &f : fams) if (only.empty() || only == f.name) F.push_back(f);
    FAM = &F;
    SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void *)SH, 0, sizeof *SH);
    HL = (Chunk *)mmap(nullptr, sizeof(Chunk) * MAXW * MAXH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (auto &f : F) CNT.push_back(f.count(thorough));
    if (F.size() > 250) { fprintf(stderr, "too many families\n"); return 2; }
    auto rep_one = [&](const std::vector<Chunk> &cs, double lim, std::string &msg) -> int { // 0 = no violation, 1 = violation, 2 crash, 3 hang
        int before = SH->nviol.load(); (void)before; SH->nviol.store(0); Viol save = SH->v[0];
        fflush(stdout); char ef[] = "/tmp/verif-replay-XXXXXX"; int efd = mkstemp(ef); pid_t p = fork();
        if (!p) { if (efd >= 0) dup2(efd, 2); W = MAXW - 1; worker_init(); for (auto &h : cs) for (long i = h.a; i < h.b && !SH->nviol.load(); i++) run_one(h.fam, i); if (cs.size() == 1 && cs[0].b == cs[0].a + 1) flush(); fflush(stdout); _exit(0); }
        double t0 = now(); int st = 0; int r = 0;
        while (true) { pid_t q = waitpid(p, &st, WNOHANG); if (q == p) { if (!WIFEXITED(st) || WEXITSTATUS(st)) r = 2; break; } if (now() - t0 > lim) { kill(p, SIGKILL); waitpid(p, &st, 0); r = 3; break; } usleep(2000); }
        if (SH->nviol.load() > 0) { r = 1; msg = SH->v[0].msg; }
        if (r == 2) { char b[64]; snprintf(b, 64, "process died (wait status 0x%x) | at ", st); msg = std::string(b) + SH->cur[MAXW - 1].detail; }
        if (r == 2 && efd >= 0) { char eb[1400]; ssize_t k = pread(efd, eb, sizeof eb - 1, 0); if (k > 0) { eb[k] = 0; msg += " | stderr: "; msg += eb; } }
        if (efd >= 0) { close(efd); unlink(ef); }
        if (r == 3) msg = std::string("no termination within the time limit ") + SH->cur[MAXW - 1].detail;
        SH->v[0] = save; SH->nviol.store(before); return r;
    };
    auto text = [&](const std::vector<Chunk> &cs) { std::string t; for (auto &h : cs) { if (!t.empty()) t += ";"; t += F[h.fam].name + ":" + std::to_string(h.a); if (h.b != h.a + 1) t += "-" + std::to_string(h.b); } return t; };
    if (!replay.empty()) { // family:index, or family:first-end;...;family:index for a case after the cases before it; @file holds such a text
        if (replay[0] == '@') { FILE *f = fopen(replay.c_str() + 1, "r"); replay.clear(); int ch; while (f && (ch = fgetc(f)) != EOF) replay += (char)ch; if (f) fclose(f); }
        std::vector<Chunk> cs;
        for (size_t p = 0; p <= replay.size();) {
            size_t q = std::min(replay.find(';', p), replay.size()); std::string t = replay.substr(p, q - p); p = q + 1; size_t k = t.rfind(':'); std::string fn = t.substr(0, k); char *en; Chunk h{-1, strtol(t.c_str() + k + 1, &en, 10), 0}; h.b = *en == '-' ? atol(en + 1) : h.a + 1;
            for (size_t f = 0; f < F.size(); f++) if (F[f].name == fn) h.fam = (int)f;
            if (h.fam < 0) { fprintf(stderr, "unknown family %s\n", fn.c_str()); return 2; }
            cs.push_back(h);
        }
        std::string m; int r = rep_one(cs, cs.size() > 1 || cs[0].b > cs[0].a + 1 ? 300 : 3 * limit_s, m); printf("%s\n", r ? m.c_str() : SH->nk.load() ? SH->k[0].msg : "no violation"); return r ? 1 : 0;
    }
    double T0 = now();
    std::map<pid_t, int> pids;
    auto spawn = [&](int w) { fflush(stdout); SH->cur[w].start = 0; SH->hb[w] = SH->he[w]; pid_t p = fork(); if (!p) worker(w); pids[p] = w; };
    for (int w = 0; w < jobs; w++) spawn(w);
    int infra = 0; std::set<pid_t> killed;
    while (!pids.empty()) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0 && pids.count(p)) {
            int w = pids[p]; pids.erase(p);
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                Cur &c = SH->cur[w];
                if (c.start != 0) {
                    char b[600]; snprintf(b, sizeof b, "process died (wait status 0x%x) | at %s", st, c.detail);
                    bool hang = killed.count(p) > 0;
                    record(c.fam, c.idx, hang ? 2 : 1, hang ? std::string("no termination within the time limit | at ") + c.detail : b, w);
                } else infra++;
                if (!SH->stop.load() && infra < 20) spawn(w);
            }
            continue;
        }
        for (auto &k : pids) { // snapshot start and index together: the worker moves on concurrently
            Cur &c = SH->cur[k.second]; long i0 = c.idx; double s = c.start; double t = now(); int f0 = c.fam;
            if (s == 0 || t - s <= limit_s) continue;
            usleep(1000); if (c.start == s && c.idx == i0 && c.fam == f0) { killed.insert(k.first); kill(k.first, SIGKILL); }
        }
        usleep(3000);
    }
    int nv = std::min((int)SH->nviol.load(), (int)MAXV);
    std::string J = "{\"wall_s\":" + std::to_string(now() - T0) + ",\"infra\":" + std::to_string(infra) + ",\"stopped\":" + std::to_string(SH->stop.load()) + ",\"families\":{";
    for (size_t f = 0; f < F.size(); f++) J += (f ? "," : "") + jstr(F[f].name) + ":" + std::to_string(CNT[f]);
    J += "},\"family_cpu_s\":{";
    for (size_t f = 0; f < F.size(); f++) J += (f ? "," : "") + jstr(F[f].name) + ":" + std::to_string(SH->famt[f].load() / 1e6);
    J += "},\"violations\":[";
    int conf = 0; double hist = 200; struct Res { int r = 0; bool tried = false; std::string m; std::vector<Chunk> one; }; std::vector<Res> R(nv);
    for (int i = 0; i < nv; i++) {
        Viol v = SH->v[i]; Res &x = R[i]; x.one = {{v.fam, v.idx, v.idx + 1}}; x.tried = conf < 3; x.m = v.msg;
        if (x.tried) { x.r = rep_one(x.one, 3 * limit_s, x.m); if (!x.r) x.r = rep_one(x.one, 3 * limit_s, x.m); }
        conf += x.r != 0;
    }
    for (int i = 0; i < nv && !conf; i++) { // no case shows it alone: what its process did before may be what it takes: the last chunk up to the case, the last eight, all of them
        Viol v = SH->v[i]; Res &x = R[i]; long n = v.he - v.hb, used = 0; if (v.kind == 2 || n < 1 || v.he >= MAXH) continue;
        for (long k : {1L, 8L, n}) {
            k = std::min(k, n); if (k <= used || hist < 1) continue;
            used = k; std::vector<Chunk> cs(HL + (long)v.w * MAXH + v.he - k, HL + (long)v.w * MAXH + v.he);
            if (cs.back().fam != v.fam || v.idx < cs.back().a || v.idx >= cs.back().b) break;
            cs.back().b = v.idx; if (cs.back().a == cs.back().b) cs.pop_back(); cs.push_back(x.one[0]); if (cs.size() < 2) continue;
            double t0 = now(); std::string m; int r = rep_one(cs, hist, m); hist -= now() - t0;
            if (r && r != 3) { x.r = r; x.one = cs; x.m = "after the preceding cases of the same process (" + std::to_string(k) + " chunks; the case alone does not show it): " + m; conf++; break; }
        }
    }
    for (int i = 0; i < nv; i++) {
        Viol v = SH->v[i]; Res &x = R[i]; if (i) J += ",";
        J += "{\"family\":" + jstr(F[v.fam].name) + ",\"index\":" + std::to_string(v.idx) + ",\"case\":" + jstr(text(x.one)) + ",\"kind\":" + std::to_string(v.kind) + ",\"confirmed\":" + (x.r ? "true" : x.tried ? "false" : "null") + ",\"msg\":" + jstr(x.m) + "}";
    }
    J += "],\"findings\":[";
    for (int i = 0; i < SH->nk.load(); i++) J += std::string(i ? "," : "") + "{\"key\":" + jstr(SH->k[i].key) + ",\"msg\":" + jstr(SH->k[i].msg) + "}";
    J += "],\"counters\":{";
    for (int i = 0; i < SH->nc.load(); i++) J += (i ? "," : "") + jstr(SH->c[i].name) + ":" + std::to_string(SH->c[i].val.load());
    J += "},\"samples\":[";
    for (int i = 0; i < SH->ns.load(); i++) J += (i ? "," : "") + jstr(SH->s[i].txt);
    J += "]}";
    if (out) { FILE *f = fopen(out, "w"); fputs(J.c_str(), f); fclose(f); } else puts(J.c_str());
    return nv ? 1 : 0;
}
} // namespace core
