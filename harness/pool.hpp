// Worker pool for exhaustive explorations of the real code: the enumeration is split into units, each unit is explored
// by a forked worker; a case that crashes, hangs or exits is attributed to that case and the exploration resumes behind it.
#pragma once
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
namespace pool {
using std::string; using std::vector; using std::map;
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline string esc(const string& s) {
    string o; for (unsigned char c : s) { if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t"; else if (c == '\\') o += "\\\\"; else if (c < 32 || c == 127) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; } return o;
}
inline string unesc(const string& s) {
    string o; for (size_t i = 0; i < s.size(); i++) { if (s[i] != '\\') { o += s[i]; continue; } char c = s[++i];
        if (c == 'n') o += '\n'; else if (c == 'r') o += '\r'; else if (c == 't') o += '\t'; else if (c == 'x') { o += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else o += c; } return o;
}
// A case: ordered fields, printed one per line.
struct Case {
    vector<std::pair<string, string>> f;
    Case() {}
    Case(std::initializer_list<std::pair<string, string>> l) : f(l.begin(), l.end()) {}
    string get(const string& k) const { for (auto& p : f) if (p.first == k) return p.second; return ""; }
    int geti(const string& k) const { return atoi(get(k).c_str()); }
    string text() const { string o; for (auto& p : f) o += p.first + "=" + esc(p.second) + "\n"; return o; }
    static Case parse(const string& t) { Case c; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); if (e == string::npos) e = t.size(); string l = t.substr(i, e - i); i = e + 1;
            size_t q = l.find('='); if (q == string::npos || l[0] == '#') continue; c.f.push_back({l.substr(0, q), unesc(l.substr(q + 1))}); } return c; }
    string key() const { string o; for (auto& p : f) { if (!o.empty()) o += " "; o += p.first + "=" + esc(p.second); } return o; }
};
struct Slot {                       // one per worker, shared memory
    volatile int unit; volatile long sub; volatile long skip; volatile double beat; volatile long cases; volatile long nontrivial; volatile long states, transitions, extra[8];
    volatile int done_units; char cur[16384]; char msg[4096];
};
struct Fail { string kase, msg; int unit; long sub; };
struct Shared { volatile int next_unit; volatile int stop; volatile long nfail; };
class W {                           // what a unit function sees
  public:
    long stop_at = -1;                // history replay: run the unit up to and including this case
    Slot* s; int failfd; long sub = 0; string curtext;
    Shared* sh; bool replay = false; string verdict; bool failed = false; long maxfail;
    // Announce the next case; false: it was explored before a crash of this unit, skip it.
    string only;                      // replay of one case: every other case of the enumeration is skipped
    bool begin(const Case& c) {
        long me = sub++;
        if (replay && !only.empty()) { if (c.text() != only) return false; curtext = only; hit = true; return true; }
        if (replay) { if (stop_at >= 0 && me > stop_at) { finish(); } cursub = me; curtext = c.text(); return true; }
        if (me < s->skip) return false;
        failed = false;
        s->sub = me; s->beat = now(); s->cases++;
        curtext = c.text(); size_t n = std::min(curtext.size(), sizeof s->cur - 1); memcpy(s->cur, curtext.data(), n); s->cur[n] = 0; s->msg[0] = 0;
        return true;
    }
    long cursub = 0; int outfd = -1; bool hit = false;
    void finish() { if (failed) { if (write(outfd, verdict.data(), verdict.size()) < 0) _exit(9); _exit(1); } _exit(0); }
    void nontrivial() { if (!replay) s->nontrivial++; }
    void count(int k, long n = 1) { if (!replay) s->extra[k] += n; }
    void fail(const string& m) {
        if (replay && stop_at >= 0 && cursub != stop_at) return;
        failed = true; verdict = m; if (replay) return;
        string rec = curtext; char h[64]; int l = snprintf(h, 64, "F %d %ld %zu %zu\n", (int)s->unit, (long)s->sub, rec.size(), m.size());
        string o(h, l); o += rec; o += m; o += '\n'; if (write(failfd, o.data(), o.size()) < 0) _exit(98);
        if (__sync_add_and_fetch(&sh->nfail, 1) > maxfail) sh->stop = 1;
    }
};
struct Explorer {
    int units = 0;
    std::function<void(int, W&)> unit;                    // explore one unit
    std::function<void(const Case&, W&)> one;             // run one case (replay)
    std::function<void()> setup;                          // in every worker process, before its unit
    int workers = 8; double hang = 30; long maxfail = 400; bool quiet = true; double budget = 1e9;
};
struct Result { vector<Fail> fails; long cases = 0, nontrivial = 0, extra[8] = {0}; int units_done = 0; bool complete = false; vector<string> samples; double wall = 0; };
inline void mute() { int n = open("/dev/null", O_WRONLY); dup2(n, 1); if (!getenv("POOL_STDERR")) dup2(n, 2); close(n); }
inline pid_t spawn(Explorer& ex, Slot* s, Shared* sh, int failfd, int errfd) {
    fflush(NULL); pid_t p = fork(); if (p) return p;
    prctl(PR_SET_PDEATHSIG, SIGKILL); mute(); if (errfd >= 0) { if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET); dup2(errfd, 2); }
    rlimit st; getrlimit(RLIMIT_STACK, &st);
    rlimit co = {0, 0}; setrlimit(RLIMIT_CORE, &co);
    W w; w.s = s; w.failfd = failfd; w.sh = sh; w.maxfail = ex.maxfail;
    if (s->unit < 0) {
        if (sh->stop) _exit(76);
        int u = __sync_fetch_and_add(&sh->next_unit, 1); if (u >= ex.units) _exit(76);
        s->skip = 0; s->sub = -1; s->cur[0] = 0; s->beat = now(); s->unit = u;
    }
    if (ex.setup) ex.setup();
    w.sub = 0; s->beat = now(); ex.unit(s->unit, w); s->unit = -1; s->skip = 0; s->done_units++; _exit(0);
}
inline string slurp_fd(int fd) { string o; char b[65536]; lseek(fd, 0, SEEK_SET); ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) o.append(b, n); return o; }
inline string first_lines(const string& s, int n) { size_t i = 0; while (n-- && i < s.size()) { size_t e = s.find('\n', i); if (e == string::npos) return s; i = e + 1; } return s.substr(0, i); }
inline string crash_note(int st, const string& err) {
    string o; if (WIFSIGNALED(st)) o = string("killed by signal ") + std::to_string(WTERMSIG(st)); else o = "process exited with status " + std::to_string(WEXITSTATUS(st));
    for (const char* k : {"ERROR: AddressSanitizer", "runtime error:"}) { size_t p = err.find(k); if (p != string::npos) { size_t b = err.rfind('\n', p); b = b == string::npos ? 0 : b + 1; o += ": " + err.substr(b, err.find('\n', p) - b); break; } }
    size_t p = 0; int n = 0; while (n < 4 && (p = err.find("\n    #", p)) != string::npos) { size_t e = err.find('\n', p + 1); string l = err.substr(p + 1, e - p - 1); size_t in = l.find(" in "); if (in != string::npos) { o += " <" + l.substr(in + 4) + ">"; n++; } p = p + 1; }
    return o;
}
inline Result explore(Explorer& ex) {
    Result r; double t0 = now();
    Slot* sl = (Slot*)mmap(0, sizeof(Slot) * ex.workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int failfd = memfd_create("fails", 0); fcntl(failfd, F_SETFL, O_APPEND);
    vector<pid_t> pid(ex.workers); vector<int> errfd(ex.workers);
    for (int i = 0; i < ex.workers; i++) { sl[i].unit = -1; errfd[i] = memfd_create("err", 0); }
    for (int i = 0; i < ex.workers; i++) pid[i] = spawn(ex, &sl[i], sh, failfd, errfd[i]);
    int live = ex.workers; std::set<int> sampled;
    while (live) {
        for (int i = 0; i < ex.workers; i++) if (pid[i]) {
            int st; pid_t p = waitpid(pid[i], &st, WNOHANG);
            bool hung = false;
            if (p == 0 && sl[i].unit >= 0 && now() - sl[i].beat > ex.hang) { kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); hung = true; p = pid[i]; }
            if (p != pid[i]) continue;
            if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 76) { pid[i] = 0; live--; continue; }
            if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0 && sl[i].unit < 0) { pid[i] = spawn(ex, &sl[i], sh, failfd, errfd[i]); continue; }
            Fail f; f.kase = string(sl[i].cur); f.unit = sl[i].unit; f.sub = sl[i].sub;
            f.msg = hung ? "no progress for " + std::to_string((int)ex.hang) + " s (hang)" : crash_note(st, slurp_fd(errfd[i]));
            r.fails.push_back(f); if (++sh->nfail > ex.maxfail) { sh->stop = 1; pid[i] = 0; live--; continue; }
            sl[i].skip = sl[i].sub + 1;
            pid[i] = spawn(ex, &sl[i], sh, failfd, errfd[i]);
        }
        if (now() - t0 > ex.budget) sh->stop = 1;
        for (int i = 0; i < ex.workers && r.samples.size() < 6; i++) { int u = sl[i].unit; if (u >= 0 && sl[i].sub > 3 && sampled.insert(u).second) { string c(sl[i].cur); if (!c.empty()) r.samples.push_back(Case::parse(c).key()); } }
        usleep(live ? 300 : 0);
    }
    string all = slurp_fd(failfd); size_t i = 0;
    while (i < all.size()) { int u; long sb; size_t a, b; int used; if (sscanf(all.c_str() + i, "F %d %ld %zu %zu\n%n", &u, &sb, &a, &b, &used) != 4) break; 
        size_t q = all.find('\n', i) + 1; Fail f; f.unit = u; f.sub = sb; f.kase = all.substr(q, a); f.msg = all.substr(q + a, b); r.fails.push_back(f); i = q + a + b + 1; }
    for (int k = 0; k < ex.workers; k++) { r.cases += sl[k].cases; r.nontrivial += sl[k].nontrivial; r.units_done += sl[k].done_units; for (int e = 0; e < 8; e++) r.extra[e] += sl[k].extra[e];
        if (r.samples.size() < 3 && sl[k].cur[0]) r.samples.push_back(Case::parse(sl[k].cur).key()); close(errfd[k]); }
    r.complete = !sh->stop && sh->next_unit >= ex.units; r.wall = now() - t0; close(failfd);
    munmap(sl, sizeof(Slot) * ex.workers); munmap(sh, sizeof(Shared));
    return r;
}
// Run one case (or, with unit >= 0, the history of its unit up to case number sub) in a fresh process; empty: it holds.
inline string confirm(Explorer& ex, const string& kase, int unit, long sub, double limit) {
    int out = memfd_create("v", 0), err = memfd_create("e", 0); fflush(NULL); pid_t p = fork();
    if (!p) {
        mute(); dup2(err, 2); rlimit co = {0, 0}; setrlimit(RLIMIT_CORE, &co); if (ex.setup) ex.setup();
        W w; w.replay = true; w.s = nullptr; w.outfd = out;
        if (unit >= 0) { w.stop_at = sub; ex.unit(unit, w); }
        else {
            Case c = Case::parse(kase), k; for (auto& p : c.f) if (p.first != "stage") k.f.push_back(p);
            w.only = k.text(); ex.one(k, w);
            if (!w.hit) w.fail("the case is not part of the space explored");
        }
        w.finish();
    }
    double t0 = now(); int st; while (waitpid(p, &st, WNOHANG) == 0) { if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); close(out); close(err); return "no result within " + std::to_string((int)limit) + " s when run alone (hang)"; } usleep(500); }
    string v = slurp_fd(out), e = slurp_fd(err); close(out); close(err);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
    if (!v.empty()) return v;
    return crash_note(st, e);
}
}  // namespace pool
