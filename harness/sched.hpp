// A controlled scheduler for the real threads of the code under test, and a happens-before race detector.
// The code is compiled with -fsanitize=thread, but linked with the runtime below instead of libtsan; its calls of libc
// functions that create threads, synchronise, touch memory or keep hidden state are redirected to the jv_ functions
// (build.py). Exactly one thread runs at any time; at every visible operation the scheduler decides who runs next.
#pragma once
#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <wchar.h>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
namespace sched {
using std::string; using std::vector;
enum { SYNC = 1, FINE = 2, MAXT = 24 };
struct Thr { int id = 0; pthread_t h; sem_t go; bool done = false, joined = false, detached = false; std::function<bool()> blocked; uint32_t vc[MAXT]; void* (*f)(void*) = 0; void* arg = 0; void* ret = 0; int depth = 0; };
struct Choice { uint32_t enabled; int8_t cur; int8_t pick; uint8_t cls; int8_t def; };        // cur -1: the running thread could not go on
struct State {
    bool active = false, races = true; int fine_depth = 0;                        // fine_depth: calls up to this depth are visible operations
    vector<Thr*> t; Thr* cur = 0; vector<int8_t> plan; vector<Choice> log; size_t pos = 0; long points = 0, limit = 2000000, diverged = 0;
    string error; std::map<const void*, vector<uint32_t>> sync; std::map<const void*, int> owner; std::map<const void*, long> count; uint32_t gen = 0; char* stacks = 0;
};
inline State& S() { static State s; return s; }
inline thread_local Thr* self = 0;
static const size_t kStack = 16u << 20;
static std::function<void(const string&)> fatal;                                  // reports an error from which the process cannot go on
// ---- race detector: per granule of 8 bytes the last accesses of every thread ----
struct Cell { uint16_t n; uint32_t rec[15]; };                                    // rec: thread 5, write 1, clock 18, mask 8 bits
// Blocks of 32 granules whose granules have the same history are kept as one cell.
struct Block { uint32_t gen; bool uniform; Cell u; };
struct Page { Block b[16]; Cell c[512]; };
inline Page* shadow_page() {                                                      // not from the heap, whose layout stays that of the code
    static char* at = 0; static size_t left = 0; if (left < sizeof(Page)) { left = 64u << 20; at = (char*)mmap(0, left, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    Page* p = (Page*)at; at += sizeof(Page); left -= sizeof(Page); return p;
}
inline Page* page(uintptr_t a, bool make = true) {
    static std::unordered_map<uintptr_t, Page*> m; static struct { uintptr_t k; Page* p; } cache[1024]; uintptr_t k = a >> 12; auto& e = cache[k & 1023];
    if (e.k != k || !e.p) { auto i = m.find(k); if (i == m.end()) { if (!make) return nullptr; i = m.emplace(k, shadow_page()).first; } e.k = k; e.p = i->second; }
    return e.p;
}
inline Block& block_of(Page* p, uintptr_t g) { Block& b = p->b[g >> 5 & 15]; if (b.gen != S().gen) { b.gen = S().gen; b.uniform = true; b.u.n = 0; } return b; }
inline Cell& cell(Page* p, uintptr_t g) { Block& b = block_of(p, g); if (b.uniform) { Cell* c = &p->c[g & 511 & ~31]; for (int i = 0; i < 32; i++) { c[i].n = b.u.n; memcpy(c[i].rec, b.u.rec, b.u.n * sizeof b.u.rec[0]); } b.uniform = false; } return p->c[g & 511]; }
inline string where(const void* pc) {
    Dl_info di; char cmd[256], line[512] = ""; if (!dladdr(pc, &di)) return "?";
    snprintf(cmd, sizeof cmd, "addr2line -s -f -e /proc/%d/exe %#lx 2>/dev/null", (int)getpid(), (long)pc - (long)di.dli_fbase - 1);
    FILE* p = popen(cmd, "r"); string o; if (p) { while (fgets(line, sizeof line, p)) { line[strcspn(line, "\n")] = 0; o += (o.empty() ? "" : " ") + string(line); } pclose(p); } return o;
}
inline void race(int other, bool ow, bool w, const void* a, const void* pc) {
    if (!S().error.empty()) return;
    bool act = S().active; S().active = false;
    S().error = string("unsynchronised accesses: thread ") + std::to_string(self->id) + (w ? " writes" : " reads") + " what thread " + std::to_string(other) + (ow ? " writes" : " reads") + " (at " + where(pc) + ")"; S().active = act; (void)a;
}
inline void one(Cell& c, uintptr_t g, uint32_t mask, bool w, const void* pc) {
    uint32_t me = self->id, clk = self->vc[me]; int keep = 0; bool have = false;
    for (int i = 0; i < c.n; i++) {
        uint32_t r = c.rec[i], t = r >> 27, rw = r >> 26 & 1, rc = r >> 8 & 0x3ffff, rm = r & 255;
        if (t == me) { if (rw >= w) { if (rw == w && rc == clk) { rm |= mask; have = true; } else if (rw == w) rm &= ~mask; } else rm &= ~mask; }    // a write covers earlier reads
        else if ((rw || w) && (rm & mask) && rc > self->vc[t]) race(t, rw, w, (void*)(g << 3), pc);
        else if (rc <= self->vc[t] && w) rm &= ~mask;                              // ordered before this write: nothing can race with it alone
        if (rm) c.rec[keep++] = t << 27 | rw << 26 | rc << 8 | rm;
    }
    c.n = keep;
    if (!have) { if (c.n == 15) { memmove(c.rec, c.rec + 1, sizeof c.rec - sizeof c.rec[0]); c.n--; } c.rec[c.n++] = me << 27 | (uint32_t)w << 26 | clk << 8 | mask; }
}
inline void acc(const void* p, size_t n, bool w, const void* pc) {
    if (!S().active || !S().races || !self || !n) return;
    uintptr_t a = (uintptr_t)p, e = a + n; if (n > (1u << 26)) return;
    while (a < e) {
        uintptr_t g = a >> 3; Page* p = page(a);
        if (!(g & 31) && !(a & 7) && e - a >= 256) { Block& b = block_of(p, g); if (b.uniform) { one(b.u, g, 255, w, pc); a += 256; continue; } }
        uintptr_t lim = (g + 1) << 3; if (lim > e) lim = e; uint32_t m = ((1u << (lim - a)) - 1) << (a & 7); one(cell(p, g), g, m & 255, w, pc); a = lim;
    }
}
inline void forget(const void* p, size_t n) {                                      // fresh memory
    if (!S().active || !S().races || !self || !p) return;
    for (uintptr_t g = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3; g < e;) {
        Page* q = page(g << 3, false); if (!q) { g = (g | 511) + 1; continue; }
        if (!(g & 31) && e - g >= 32) { Block& b = block_of(q, g); b.uniform = true; b.u.n = 0; g += 32; } else cell(q, g++).n = 0;
    }
}
inline void tick() { if (++self->vc[self->id] >= 0x3ffff) abort(); }
inline void join_vc(uint32_t* d, const uint32_t* s) { for (int i = 0; i < MAXT; i++) if (s[i] > d[i]) d[i] = s[i]; }
inline void acquire(const void* o) { auto i = S().sync.find(o); if (i != S().sync.end()) join_vc(self->vc, i->second.data()); }
inline void release(const void* o) { auto& v = S().sync[o]; v.resize(MAXT); join_vc(v.data(), self->vc); tick(); }
// ---- scheduler ----
inline bool enabled(Thr* t) { return !t->done && (!t->blocked || t->blocked()); }
inline void switch_to(Thr* n) { Thr* me = self; State& s = S(); s.cur = n; bool done = me->done; sem_post(&n->go); if (!done) while (sem_wait(&me->go)) {} }
inline void choose(int cls, bool may_stay, bool yielding = false) {
    State& s = S(); uint32_t mask = 0; int n = 0, first = -1; bool me = may_stay;
    for (auto* t : s.t) if (t != self ? enabled(t) : may_stay) { mask |= 1u << t->id; n++; if (first < 0) first = t->id; }
    if (++s.points > s.limit) fatal("the run does not end: more than " + std::to_string(s.limit) + " visible operations");
    if (!n) fatal("deadlock: no thread can go on");
    if (yielding && n > 1) { mask &= ~(1u << self->id); me = false; n--; if (first == self->id) for (auto* t : s.t) if (mask >> t->id & 1) { first = t->id; break; } }
    int pick = me ? self->id : first; const int def = pick;
    if (n > 1) {
        if (s.pos < s.plan.size()) { pick = s.plan[s.pos]; if (!(mask >> pick & 1)) { s.diverged++; pick = me ? self->id : first; } }
        s.pos++; s.log.push_back({mask, (int8_t)(me ? self->id : -1), (int8_t)pick, (uint8_t)cls, (int8_t)def});
    }
    if (pick != self->id) switch_to(s.t[pick]);
}
inline void point(int cls) { if (S().active && self && (cls == SYNC || self->depth <= S().fine_depth)) choose(cls, true); }
inline void block(const std::function<bool()>& ready) { if (ready()) return; self->blocked = ready; choose(SYNC, false); self->blocked = nullptr; }
inline void* body(void* p) {
    Thr* t = (Thr*)p; self = t; while (sem_wait(&t->go)) {}
    t->ret = t->f(t->arg); t->done = true; tick(); choose(SYNC, false); return t->ret;
}
inline int create(pthread_t* out, void* (*f)(void*), void* arg, bool detached = false) {
    State& s = S(); if (s.t.size() >= MAXT) { fprintf(stderr, "too many threads\n"); abort(); }
    Thr* t = new Thr; t->id = s.t.size(); t->f = f; t->arg = arg; t->detached = detached; sem_init(&t->go, 0, 0); memset(t->vc, 0, sizeof t->vc); join_vc(t->vc, self->vc); t->vc[t->id] = 1; tick();
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, s.stacks + t->id * kStack, kStack);
    static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
    if (real(&t->h, &a, body, t)) { fprintf(stderr, "pthread_create failed\n"); abort(); }
    pthread_attr_destroy(&a); s.t.push_back(t); *out = t->h; point(SYNC); return 0;
}
inline Thr* find(pthread_t h) { for (auto* t : S().t) if (t->id && !t->joined && pthread_equal(t->h, h)) return t; return nullptr; }
inline int join(pthread_t h, void** r) { Thr* t = find(h); if (!t) { fatal("a thread is joined that was not created or was joined before"); return 3; } block([=] { return t->done; }); t->joined = true; join_vc(self->vc, t->vc); if (r) *r = t->ret; return 0; }
inline int lock(const void* m, bool wait = true) { point(SYNC); auto& o = S().owner[m]; if (o && !wait) return 16; block([&] { return o == 0; }); o = self->id + 1; acquire(m); return 0; }
inline int unlock(const void* m) { release(m); S().owner[m] = 0; point(SYNC); return 0; }
inline void hidden(const char* what, const void* pc) { static std::map<string, char> at; auto& c = at[what]; acc(&c, 1, true, pc); point(SYNC); }   // libc state shared by all threads
// One execution of f under a plan; the choices behind the plan continue the running thread where it can go on.
inline void execute(const vector<int8_t>& plan, bool races, int fine_depth, const std::function<void()>& f) {
    State& s = S(); if (!s.stacks) s.stacks = (char*)mmap(0, kStack * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    s.t.clear(); s.plan = plan; s.log.clear(); s.pos = 0; s.points = 0; s.diverged = 0; s.error.clear(); s.sync.clear(); s.owner.clear(); s.count.clear(); s.gen++; s.races = races; s.fine_depth = fine_depth;
    Thr m; m.id = 0; memset(m.vc, 0, sizeof m.vc); m.vc[0] = 1; sem_init(&m.go, 0, 0); s.t.push_back(&m); self = &m; s.cur = &m; s.active = true;
    f();
    int open = 0; for (auto* t : s.t) if (t->id && !t->joined && !t->detached) open++;
    block([&] { for (auto* t : s.t) if (t->id && !t->done) return false; return true; });
    s.active = false; self = nullptr;
    static auto real = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join");
    for (auto* t : s.t) if (t->id) { real(t->h, nullptr); sem_destroy(&t->go); delete t; }
    s.t.clear(); if (open && s.error.empty()) s.error = std::to_string(open) + " threads were not joined";
}
}  // namespace sched
#define PC __builtin_return_address(0)
extern "C" {
using namespace sched;
void __tsan_init() {}
void __tsan_func_entry(void*) { if (self && S().active) { self->depth++; point(FINE); } }
void __tsan_func_exit() { if (self && S().active) { point(FINE); self->depth--; } }
#define RW(n) void __tsan_read##n(void* p) { acc(p, n, false, PC); } void __tsan_write##n(void* p) { acc(p, n, true, PC); } void __tsan_unaligned_read##n(void* p) { acc(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { acc(p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { acc(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { acc(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { acc(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { acc(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { acc(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { acc(p, 8, false, PC); }
static inline void atom(const volatile void* p) { if (S().active && self) { point(SYNC); acquire((const void*)p); release((const void*)p); } }
#define ATOM(b, T) \
  T __tsan_atomic##b##_load(const volatile T* p, int) { atom(p); return *p; } void __tsan_atomic##b##_store(volatile T* p, T v, int) { atom(p); *p = v; } \
  T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { atom(p); T o = *p; *p = v; return o; } T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { atom(p); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { atom(p); T o = *p; *p = o - v; return o; } T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { atom(p); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { atom(p); T o = *p; *p = o | v; return o; } T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { atom(p); T o = *p; *p = o ^ v; return o; } \
  bool __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { atom(p); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
  bool __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int a, int c) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, a, c); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int) { atom(p); T o = *p; if (o == e) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { point(SYNC); }
void __tsan_atomic_signal_fence(int) {}
// ---- libc as seen by the instrumented code ----
static inline size_t rd(const char* s, const void* pc) { size_t n = strlen(s); acc(s, n + 1, false, pc); return n; }
#define R(p, n) acc(p, n, false, PC)
#define WR(p, n) acc(p, n, true, PC)
void* jv_memcpy(void* d, const void* s, size_t n) { R(s, n); WR(d, n); return memcpy(d, s, n); }
void* jv_memmove(void* d, const void* s, size_t n) { R(s, n); WR(d, n); return memmove(d, s, n); }
void* jv_memset(void* d, int c, size_t n) { WR(d, n); return memset(d, c, n); }
int jv_memcmp(const void* a, const void* b, size_t n) { R(a, n); R(b, n); return memcmp(a, b, n); }
void* jv_memchr(const void* a, int c, size_t n) { void* r = (void*)memchr(a, c, n); R(a, r ? (char*)r - (char*)a + 1 : n); return r; }
size_t jv_strlen(const char* s) { return rd(s, PC); }
size_t jv_strnlen(const char* s, size_t n) { size_t k = strnlen(s, n); R(s, k < n ? k + 1 : n); return k; }
static size_t diff(const char* a, const char* b, size_t n) { size_t i = 0; while (i < n && a[i] && a[i] == b[i]) i++; return i < n ? i + 1 : n; }
int jv_strcmp(const char* a, const char* b) { size_t n = diff(a, b, ~0ul); R(a, n); R(b, n); return strcmp(a, b); }
int jv_strncmp(const char* a, const char* b, size_t m) { size_t n = diff(a, b, m); R(a, n); R(b, n); return strncmp(a, b, m); }
int jv_strcasecmp(const char* a, const char* b) { rd(a, PC); rd(b, PC); return strcasecmp(a, b); }
char* jv_strcpy(char* d, const char* s) { size_t n = rd(s, PC); WR(d, n + 1); return strcpy(d, s); }
char* jv_stpcpy(char* d, const char* s) { size_t n = rd(s, PC); WR(d, n + 1); return stpcpy(d, s); }
char* jv_strncpy(char* d, const char* s, size_t m) { size_t n = strnlen(s, m); R(s, n < m ? n + 1 : m); WR(d, m); return strncpy(d, s, m); }
char* jv_strcat(char* d, const char* s) { size_t k = rd(d, PC), n = rd(s, PC); WR(d + k, n + 1); return strcat(d, s); }
char* jv_strncat(char* d, const char* s, size_t m) { size_t k = rd(d, PC), n = strnlen(s, m); R(s, n); WR(d + k, n + 1); return strncat(d, s, m); }
char* jv_strchr(const char* s, int c) { rd(s, PC); return (char*)strchr(s, c); }
char* jv_strrchr(const char* s, int c) { rd(s, PC); return (char*)strrchr(s, c); }
char* jv_strstr(const char* s, const char* x) { rd(s, PC); rd(x, PC); return (char*)strstr(s, x); }
size_t jv_strspn(const char* s, const char* x) { rd(s, PC); return strspn(s, x); }
size_t jv_strcspn(const char* s, const char* x) { rd(s, PC); return strcspn(s, x); }
char* jv_strpbrk(const char* s, const char* x) { rd(s, PC); return (char*)strpbrk(s, x); }
int jv_atoi(const char* s) { rd(s, PC); return atoi(s); }
double jv_atof(const char* s) { rd(s, PC); return atof(s); }
double jv_strtod(const char* s, char** e) { rd(s, PC); return strtod(s, e); }
long jv_strtol(const char* s, char** e, int b) { rd(s, PC); return strtol(s, e, b); }
int jv_vsnprintf(char* d, size_t n, const char* f, va_list v) { int r = vsnprintf(d, n, f, v); WR(d, r < 0 ? 0 : (size_t)r + 1 < n ? (size_t)r + 1 : n); return r; }
int jv_snprintf(char* d, size_t n, const char* f, ...) { va_list v; va_start(v, f); int r = vsnprintf(d, n, f, v); va_end(v); WR(d, r < 0 ? 0 : (size_t)r + 1 < n ? (size_t)r + 1 : n); return r; }
int jv_sprintf(char* d, const char* f, ...) { va_list v; va_start(v, f); int r = vsprintf(d, f, v); va_end(v); WR(d, r + 1); return r; }
void* jv_malloc(size_t n) { void* p = malloc(n); forget(p, malloc_usable_size(p)); return p; }
void* jv_calloc(size_t a, size_t b) { void* p = calloc(a, b); forget(p, malloc_usable_size(p)); return p; }
void jv_free(void* p) { if (p) { size_t k = malloc_usable_size(p); acc(p, k, true, PC); forget(p, k); } free(p); }
void* jv_realloc(void* p, size_t n) { if (p) { size_t k = malloc_usable_size(p); acc(p, k, true, PC); forget(p, k); } void* r = realloc(p, n); forget(r, malloc_usable_size(r)); return r; }
char* jv_strdup(const char* s) { size_t n = rd(s, PC); char* p = strdup(s); forget(p, malloc_usable_size(p)); return p; }
char* jv_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); R(s, n < m ? n + 1 : m); char* p = strndup(s, m); forget(p, malloc_usable_size(p)); return p; }
char* jv_strtok(char* s, const char* d) { hidden("strtok", PC); return strtok(s, d); }
int jv_rand() { hidden("rand", PC); return rand(); }
void jv_srand(unsigned x) { hidden("rand", PC); srand(x); }
struct tm* jv_localtime(const time_t* t) { hidden("localtime", PC); return localtime(t); }
struct tm* jv_gmtime(const time_t* t) { hidden("localtime", PC); return gmtime(t); }
char* jv_ctime(const time_t* t) { hidden("localtime", PC); return ctime(t); }
char* jv_asctime(const struct tm* t) { hidden("localtime", PC); return asctime(t); }
int jv_setenv(const char* a, const char* b, int o) { hidden("environment", PC); return setenv(a, b, o); }
#define ON if (!S().active || !self) return 0;
int jv_pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* a) {
    if (!S().active || !self) { f(a); *t = (pthread_t)1; return 0; }              // outside of an exploration: run to completion
    int d = 0; if (at) pthread_attr_getdetachstate(at, &d);
    WR(t, sizeof *t); return create(t, f, a, d == PTHREAD_CREATE_DETACHED);
}
int jv_pthread_join(pthread_t t, void** r) { if (!S().active || !self) { if (r) *r = 0; return 0; } return sched::join(t, r); }
int jv_pthread_detach(pthread_t t) { ON if (Thr* x = find(t)) x->detached = true; point(SYNC); return 0; }
void jv_pthread_exit(void* r) { self->ret = r; self->done = true; tick(); choose(SYNC, false); pthread_exit(r); }
int jv_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) { return 0; }
int jv_pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int jv_pthread_mutex_lock(pthread_mutex_t* m) { ON return lock(m); }
int jv_pthread_mutex_trylock(pthread_mutex_t* m) { ON return lock(m, false); }
int jv_pthread_mutex_unlock(pthread_mutex_t* m) { ON return unlock(m); }
int jv_pthread_spin_init(pthread_spinlock_t*, int) { return 0; }
int jv_pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int jv_pthread_spin_lock(pthread_spinlock_t* m) { ON return lock((void*)m); }
int jv_pthread_spin_unlock(pthread_spinlock_t* m) { ON return unlock((void*)m); }
int jv_pthread_rwlock_init(pthread_rwlock_t*, const pthread_rwlockattr_t*) { return 0; }
int jv_pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int jv_pthread_rwlock_rdlock(pthread_rwlock_t* m) { ON return lock(m); }
int jv_pthread_rwlock_wrlock(pthread_rwlock_t* m) { ON return lock(m); }
int jv_pthread_rwlock_unlock(pthread_rwlock_t* m) { ON return unlock(m); }
int jv_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int jv_pthread_cond_destroy(pthread_cond_t*) { return 0; }
int jv_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { ON auto& n = S().count[c]; long ticket = ++n; (void)ticket; auto& woken = S().count[(char*)c + 1]; long my = n; unlock(m); block([&woken, my] { return woken >= my; }); return lock(m); }
int jv_pthread_cond_signal(pthread_cond_t* c) { ON auto& woken = S().count[(char*)c + 1]; if (woken < S().count[c]) woken++; point(SYNC); return 0; }
int jv_pthread_cond_broadcast(pthread_cond_t* c) { ON S().count[(char*)c + 1] = S().count[c]; point(SYNC); return 0; }
int jv_pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t*, unsigned n) { ON S().count[b] = n; S().count[(char*)b + 1] = 0; return 0; }
int jv_pthread_barrier_destroy(pthread_barrier_t*) { return 0; }
int jv_pthread_barrier_wait(pthread_barrier_t* b) { ON long n = S().count[b]; auto& k = S().count[(char*)b + 1]; long my = k++; release(b); point(SYNC); long need = (my / n + 1) * n; block([&k, need] { return k >= need; }); acquire(b); return my % n == 0 ? PTHREAD_BARRIER_SERIAL_THREAD : 0; }
int jv_sem_init(sem_t* s, int, unsigned n) { ON S().count[s] = n; return 0; }
int jv_sem_destroy(sem_t*) { return 0; }
int jv_sem_post(sem_t* s) { ON release(s); S().count[s]++; point(SYNC); return 0; }
int jv_sem_wait(sem_t* s) { ON point(SYNC); auto& n = S().count[s]; block([&] { return n > 0; }); n--; acquire(s); return 0; }
int jv_pthread_once(pthread_once_t* o, void (*f)(void)) { ON lock(o); auto& n = S().count[o]; if (!n) { n = 1; f(); } return unlock(o); }
int jv_sched_yield() { ON choose(SYNC, true, true); return 0; }
int jv_pthread_yield() { ON choose(SYNC, true, true); return 0; }
int jv_usleep(unsigned) { ON choose(SYNC, true, true); return 0; }
unsigned jv_sleep(unsigned) { ON choose(SYNC, true, true); return 0; }
int jv_nanosleep(const struct timespec*, struct timespec*) { ON choose(SYNC, true, true); return 0; }
}
#undef PC
#undef R
#undef WR
#undef ON
