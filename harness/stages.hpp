// Building blocks of the stages: queries x documents, split into units that are explored in one process each.
#pragma once
#include <malloc.h>
#include "runner.hpp"
namespace st {
using namespace jp; using run::Stage; using std::shared_ptr; using std::make_shared;
#if defined(__SANITIZE_ADDRESS__)
static const bool kAsan = true;
#else
static const bool kAsan = false;
#endif
inline void keep_memory() { mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_TOP_PAD, 16 << 20); }
// fresh and freed memory holds garbage
#if defined(JPS_OWN_HEAP) || defined(__SANITIZE_ADDRESS__)
inline void perturb() { if (kAsan) return; keep_memory(); if (!getenv("NOPERT")) mallopt(M_PERTURB, 0xa5); }
#else
static bool fill = false;
inline void perturb() { keep_memory(); fill = !getenv("NOPERT"); }
}
extern "C" {
void* __libc_malloc(size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*);
void* malloc(size_t n) noexcept { void* p = __libc_malloc(n); if (st::fill && p) memset(p, 0x5a, malloc_usable_size(p)); return p; }
void* realloc(void* p, size_t n) noexcept {
    if (!p) return malloc(n);
    size_t old = malloc_usable_size(p); char* q = (char*)__libc_realloc(p, n); size_t now = q ? malloc_usable_size(q) : 0;
    if (st::fill && now > old) memset(q + old, 0x5a, now - old);
    return q;
}
// the large blocks, a worker's tables, are only filled when they are allocated: filling them is most of the time of a run
void free(void* p) noexcept { size_t n = st::fill && p ? malloc_usable_size(p) : 0; if (n && n < 65536) memset(p, 0xa5, n); __libc_free(p); }
}
namespace st {
#endif
typedef vector<string> VS;
// One compiled query, created when first needed.
struct Proc {
    string q; void* pp = nullptr;
    Proc(const string& q) : q(q) {}
    void* get() { if (!pp) pp = jps_create(q.c_str()); return pp; }
    ~Proc() { if (pp) jps_destroy(pp); }
};
typedef std::function<void(W&, Proc&, const string& doc)> Body;
// Every query with every document; body announces one or more cases per pair, with the fields query and doc.
inline Stage product(const string& name, const string& rule, const VS& queries, const VS& docs, const Body& body, size_t block = 400) {
    Stage s; s.name = name; s.rule = rule + " (" + std::to_string(queries.size()) + " queries x " + std::to_string(docs.size()) + " documents)";
    auto qs = make_shared<VS>(queries), ds = make_shared<VS>(docs);
    size_t nb = (ds->size() + block - 1) / block;
    s.ex.units = qs->size() * nb; s.ex.hang = 10; s.ex.setup = perturb;
    s.ex.unit = [=](int u, W& w) {
        size_t b = u / qs->size(); Proc p((*qs)[u % qs->size()]);
        for (size_t i = b * block; i < std::min(ds->size(), (b + 1) * block); i++) body(w, p, (*ds)[i]);
    };
    s.ex.one = [=](const Case& c, W& w) { Proc p(c.get("query")); body(w, p, c.get("doc")); };
    return s;
}
// Every text of a list; body announces its cases, whose first field is text.
inline Stage each(const string& name, const string& rule, const VS& texts, const std::function<void(W&, const string&)>& body, const string& what = "texts", size_t block = 200) {
    Stage s; s.name = name; s.rule = rule + " (" + std::to_string(texts.size()) + " " + what + ")"; auto t = make_shared<VS>(texts);
    s.ex.units = (t->size() + block - 1) / block; s.ex.hang = 10; s.ex.setup = perturb;
    s.ex.unit = [=](int u, W& w) { for (size_t i = u * block; i < std::min(t->size(), (u + 1) * block); i++) body(w, (*t)[i]); };
    s.ex.one = [=](const Case& c, W& w) { body(w, c.f[0].second); };
    return s;
}
// queries "$" + up to len steps
inline VS paths(const VS& steps, int len, bool root = true) {
    VS qs = {"$"}; size_t b = 0;
    for (int l = 0; l < len; l++) { size_t e = qs.size(); for (size_t i = b; i < e; i++) for (auto& s : steps) qs.push_back(qs[i] + s); b = e; }
    if (!root) qs.erase(qs.begin());
    return qs;
}
inline VS docs(const VS& keys, const string& leaves, int lo, int hi, const vector<int>& styles = {0}, bool empties = true) {
    gen::Shapes sh; sh.keys = keys; sh.leaves = leaves; sh.emptyArr = sh.emptyObj = empties; VS o;
    for (int n = lo; n <= hi; n++) for (auto& s : sh.of(n)) if (s.k == '{' || s.k == '[') for (int st : styles) { string d = gen::render(s, st); if (o.empty() || o.back() != d) o.push_back(d); }
    return o;
}
inline VS wrap(const VS& ds, const string& pre, const string& post) { VS o; for (auto& d : ds) o.push_back(pre + d + post); return o; }
inline VS cat(VS a, const VS& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
}  // namespace st
