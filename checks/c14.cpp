// C14: runs are independent of each other and leave nothing behind.
#include "heap.hpp"
#include "deep.hpp"
using namespace md; using namespace sp;
namespace {
int openFds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
struct Pair { string name; VS q, docs; };            // two queries, two documents
const vector<Pair> kPairs = {
    {"paths", {"$.a[*].x", "$..b"}, {"{\"a\":[{\"x\":1,\"b\":\"t\"},{\"b\":[2],\"x\":{\"b\":3}}],\"b\":0}", "[{\"b\":{\"a\":[{\"x\":7}]}},{\"a\":1}]"}},
    {"filters", {"$.r[?(@.a>1)].x", "$.r[?(@.b&&@.a)].x[?(@.c)].d"}, {"{\"r\":[{\"x\":[{\"c\":1,\"d\":2}],\"a\":2,\"b\":1},{\"a\":1,\"x\":5},{\"x\":\"u\",\"a\":3}]}", "{\"r\":[{\"a\":9,\"x\":{\"c\":1,\"d\":2}},{\"b\":{},\"a\":\"s\",\"x\":[{\"d\":6},{\"d\":7,\"c\":0}]}]}"}},
    {"slices", {"$[1:3].x", "$.*[0]"}, {"[{\"x\":1},{\"x\":[4,\"w\"]},{\"y\":2,\"x\":\"v\"},{\"x\":3}]", "{\"p\":[{\"x\":1}],\"x\":[[\"s\"],{}],\"q\":{\"x\":5}}"}},
    {"same-query", {"$..a", "$..a"}, {"{\"a\":[{\"a\":\"s\"},{\"b\":{\"a\":[]}}],\"c\":{\"a\":1}}", "[[{\"a\":{\"a\":2}}],{\"a\":\"t\"}]"}},
};
// R: release the query and compile it again; S, P, L, O x input: serial, parallel, learn, parallel with the learned table;
// X, Y: feed the next part of the first document to a serial or parallel context; Z: give it up; F: release the table.
struct Op { char k; int q, in; };
string show(const Op& o) { return string(1, o.k) + char('A' + o.q) + (o.in >= 0 ? std::to_string(o.in) : ""); }
vector<Op> ops(int level) {
    vector<Op> o;
    for (int q = 0; q < 2; q++) { for (char k : string("SPLO")) for (int in : level >= 2 ? vector<int>{0, 1, 2, 3} : level == 1 ? vector<int>{0, 3} : vector<int>{0}) { if (level == 1 && in == 3 && q) continue; o.push_back({k, q, in}); }
        for (char k : string(level ? "RXYZF" : "RXY")) o.push_back({k, q, -1}); }
    return o;
}
struct Tab { void* ct = nullptr; heap::Live size{0, 0}; };
struct Ctx { void* c = nullptr; void* out = nullptr; size_t next = 0; int kind = 0; VS parts; };
struct Session {
    const Pair& p; W& w; void* pp[2]; Tab t[2]; Ctx c[2]; VS want[2][4]; vector<MemFile*> f; bool ok = true; string at; heap::Live compiled{0, 0};     // memory taken by compiling
    Session(const Pair& p, W& w) : p(p), w(w) {
        for (auto& d : p.docs) f.push_back(new MemFile(d)); f.push_back(new MemFile(""));
        for (int q = 0; q < 2; q++) { pp[q] = jps_create(p.q[q].c_str()); for (int d = 0; d < 2; d++) want[q][d] = ref::expect(p.q[q], p.docs[d]).want; }
    }
    const char* input(int i) { return i < 3 ? f[i]->p() : "/nonexistent/input.json"; }
    bool bad(const string& m) { if (ok) w.fail(at + ": " + m); ok = false; return false; }
    bool leak(heap::Live b, heap::Live e) { return b == e || bad("memory in use changed by " + std::to_string(e.blocks - b.blocks) + " blocks, " + std::to_string(e.bytes - b.bytes) + " bytes"); }
    bool result(JRes r, int q, int in) {       // an input without content has no result
        VS got = take(r); if (in >= 2 && got.empty()) return true;
        return got == want[q][in] || bad("expected " + jp::show(want[q][in]) + " got " + jp::show(got));
    }
    void drop(int q) { if (t[q].ct) { jps_free_table(t[q].ct); t[q].ct = nullptr; } }
    bool run(const Op& o) {
        int q = o.q; heap::Live b = heap::live(); int th = jps_threads_open; 
        switch (o.k) {
            case 'S': { if (!result(jps_serial(pp[q], input(o.in)), q, o.in) || !leak(b, heap::live())) return false; break; }
            case 'P': { if (!result(jps_parallel(pp[q], input(o.in), 3), q, o.in) || !leak(b, heap::live())) return false; break; }
            case 'O': { if (!result(jps_parallel_opt(pp[q], input(o.in), 2, t[q].ct), q, o.in) || !leak(b, heap::live())) return false; break; }
            case 'L': { heap::Live was = t[q].size; bool had = t[q].ct; drop(q); heap::Live e = heap::live();
                if (had && (e.blocks != b.blocks - was.blocks || e.bytes != b.bytes - was.bytes)) return bad("releasing the table did not give back what learning it took");
                t[q].ct = jps_learn(pp[q], input(o.in)); heap::Live n = heap::live(); t[q].size = {n.blocks - e.blocks, n.bytes - e.bytes};
                if (!t[q].ct) { if (o.in < 2) return bad("nothing was learned"); if (!leak(e, n)) return false; } break; }
            case 'F': { heap::Live was = t[q].size; bool had = t[q].ct; drop(q); heap::Live e = heap::live(); if (!had) was = {0, 0};
                if (e.blocks != b.blocks - was.blocks || e.bytes != b.bytes - was.bytes) return bad("releasing the table did not give back what learning it took"); break; }
            case 'R': { if (c[q].c) end(q, false); drop(q); b = heap::live(); jps_destroy(pp[q]); pp[q] = jps_create(p.q[q].c_str()); heap::Live e = heap::live(); compiled.blocks += e.blocks - b.blocks; compiled.bytes += e.bytes - b.bytes; break; }
            case 'X': case 'Y': { int kind = o.k == 'X' ? 0 : 2; if (c[q].c && c[q].kind != kind) break;
                if (!c[q].c) { auto at = cuts(p.docs[0]); size_t n = at.size(); c[q].parts = split(p.docs[0], {at[n / 3], at[2 * n / 3]}); c[q].next = 0; c[q].kind = kind; c[q].c = jps_ctx_new(); c[q].out = nullptr; }
                char* s = (char*)c[q].parts[c[q].next++].c_str(); c[q].out = jps_ctx_step(pp[q], c[q].c, s, kind, t[q].ct);
                if (c[q].next == c[q].parts.size()) return end(q, true); break; }
            case 'Z': if (c[q].c) return end(q, false);
        }
        return th == jps_threads_open || bad(std::to_string(jps_threads_open - th) + " threads were not joined");
    }
    bool end(int q, bool complete) {
        VS got = take(jps_ctx_end(c[q].c, c[q].out)); c[q].c = nullptr;
        if (complete && got != want[q][0]) return bad("the parts gave " + jp::show(got) + " instead of " + jp::show(want[q][0]));
        return true;
    }
    // everything is released: what is left must be what was there before
    void finish() {
        if (!ok) return; at = "at the end";
        for (int q = 0; q < 2; q++) { if (c[q].c) end(q, false); VS().swap(c[q].parts); drop(q); }
    }
    ~Session() { for (int q = 0; q < 2; q++) jps_destroy(pp[q]); for (auto* x : f) delete x; }
};
void body(W& w, const Pair& p, const vector<Op>& h, int times = 1) {
    string text; for (auto& o : h) text += (text.empty() ? "" : " ") + show(o);
    if (!w.begin(Case{{"queries", p.name}, {"history", text}, {"times", std::to_string(times)}})) return;
    Session s(p, w); int fds = openFds();
    heap::Live b = heap::live();
    for (int i = 0; i < times && s.ok; i++) for (auto& o : h) { s.at = text + " at " + show(o) + (times > 1 ? ", time " + std::to_string(i + 1) : string()); if (!s.run(o)) break; }
    s.finish();
    if (s.ok) { string().swap(s.at); heap::Live e = heap::live(); s.at = text + " at the end"; s.leak({b.blocks + s.compiled.blocks, b.bytes + s.compiled.bytes}, e); }
    if (s.ok) { int n = openFds(); if (n != fds) s.bad(std::to_string(n - fds) + " more open descriptors"); }
    if (h.size() > 1) w.nontrivial(); w.count(0, h.size() * times);
}
const Pair& pairOf(const string& n) { for (auto& p : kPairs) if (p.name == n) return p; return kPairs[0]; }
void warm() {                                  // what the C library allocates once
    perturb(); FILE* f = fopen("/dev/null", "r"); fclose(f); printf("%lf %d\n", 1.5, 3); strtod("1.5", nullptr);
    for (auto& p : kPairs) { for (auto& q : p.q) { void* x = jps_create(q.c_str()); for (auto& d : p.docs) { MemFile m(d); take(jps_serial(x, m.p())); take(jps_parallel(x, m.p(), 3)); void* ct = jps_learn(x, m.p()); take(jps_parallel_opt(x, m.p(), 2, ct)); jps_free_table(ct); } jps_destroy(x); } }
    openFds();
}
Stage stage(const string& name, const string& rule, int level, int depth, int times, const vector<Pair>& pairs) {
    Stage s; s.name = name; auto o = make_shared<vector<Op>>(ops(level)); auto ps = make_shared<vector<Pair>>(pairs);
    double n = 1, t = 0; for (int i = 0; i < depth; i++) { n *= o->size(); t += n; }
    s.rule = rule + " (" + std::to_string(o->size()) + " operations, up to " + std::to_string(depth) + " in a row, " + std::to_string(pairs.size()) + " pairs of queries: " + std::to_string((long)(t * pairs.size())) + " histories); non-trivial: more than one operation"; s.extra = {"operations"};
    s.ex.units = o->size() * o->size() * pairs.size(); s.ex.hang = 20; s.ex.setup = warm;
    s.ex.unit = [=](int u, W& w) {
        const Pair& p = (*ps)[u % ps->size()]; int k = u / ps->size(); vector<Op> h = {(*o)[k / o->size()]}; if (k % o->size() == 0) body(w, p, h, times);
        if (depth < 2) return; h.push_back((*o)[k % o->size()]);
        std::function<void()> go = [&] { body(w, p, h, times); if ((int)h.size() < depth) for (auto& x : *o) { h.push_back(x); go(); h.pop_back(); } }; go();
    };
    s.ex.one = [=](const Case& c, W& w) {
        vector<Op> h; string t = c.get("history") + " "; for (size_t i = 0; i < t.size();) { size_t e = t.find(' ', i); h.push_back({t[i], t[i + 1] - 'A', e - i > 2 ? t[i + 2] - '0' : -1}); i = e + 1; }
        body(w, pairOf(c.get("queries")), h, c.geti("times"));
    };
    return s;
}
// every way to run one query on one document gives the same result and leaves memory, threads and descriptors as they were
void ways(W& w, Proc& p, const string& d) {
    if (outside(p, d) || !w.begin(Case{{"query", p.q}, {"doc", d}})) return;
    MemFile f(d); void* pp = p.get(); VS want = ref::expect(p.q, d).want; if (!want.empty()) w.nontrivial(); bool ok = true; int fds = openFds(), th = jps_threads_open;
    auto way = [&](const char* what, int footprint, const std::function<VS()>& run) {
        if (!ok) return; heap::Live b = heap::live(); bool same, kept; string got;
        jps_verif_memory_footprint = footprint ? footprint : 250000000; { VS v = run(); same = v == want; if (!same) got = jp::show(v); heap::Live h = heap::live(); VS().swap(v); (void)h; }
        jps_verif_memory_footprint = 250000000; if (!same) { w.fail(string(what) + ": expected " + jp::show(want) + " got " + got); ok = false; return; }
        heap::Live e = heap::live(); kept = b == e; if (!kept) { w.fail(string(what) + ": memory in use changed by " + std::to_string(e.blocks - b.blocks) + " blocks, " + std::to_string(e.bytes - b.bytes) + " bytes"); ok = false; }
        if (ok && jps_threads_open != th) { w.fail(string(what) + ": threads were not joined"); ok = false; } };
    string copy; auto at = cuts(d); int n = at.size(), fp = d.size() / 3 + 1;
    for (int i = 0; i < 2; i++) {
        way("serialRun", 0, [&] { return take(jps_serial(pp, f.p())); });
        way("serialRun in parts", fp, [&] { return take(jps_serial(pp, f.p())); });
        for (int c : {1, 2, 3, 8}) { way("parallelRun", 0, [&] { return take(jps_parallel(pp, f.p(), c)); }); way("parallelRun in parts", fp, [&] { return take(jps_parallel(pp, f.p(), c)); }); }
        for (int t = 0; t < 2; t++) way("parallelRunOpt", 0, [&] { MemFile o("{\"a\":[{\"zz\":[]}]}"); void* ct = jps_learn(pp, t ? o.p() : f.p()); VS v = take(jps_parallel_opt(pp, f.p(), 3, ct)); jps_free_table(ct); return v; });
        if (n < 12) for (int k = 0; k < n; k++) { way("parallel automata", 0, [&] { Chunks c(split(d, {at[k]})); return take(jps_stage_parallel(pp, c.data(), c.n(), nullptr)); }); for (int m : {0, 2}) way("partial runs", 0, [&] { Chunks c(split(d, {at[k]})); return take(jps_partial(pp, c.data(), c.n(), m, nullptr)); }); }
    }
    if (ok && openFds() != fds) w.fail(std::to_string(openFds() - fds) + " more open descriptors");
}
Stage leftovers(const string& name, const string& rule, const VS& qs, const VS& ds, size_t block) { Stage s = product(name, rule + ", in every way to run, twice; non-trivial: something is selected", qs, ds, ways, block); s.ex.setup = warm; s.ex.hang = 30; return s; }
}
static run::Check make(const string& tier) {
    bool th = tier == "thorough"; run::Check c; c.id = "C14";
    c.explanation = "Every case is a history of public calls in one process on two compiled queries: compile, serial, parallel, learn, constrained parallel and partial runs on two documents, an empty and a missing file, releases, contexts fed and given up half-way. After every call the result is compared with the reference evaluator, and memory in use, joined threads and open descriptors with what they were.";
    c.assumptions = {"memory taken by compiling a query is not counted (released with the process)", "an input without content may have no result object"};
    vector<Pair> two = {kPairs[0], kPairs[1]};
    c.stages.push_back(stage("histories", "all histories over all operations and inputs", 2, th ? 4 : 3, 1, th ? two : kPairs));
    c.stages.push_back(stage("deep-histories", "longer histories over fewer operations", 0, th ? 6 : 4, 1, th ? two : kPairs));
    c.stages.push_back(stage("repeated", "every pair of operations, repeated 150 times", 2, 2, 150, two));
    c.stages.push_back(leftovers("shapes", "queries of up to 2 steps with all documents of up to 4 (thorough: 5) nodes", paths({".a", ".*", "..a", "[*]", "[1]", "[0:2]"}, 2), docs({"a", "b"}, "s", 1, th ? 5 : 4), 60));
    c.stages.push_back(leftovers("records", "filter queries with every list of up to 2 records", kRecordQueries, lists(kRecords, 0, 2), 20));
    for (auto& v : sz::variety(th)) if (v.docs.size() < 1000) c.stages.push_back(leftovers("variety-" + v.name, v.rule, v.queries, v.docs, 30));
    for (auto k : sz::kinds(false)) { vector<int> n; for (int x : k.ns) if (x == 2 || x == 20 || x == 45 || x == 99 || x == 130 || x == 401 || x == 1001 || x == 4001 || x == 8001) n.push_back(x); VS ds; for (int x : n) ds.push_back(k.doc(x)); c.stages.push_back(leftovers("sizes-" + k.name, "sizes up to " + std::to_string(n.back()), k.queries, ds, 1)); }
    return c;
}
int main(int argc, char** argv) { return run::main_check(argc, argv, make); }
