#define JPS_OWN_HEAP
// C11: every schedule of the worker threads, and of whole runs at the same time in one process.
#include "deep.hpp"
#include "sched.hpp"
using namespace md; using namespace sp;
namespace {
struct Bounds { int changes; int depth; bool races; bool delays = false; };     // delays: any deviation from the default choice counts, not only preemptions
struct Explore {                                       // all schedules of one case
    W& w; Bounds b; std::function<void()> f; std::function<string()> judge; long runs = 0, points = 0, choices = 0; bool bad = false;
    string plan(const vector<int8_t>& p) { string o; size_t n = p.size(); for (size_t i = 0; i < n; i++) o += (i ? "," : "") + std::to_string(p[i]); return o; }
    void report(const string& m) { vector<int8_t> p; size_t last = 0; auto& l = sched::S().log; for (size_t i = 0; i < l.size(); i++) { p.push_back(l[i].pick); if (l[i].pick != (l[i].cur >= 0 ? l[i].cur : -1)) last = i + 1; } p.resize(last); string s = plan(p); if (s.size() > 300) s = s.substr(0, 300) + "..."; w.fail(m + " [schedule " + std::to_string(runs) + ": " + s + "]"); bad = true; }
    void go(const vector<int8_t>& pre) {
        if (bad) return;
        runs++; if (w.s) w.s->beat = pool::now();
        sched::execute(pre, b.races, b.depth, f); auto& s = sched::S(); points += s.points;
        if (!s.error.empty()) return report(s.error);
        string v = judge(); if (!v.empty()) return report(v);
        vector<sched::Choice> log; log.swap(s.log); vector<int8_t> p; int used = 0;
        for (size_t i = 0; i < log.size(); i++) {
            if (i >= pre.size()) { choices++; for (int t = 0; t < sched::MAXT; t++) if (log[i].enabled >> t & 1 && t != log[i].pick) { if (used + (log[i].cur >= 0 || b.delays) > b.changes) continue; p.push_back(t); go(p); p.pop_back(); if (bad) return; } }
            p.push_back(log[i].pick); used += b.delays ? log[i].pick != log[i].def : log[i].cur >= 0 && log[i].pick != log[i].cur;
        }
    }
    void all() {
        sched::fatal = [this](const string& m) { sched::S().active = false; report(m); if (w.replay) w.finish(); _exit(95); };
        go({}); w.count(0, runs); w.count(1, points); w.count(2, choices); if (runs > 1) w.nontrivial();
    }
};
const vector<string> kCount = {"schedules", "visible_operations", "scheduling_choices"};
string showb(const Bounds& b) { return (b.changes > 1000 ? string("all") : std::to_string(b.changes) + (b.delays ? "delays" : "preemptions")) + (b.depth ? "/calls" + std::to_string(b.depth) : "/sync") + (b.races ? "/races" : ""); }
// worker threads over given chunks; with a table learned from the document: constrained
Body workers(int maxCuts, bool only_max, vector<int> tables, Bounds b) {
    return [=](W& w, Proc& p, const string& d) {
        if (outside(p, d)) return;
        segmentations(d, maxCuts, [&](const vector<size_t>& at) {
            if (at.empty() || (only_max && (int)at.size() != maxCuts)) return;
            for (int t : tables) {
                if (!w.begin(Case{{"query", p.q}, {"doc", d}, {"cuts", showcuts(at)}, {"table", std::to_string(t)}, {"bounds", showb(b)}})) continue;
                VS want = bySerial()(p, d), got; Chunks c(split(d, at)); void* ct = nullptr; if (t) { MemFile f(d); ct = jps_learn(p.get(), f.p()); }
                Explore e{w, b, [&] { got = take(jps_stage_parallel(p.get(), c.data(), c.n(), ct)); }, [&] { return got == want ? string() : "expected " + show(want) + " got " + show(got); }}; e.all();
                if (ct) jps_free_table(ct);
            }
        });
    };
}
// public parallel runs on a file, in parts if a footprint is given
Body runs(vector<int> cores, vector<int> footprints, vector<int> tables, Bounds b) {
    return [=](W& w, Proc& p, const string& d) {
        if (outside(p, d)) return;
        for (int n : cores) for (int fp : footprints) for (int t : tables) {
            if (!w.begin(Case{{"query", p.q}, {"doc", d}, {"cores", std::to_string(n)}, {"footprint", std::to_string(fp)}, {"table", std::to_string(t)}, {"bounds", showb(b)}})) continue;
            MemFile f(d); VS want = bySerial()(p, d), got; void* ct = t ? jps_learn(p.get(), f.p()) : nullptr;
            if (fp) jps_verif_memory_footprint = fp;
            Explore e{w, b, [&] { got = take(t ? jps_parallel_opt(p.get(), f.p(), n, ct) : jps_parallel(p.get(), f.p(), n)); }, [&] { return got == want ? string() : "expected " + show(want) + " got " + show(got); }}; e.all();
            jps_verif_memory_footprint = 250000000; if (ct) jps_free_table(ct);
        }
    };
}
// several runs at the same time: one operation per client thread
//   s serialRun, p parallelRun, o parallelRunOpt with a table shared by the clients of that query, l learning and a run with its table, x partial runs
struct Client { char op; int q; };
struct Setup { string name; VS queries; string doc; };
const vector<Setup> kSetups = {
    {"records", {"$.r[?(@.a>1)].x", "$..a"}, "{\"r\":[{\"a\":2,\"x\":\"s\"},{\"x\":\"t\",\"a\":3},{\"a\":1,\"x\":\"u\"}]}"},
    {"arrays", {"$.r[1:3]", "$.r[*][0]"}, "{\"r\":[[\"p\",\"q\"],[\"r\"],\"s\",{\"t\":\"u\"}]}"},
    {"strings", {"$.r[?(@.a==\"s\"&&@.b)].x", "$.r[?(@.a)]"}, "{\"r\":[{\"a\":\"s\",\"b\":1,\"x\":\"v\"},{\"x\":\"w\",\"b\":2,\"a\":\"t\"}]}"},
};
void clients(W& w, const Setup& su, const vector<Client>& cs, Bounds b) {
    string text; for (auto& c : cs) text += string(1, c.op) + std::to_string(c.q);
    if (!w.begin(Case{{"setup", su.name}, {"clients", text}, {"bounds", showb(b)}})) return;
    vector<void*> pp; vector<void*> ct; vector<VS> want; MemFile f(su.doc);
    for (auto& q : su.queries) { void* p = jps_create(q.c_str()); pp.push_back(p); want.push_back(take(jps_serial(p, f.p()))); ct.push_back(jps_learn(p, f.p())); }
    struct Job { Client c; VS got; void* pp; void* ct; const char* file; const string* doc; };
    vector<Job> js; for (auto& c : cs) js.push_back({c, {}, pp[c.q], ct[c.q], f.p(), &su.doc});
    auto body = [](void* v) -> void* { Job* j = (Job*)v;
        switch (j->c.op) {
            case 's': j->got = take(jps_serial(j->pp, j->file)); break;
            case 'p': j->got = take(jps_parallel(j->pp, j->file, 2)); break;
            case 'o': j->got = take(jps_parallel_opt(j->pp, j->file, 2, j->ct)); break;
            case 'l': { void* t = jps_learn(j->pp, j->file); j->got = take(jps_parallel_opt(j->pp, j->file, 2, t)); jps_free_table(t); break; }
            case 'x': { auto at = cuts(*j->doc); Chunks c(split(*j->doc, {at[at.size() / 2]})); j->got = take(jps_partial(j->pp, c.data(), c.n(), 0, nullptr)); break; } }
        return nullptr; };
    void* (*fn)(void*) = body;
    Explore e{w, b, [&] { vector<pthread_t> h(js.size()); for (size_t i = 0; i < js.size(); i++) sched::create(&h[i], fn, &js[i]); for (auto x : h) sched::join(x, nullptr); },
        [&] { for (size_t i = 0; i < js.size(); i++) if (js[i].got != want[js[i].c.q]) return "client " + std::to_string(i + 1) + ": expected " + show(want[js[i].c.q]) + " got " + show(js[i].got); return string(); }};
    e.all(); for (auto t : ct) jps_free_table(t); for (auto p : pp) jps_destroy(p);
}
void one_arena() { keep_memory(); mallopt(M_ARENA_MAX, 1); }
Stage concurrent(const string& name, const string& ops, int n, Bounds b) {
    Stage s; s.name = name; s.extra = kCount; auto all = make_shared<vector<std::pair<int, vector<Client>>>>(); vector<Client> c;
    std::function<void(int)> go = [&](int su) { if ((int)c.size() == n) { all->push_back({su, c}); return; } for (char o : ops) for (int q = 0; q < 2; q++) { if (!c.empty() && (c.back().op > o || (c.back().op == o && c.back().q > q))) continue; if (c.empty() && q) continue; c.push_back({o, q}); go(su); c.pop_back(); } };
    for (size_t k = 0; k < kSetups.size(); k++) go(k);
    s.rule = std::to_string(n) + " runs at the same time out of the operations " + ops + " on one or two queries created beforehand, bound " + showb(b) + " (" + std::to_string(all->size()) + " combinations); non-trivial: more than one schedule";
    s.ex.units = all->size(); s.ex.hang = 20; s.ex.setup = one_arena;
    s.ex.unit = [=](int u, W& w) { clients(w, kSetups[(*all)[u].first], (*all)[u].second, b); };
    s.ex.one = [=](const Case& k, W& w) { vector<Client> cs; string t = k.get("clients"); for (size_t i = 0; i < t.size(); i += 2) cs.push_back({t[i], t[i + 1] - '0'}); for (auto& su : kSetups) if (su.name == k.get("setup")) clients(w, su, cs, b); };
    return s;
}
Stage plain(const string& name, const string& rule, const VS& qs, const VS& ds, const Body& b) { Stage s = product(name, rule + "; non-trivial: more than one schedule", qs, ds, b, 1); s.extra = kCount; s.ex.hang = 20; s.ex.setup = one_arena; return s; }
}
static run::Check make(const string& tier) {
    bool th = tier == "thorough"; run::Check c; c.id = "C11"; c.level = "model_checking"; c.states = "scheduling_choices"; c.transitions = "visible_operations"; c.traces = "schedules";
    c.explanation = "The real threads run under a controlled scheduler; a depth-first search forces every schedule within the bounds. sync: scheduling points at creation, end and joining of threads, locks and other synchronisation, with detection of unordered conflicting accesses to every byte, which covers all finer interleavings of race-free code; calls N: additionally at entry and exit of every function up to depth N. Every result is compared with the serial run; deadlock, threads that are not joined and endless runs are reported.";
    c.assumptions = {"sequential consistency", "queries are created before runs start at the same time (the query parser has process-wide state)", "functions of the C library other than those known to keep hidden state are thread-safe"};
    VS mixed = {"{\"r\":[{\"a\":1,\"x\":\"s\"},{\"x\":[\"t\",\"u\"],\"a\":true}],\"b\":\"v\"}", "[\"s\",{\"a\":[\"t\",{\"a\":\"u\"}],\"b\":\"v\"},[\"w\",\"x\"]]", "{\"r\":[[\"a\",\"b\"],{\"a\":{\"b\":\"c\"},\"x\":{\"a\":\"d\"}}],\"a\":\"e\"}"};
    VS qs = cat(kRecordQueries, {"$..a", "$..*", "$[*].a", "$.r[0]", "$.r[1:3]", "$[1:].a", "$.*.*", "$.r[*].x", "$[*]", "$.a", "$..x[0]"}); VS some = {"$.r[?(@.a)].x", "$..a", "$.r[1].x", "$[*].a[*]", "$.*"};
    VS three = {"{\"a\":[\"s\",{\"a\":\"t\"}],\"b\":\"u\"}", "[{\"a\":\"s\",\"x\":\"t\"},[\"u\"]]", "{\"r\":[{\"a\":1,\"x\":\"s\"}]}"};
    const int ALL = 1000000;
    c.stages.push_back(plain("three-workers", "every legal segmentation into 2 or 3 chunks, plain and with a learned table, all schedules", qs, mixed, workers(2, false, {0, 1}, {ALL, 0, true})));
    c.stages.push_back(plain("four-workers", "every legal segmentation into 4 chunks, a bounded number of delays", th ? qs : some, mixed, workers(3, true, {0}, {th ? 5 : 2, 0, true, true})));
    c.stages.push_back(plain("public-runs", "parallelRun and parallelRunOpt on 2 to 8 cores, whole and in parts", th ? qs : some, mixed, runs({2, 3, 8}, {0, 20, 35}, {0, 1}, {th ? 3 : 2, 0, true, true})));
    c.stages.push_back(plain("preempted-workers", "every legal segmentation into 2 chunks, one preemption at any function call of any thread", qs, three, workers(1, false, {0, 1}, {1, 6, false})));
    c.stages.push_back(concurrent("two-runs", "spolx", 2, {th ? 5 : 3, 0, true, true}));
    c.stages.push_back(concurrent("three-runs", th ? "spl" : "sl", 3, {th ? 4 : 2, 0, true, true}));
    c.stages.push_back(concurrent("preempted-runs", "spolx", 2, {1, th ? 5 : 4, false, true}));
    // accesses that only some inputs make: fewer schedules, as unordered accesses are reported in any of them
    for (auto& v : sz::variety(th)) { VS ds; size_t step = std::max<size_t>(1, v.docs.size() / (th ? 400 : 40)); for (size_t i = 0; i < v.docs.size(); i += step) ds.push_back(v.docs[i]); c.stages.push_back(plain("races-" + v.name, v.rule + ", every single cut, plain and with a learned table, one delay", v.queries, ds, workers(1, true, {0, 1}, {1, 0, true, true}))); }
    c.stages.push_back(plain("races-shapes", "every document of up to 4 (thorough: 5) nodes, every single cut, one delay", {"$.*", "$..a", "$[*].a", "$.a[1]", "$..*", "$[0:2]", "$.a.a", "$[*][*]", "$[1]..a"}, docs({"a", "b"}, "s", 2, th ? 5 : 4), workers(1, true, {0, 1}, {1, 0, true, true})));
    c.stages.push_back(plain("races-long-tokens", "documents of up to 4 (thorough: 5) nodes with tokens that outgrow buffers, every set of up to 2 cuts, one delay", {"$..*", "$[*].a", "$[1]"}, sz::lengthened(docs({"a"}, "s", 2, th ? 5 : 4, {0}, false), 4500, true), workers(2, false, {0, 1}, {1, 0, true, true})));
    for (auto k : sz::kinds(false)) { VS ds; for (int x : k.ns) if (x == 3 || x == 45 || x == 99 || x == 401 || x == 1001 || (x == 4001 && th)) ds.push_back(k.doc(x)); VS q(k.queries.begin(), k.queries.begin() + std::min<size_t>(k.queries.size(), 6)); c.stages.push_back(plain("races-size-" + k.name, "sizes up to 1001 (thorough: 4001), 3 cores, one delay", q, ds, runs({3}, {0}, {0, 1}, {th ? 1 : 0, 0, true, true}))); }
    if (th) c.stages.push_back(plain("twice-preempted", "segmentations into 2 chunks, two preemptions at any function call", some, {"[{\"a\":\"s\"}]", "{\"a\":[\"s\",\"t\"]}"}, workers(1, false, {0}, {2, 6, false})));
    return c;
}
int main(int argc, char** argv) { jps_inline_threads = false; return run::main_check(argc, argv, make); }
