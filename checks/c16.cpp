// C16: filtering a list of matches in several steps equals filtering it at once, and both equal the meaning of the filters.
#include "modes.hpp"
#include "spaces.hpp"
using namespace md; using namespace sp;
namespace {
// What may stand in a list of matches of one query: the start or end of an element of filter f, or a value at a path.
struct Sym { char k; int f; string path, text; int state; };
struct Model {
    ref::Query q; vector<string> prefix; vector<ref::Ex*> ex; string out; vector<Sym> syms; void* pp;
    vector<vector<string>> vars;
    static void variables(const ref::Ex& e, vector<string>& v) { if (e.k == ref::Ex::VAR) { string p; for (auto& k : e.path) p += "." + k; if (std::find(v.begin(), v.end(), p) == v.end()) v.push_back(p); } for (auto& a : e.a) variables(a, v); }
    int walk(const string& p) { int s = 1; for (size_t i = 0; i < p.size();) { size_t e = p.find_first_of(".[", i + 1); if (e == string::npos) e = p.size(); string n = p.substr(i + 1, e - i - 1); s = jps_pp_next(pp, s, p[i] == '[' ? nullptr : n.c_str()); i = e; } return s; }
    Model(const string& text, const VS& values) {
        q = ref::parseQuery(text); pp = jps_create(text.c_str()); string p;
        for (auto& s : q) { if (s.k == ref::Step::CHILD) p += "." + s.name; else { p += "["; if (s.k == ref::Step::FILTER) { prefix.push_back(p); ex.push_back(&*s.ex); vars.push_back({}); variables(*s.ex, vars.back()); } } }
        out = p;
        for (size_t f = 0; f < prefix.size(); f++) { int st = walk(prefix[f]); syms.push_back({'{', (int)f, "", "{", st}); syms.push_back({'}', (int)f, "", "}", st});
            for (auto& v : vars[f]) { string path = prefix[f] + v; for (auto& x : values) syms.push_back({'v', (int)f, path, x, walk(path)}); } }
        bool also = false; for (auto& s : syms) if (s.path == out) also = true;
        if (!also) for (string t : {"\"o\"", "{\"p\":1}"}) { syms.push_back({'v', (int)prefix.size() - 1, out, t, walk(out)}); if (values.size() < 2) break; }
    }
    ~Model() { jps_destroy(pp); }
    // the results, and their number after each tuple
    struct El { int f; std::map<string, string> val; vector<string> outs; };
    struct Results { VS all; vector<int> after; };
    Results results(const vector<const Sym*>& l) {
        vector<El> open; Results res; auto& done = res.all;
        for (auto* s : l) {
            if (s->k == '{') { open.push_back({s->f, {}, {}}); }
            else if (s->k == '}') { El e = open.back(); open.pop_back();
                auto look = [&](const vector<string>& path) -> ref::V { string p = prefix[e.f]; for (auto& k : path) p += "." + k; auto it = e.val.find(p); if (it == e.val.end()) return ref::V(); ref::J j = ref::parseJson(it->second); return ref::valueOf(j, it->second); };
                if (ref::truth(ref::evalEx(*ex[e.f], look))) { auto& to = open.empty() ? done : open.back().outs; to.insert(to.end(), e.outs.begin(), e.outs.end()); } }
            else { open.back().val[s->path] = s->text; if (s->path == out) open.back().outs.push_back(s->text); }
            res.after.push_back(done.size());
        }
        return res;
    }
    // every list of up to len tuples in which elements are nested
    void lists(int len, const std::function<void(const vector<const Sym*>&)>& f) {
        vector<const Sym*> l; vector<int> open;
        std::function<void()> go = [&] { f(l); if ((int)l.size() == len) return;
            for (auto& s : syms) {
                int top = open.empty() ? -1 : open.back();
                if (s.k == '{' ? s.f != top + 1 : s.f != top) continue;
                l.push_back(&s); if (s.k == '{') open.push_back(s.f); if (s.k == '}') open.pop_back();
                go();
                l.pop_back(); if (s.k == '{') open.pop_back(); if (s.k == '}') open.push_back(s.f); } };
        go();
    }
};
string text(const vector<const Sym*>& l) { string o; for (auto* s : l) o += (o.empty() ? "" : " ") + (s->k == 'v' ? s->path + "=" : string()) + s->text + (s->k != 'v' ? std::to_string(s->f) : ""); return o; }
// One list with one set of cuts. `want` is computed by whoever comes first.
void one(W& w, Model& m, const string& q, const vector<const Sym*>& l, const Case& c, const vector<int>& cuts, Model::Results& want, bool& have) {
    if (!w.begin(c)) return;
    int n = l.size(); vector<int> st(n); vector<const char*> tx(n); for (int i = 0; i < n; i++) { st[i] = l[i]->state; tx[i] = l[i]->text.c_str(); }
    if (!have) { want = m.results(l); have = true; }
    string ends(n + 1, 0); for (int i : cuts) ends[i - 1] = 1;
    vector<int> after(n + 1, -1); VS got = take(jps_filter_run(m.pp, st.data(), tx.data(), n, ends.data(), after.data()));
    if (!want.all.empty() && !cuts.empty()) w.nontrivial();
    if (got != want.all) { w.fail("expected " + jp::show(want.all).substr(0, 300) + " got " + jp::show(got).substr(0, 300)); return; }
    for (int i = 0; i < n; i++) if (after[i] >= 0 && after[i] != want.after[i]) { w.fail("after " + std::to_string(i + 1) + " tuples there are " + std::to_string(after[i]) + " results instead of " + std::to_string(want.after[i])); break; }
}
string cutsText(const vector<int>& cuts) { string c; for (int i : cuts) c += (c.empty() ? "" : ",") + std::to_string(i); return c.empty() ? "-" : c; }
void every(W& w, Model& m, const string& q, const vector<const Sym*>& l, const string& values, int maxCuts) {
    int n = l.size(); Model::Results want; bool have = false; string t = text(l);
    for (int mask = 0; mask < (n ? 1 << (n - 1) : 1); mask++) {
        if (__builtin_popcount(mask) > maxCuts) continue;
        vector<int> cuts; for (int i = 0; i < n - 1; i++) if (mask >> i & 1) cuts.push_back(i + 1);
        one(w, m, q, l, Case{{"query", q}, {"values", values}, {"list", t}, {"cuts", cutsText(cuts)}}, cuts, want, have);
    }
}
// Long lists: n elements of the outermost filter, m values of the result path in each of the innermost elements, k innermost elements in each outer one.
struct Shape { int n, k, m, pass, order, len; };
const int kPass = 6, kOrder = 3;
bool passes(int pass, int i, int n) { switch (pass) { case 0: return true; case 1: return i == n - 1; case 2: return i != n - 1; case 3: return i % 2; case 4: return i == 0 || i >= n / 2; default: return false; } }
struct Built { vector<std::unique_ptr<Sym>> own; vector<const Sym*> l; };
void build(Model& m, const Shape& s, Built& b) {
    auto add = [&](char k, int f, const string& path, const string& text) { b.own.push_back(std::make_unique<Sym>(Sym{k, f, path, text, k == 'v' ? m.walk(path) : m.walk(m.prefix[f])})); b.l.push_back(b.own.back().get()); };
    int deepest = m.prefix.size() - 1, id = 0; bool outIsValue = false; for (auto& v : m.vars[deepest]) if (m.prefix[deepest] + v == m.out) outIsValue = true;
    std::function<void(int, int, int)> element = [&](int f, int i, int n) {
        bool yes = passes(s.pass, i, n);
        auto values = [&] { for (auto& v : m.vars[f]) add('v', f, m.prefix[f] + v, yes ? "1" : "false"); };
        auto inner = [&] {
            if (f < deepest) { for (int j = 0; j < s.k; j++) element(f + 1, j, s.k); }
            else if (!outIsValue) for (int j = 0; j < s.m; j++) { string t = "\"" + std::to_string(id++); t.resize(std::max<size_t>(t.size(), s.len), 'x'); add('v', f, m.out, t + "\""); } };
        add('{', f, "", "{"); if (s.order == 0) { values(); inner(); } else if (s.order == 1) { inner(); values(); } else if (i % 2) { values(); inner(); } else { inner(); values(); } add('}', f, "", "}"); };
    for (int i = 0; i < s.n; i++) element(0, i, s.n);
}
Stage longLists(const string& name, const string& rule, const VS& queries, const vector<Shape>& shapes, int allCuts) {
    Stage s; s.name = name; auto qs = make_shared<VS>(queries); auto sh = make_shared<vector<Shape>>();
    for (auto x : shapes) for (x.pass = 0; x.pass < kPass; x.pass++) for (x.order = 0; x.order < kOrder; x.order++) sh->push_back(x);
    s.rule = rule + " (" + std::to_string(queries.size()) + " queries, " + std::to_string(sh->size()) + " lists); non-trivial: something passes and the list is cut";
    s.ex.units = sh->size(); s.ex.hang = 30; s.ex.setup = perturb;
    auto run = [=](W& w, const string& q, const Shape& x) {
        Model m(q, {"1", "false"}); Built b; build(m, x, b); int n = b.l.size(); Model::Results want; bool have = false;
        auto with = [&](const vector<int>& cuts, const string& name) { one(w, m, q, b.l, Case{{"query", q}, {"elements", std::to_string(x.n)}, {"inner", std::to_string(x.k)}, {"matches", std::to_string(x.m)}, {"pass", std::to_string(x.pass)}, {"order", std::to_string(x.order)}, {"length", std::to_string(x.len)}, {"cuts", name}}, cuts, want, have); };
        with({}, "-");
        vector<int> all; for (int i = 1; i < n; i++) all.push_back(i); with(all, "everywhere");
        vector<int> at; if (n <= allCuts) at = all; else for (int i = 1; i < n; i++) if (i < 4 || i > n - 4 || std::abs(i - n / 2) < 2 || !(i & (i - 1))) at.push_back(i);
        for (int i : at) with({i}, std::to_string(i));
        if (n <= 40 && x.len <= 300) for (int i : at) for (int j : at) if (i < j) with({i, j}, std::to_string(i) + "," + std::to_string(j));
        for (int step : {2, 3, 4, 5, 7, 64, 100}) if (step < n) { vector<int> c; for (int i = step; i < n; i += step) c.push_back(i); with(c, "every " + std::to_string(step)); } };
    s.ex.unit = [=](int u, W& w) { for (auto& q : *qs) run(w, q, (*sh)[u]); };
    s.ex.one = [=](const Case& c, W& w) { run(w, c.get("query"), Shape{(int)c.geti("elements"), (int)c.geti("inner"), (int)c.geti("matches"), (int)c.geti("pass"), (int)c.geti("order"), (int)c.geti("length")}); };
    return s;
}
Stage stage(const string& name, const string& rule, const VS& queries, const VS& values, int len, int maxCuts) {
    Stage s; s.name = name; auto qs = make_shared<VS>(queries); string vt; for (auto& v : values) vt += (vt.empty() ? "" : " ") + v;
    s.rule = rule + " (" + std::to_string(queries.size()) + " queries); non-trivial: something passes and the list is cut"; const int kSplit = 16;
    s.ex.units = queries.size() * kSplit; s.ex.hang = 20; s.ex.setup = perturb;
    s.ex.unit = [=](int u, W& w) { Model m((*qs)[u / kSplit], values); long k = 0; m.lists(len, [&](const vector<const Sym*>& l) { if (k++ % kSplit == u % kSplit) every(w, m, (*qs)[u / kSplit], l, vt, maxCuts); }); };
    s.ex.one = [=](const Case& c, W& w) { Model m(c.get("query"), values); m.lists(len, [&](const vector<const Sym*>& l) { if (text(l) == c.get("list")) every(w, m, c.get("query"), l, vt, maxCuts); }); };
    return s;
}
}
static run::Check make(const string& tier) {
    bool th = tier == "thorough"; run::Check c; c.id = "C16";
    c.explanation = "Every case hands a list of matches (states of the real automaton with texts) to the real filter in parts and compares the results, and their number after every part, with a model of the nested elements.";
    c.assumptions = {"lists are those an engine can produce: elements nested, values of a filter inside of its innermost element"};
    c.stages.push_back(stage("one-filter", "every list of up to 8 (thorough: 9) tuples with every set of cuts", {"$.r[?(@.a)].x", "$.r[?(!@.a)].x", "$.r[?(@.a)].a", "$.r[?(@.a)]", "$[?(@.a.b)].a"}, {"1", "false"}, th ? 9 : 8, 99));
    c.stages.push_back(stage("two-variables", "every list of up to 7 (thorough: 8) tuples with every set of cuts", {"$.r[?(@.a&&@.b)].x", "$.r[?(@.a||@.b)].x", "$.r[?(@.a>@.b)].x", "$.r[?(@.a==@.b)].b", "$.r[?(@.a.b&&@.a)].a", "$.r[?(@.a&&@.b==1)]"}, {"1", "2", "false"}, th ? 8 : 7, 99));
    c.stages.push_back(stage("nested-filters", "two and three filters, every list of up to 10 (thorough: 12) tuples with every set of cuts", {"$.r[?(@.a)].x[?(@.b)].c", "$.r[?(!@.a)].x[?(@.b)].c", "$.r[?(@.a)].x[?(@.b)]", "$[?(@.a)].x[?(@.a)].x[?(@.a)].x", "$.r[?(@.a)][?(@.b)].c"}, {"1"}, th ? 12 : 10, 99));
    c.stages.push_back(stage("nested-values", "two filters with passing and failing values, up to 3 cuts", {"$.r[?(@.a)].x[?(@.b)].c", "$.r[?(@.a)].x[?(!@.b)].b"}, {"1", "false"}, th ? 10 : 9, 3));
    c.stages.push_back(stage("longer", "longer lists with up to 2 cuts", {"$.r[?(@.a)].x", "$.r[?(!@.a)].x", "$.r[?(@.a)]"}, {"1"}, th ? 15 : 13, 2));
    VS lq = {"$.r[?(@.a)].x", "$.r[?(!@.a)].x", "$.r[?(@.a&&@.b)].x", "$.r[?(@.a||@.b==1)].a", "$.r[?(@.a)].x[?(@.b)].c", "$.r[?(@.a)].x[?(!@.b)].c", "$[?(@.a)].x[?(@.a)].x[?(@.a)].x"};
    vector<Shape> few, many; for (int n : {1, 2, 3, 5, 8}) for (int k : {1, 2, 3}) for (int m : {0, 1, 2, 5}) if (n * k * m <= 60) few.push_back({n, k, m, 0, 0, 0});
    for (int n : {1, 50, 99, 100, 101, 400, 1000, 1001}) many.push_back({n, 1, 1, 0, 0, 0});
    for (int m : {31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001}) { many.push_back({2, 1, m, 0, 0, 0}); many.push_back({3, m < 130 ? m : 130, 1, 0, 0, 0}); }
    for (int len : {30, 63, 64, 65, 100, 255, 256, 257, 1000, 1024, 4000, 20000}) many.push_back({3, 2, 2, 0, 0, len});
    c.stages.push_back(longLists("many-elements", "up to 8 elements, 3 inner elements and 5 matches, every cut and pair of cuts (pairs: up to 40 tuples)", lq, few, th ? 1000 : 120));
    c.stages.push_back(longLists("long-lists", "up to 1001 elements or matches and texts of up to 100000 characters, cuts at all places of lists of up to " + std::to_string(th ? 1000 : 120) + " tuples and around the ends, the middle and powers of two of longer ones", lq, many, th ? 1000 : 120));
    return c;
}
int main(int argc, char** argv) { return run::main_check(argc, argv, make); }
