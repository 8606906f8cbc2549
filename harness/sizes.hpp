// Inputs whose size is the point: every kind is a family of documents with a parameter.
#pragma once
#include "modes.hpp"
namespace sz {
using namespace md;
inline string num(long n) { return std::to_string(n); }
struct Kind { string name; VS queries; vector<int> ns; std::function<string(int)> doc; };
inline vector<int> upto(int n) { vector<int> v; for (int i = 0; i <= n; i++) v.push_back(i); return v; }
inline vector<int> join(vector<int> a, const vector<int>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline string rep(const string& s, int n) { string o; for (int i = 0; i < n; i++) o += s; return o; }
template <class F> string list(int n, F f) { string o = "["; for (int i = 0; i < n; i++) { if (i) o += ","; o += f(i); } return o + "]"; }
inline vector<Kind> kinds(bool th) {
    vector<int> counts = join(upto(130), {159, 160, 161, 250, 399, 400, 401, 500, 512, 513, 999, 1000, 1001, 1999, 2000, 2001, 5000}), lens = join(upto(70), {99, 100, 101, 998, 999, 1000, 1001, 1023, 1024, 1025, 1999, 2000, 2001, 3998, 3999, 4000, 4001, 4002, 4096, 7999, 8000, 8001, 20000, 100000});
    if (th) { counts = join(upto(600), {999, 1000, 1001, 2000, 5000, 10000, 50000}); lens = join(join(upto(300), [] { vector<int> v; for (int i = 980; i < 1030; i++) v.push_back(i); for (int i = 3980; i < 4020; i++) v.push_back(i); return v; }()), {7999, 8000, 8001, 20000, 100000, 1000000}); }
    vector<Kind> k;
    k.push_back({"numbers", {"$[*]", "$..*", "$[3:]"}, counts, [](int n) { return list(n, [](int i) { return num(i); }); }});
    k.push_back({"records", {"$[*].a", "$..b", "$[2:7].a", "$[?(@.a)].b", "$[?(@.a>20)]", "$[*]"}, counts, [](int n) { return list(n, [](int i) { return "{\"a\":" + num(i) + ",\"b\":\"t" + num(i) + "\"}"; }); }});
    k.push_back({"filtered-lists", {"$.r[?(@.a)].x[*]", "$.r[?(@.a)].x[?(@.b)].c"}, counts, [](int n) { return "{\"r\":[{\"x\":" + list(n, [](int i) { return i % 3 ? "{\"b\":1,\"c\":" + num(i) + "}" : "{\"c\":0}"; }) + ",\"a\":1},{\"a\":1,\"x\":[1,2]}]}"; }});
    k.push_back({"members", {"$.*", "$.k7", "$..k3", "$.k1.v"}, counts, [](int n) { string o = "{"; for (int i = 0; i < n; i++) o += (i ? ",\"k" : "\"k") + num(i) + "\":" + (i % 4 ? num(i) : "{\"v\":" + num(i) + "}"); return o + "}"; }});
    k.push_back({"long-string", {"$.a", "$.b[0]", "$.*", "$..b", "$.c[?(@.a)].b"}, lens, [](int n) { string s(n, 'x'); return "{\"a\":\"" + s + "\",\"b\":[\"" + s + "\",\"y\"],\"c\":[{\"a\":\"" + s + "\",\"b\":\"" + s + "\"}]}"; }});
    k.push_back({"long-escapes", {"$.a", "$.b[0]", "$.*"}, lens, [](int n) { string s = rep("\\\"", n / 2) + string(n % 2, '{'); return "{\"a\":\"" + s + "\",\"b\":[\"" + s + "\",\"y\"]}"; }});
    k.push_back({"long-name", {"$.*", "$..a", "$.*.a"}, lens, [](int n) { string s(n, 'k'); return "{\"" + s + "\":{\"a\":1,\"b\":\"t\"},\"a\":{\"" + s + "\":2,\"a\":\"u\"}}"; }});
    k.push_back({"long-number", {"$.a", "$.b[1]", "$.*"}, lens, [](int n) { string s = "1" + string(n, '0'); return "{\"a\":" + s + ",\"b\":[-" + s + ".5," + s + "],\"c\":\"t\"}"; }});
    k.push_back({"long-result", {"$.a", "$[*]", "$.a.b", "$..b", "$.c[?(@.a)]"}, lens, [](int n) { string v = "{\"b\":\"" + string(n, 'v') + "\",\"a\":1}"; return "{\"a\":" + v + ",\"c\":[" + v + ",{\"a\":0,\"b\":[\"" + string(n / 2, 'w') + "\"]}]}"; }});
    k.push_back({"blanks", {"$.a", "$.b[1]", "$..c"}, lens, [](int n) { string s(n, ' '); return s + "{" + s + "\"a\"" + s + ":" + s + "1" + s + "," + s + "\"b\"" + s + ":[\"x\"" + s + "," + s + "{\"c\"" + s + ":" + s + "\"y\"" + s + "}" + s + "]" + s + "}" + s; }});
    // the deepest nesting the fixed stacks hold is 100 containers and names
    k.push_back({"deep-arrays", {"$[*]", "$..*", "$[0][0]", "$..*[0]..*"}, upto(99), [](int n) { return rep("[", n + 1) + "\"v\",1" + rep("]", n + 1); }});
    k.push_back({"deep-siblings", {"$[1]", "$[*]", "$..*", "$[0][1]"}, upto(99), [](int n) { return rep("[", n + 1) + "\"v\"" + rep("],\"s\"", n) + "]"; }});
    k.push_back({"deep-objects", {"$.a", "$..a", "$.a.a.a.a", "$..b", "$..a..a..a..a", "$.*.*.*.*.*.*.*", "$..a..b"}, upto(49), [](int n) { return rep("{\"a\":", n) + "{\"b\":\"v\",\"a\":1}" + rep(",\"b\":\"w\"}", n); }});
    k.push_back({"deep-mixed", {"$..a", "$.a[0].a[0].a", "$..b", "$.a[*].a", "$..a..a..b"}, upto(32), [](int n) { return rep("{\"a\":[", n) + "{\"b\":\"v\"}" + rep(",\"s\"],\"b\":\"w\"}", n) ; }});
    // the same depth opened, or closed, inside of a later chunk: a long value in front moves the cut
    auto late = [](const string& a, const string& b) { string l(b.size() + 4, 'x'); size_t at = a.find('#'); string s = a; s.replace(at, 1, l); return s + b; };
    VS lq = {"$[2][0][0]", "$[2]..*", "$..*", "$[2][*][*][*][1]", "$[3]"}, oq = {"$..a", "$.t.a.a.a", "$..b", "$..a.b", "$.e", "$..a..a"};
    for (int n : {8, 20, 40, 60}) { lq.push_back("$[2]" + rep("[0]", n)); oq.push_back("$.t" + rep(".a", n)); oq.push_back("$.*" + rep(".*", n)); if (n < 40) oq.push_back("$..a" + rep(".a", n)); }
    k.push_back({"late-arrays", lq, upto(98), [=](int n) { return late("[\"#\",", "\"t\"," + rep("[", n + 1) + "\"v\"" + rep("],\"s\"", n) + "],\"e\"]"); }});
    k.push_back({"late-objects", oq, upto(47), [=](int n) { return late("{\"p\":\"#\",", "\"t\":" + rep("{\"a\":", n) + "{\"b\":\"v\",\"a\":1}" + rep(",\"b\":\"w\"}", n) + ",\"e\":\"z\"}"); }});
    k.push_back({"late-ends", lq, upto(99), [=](int n) { string b = "\"v\"" + rep("],\"s\"", n) + "]"; return rep("[", n + 1) + string(b.size() > (size_t)n ? b.size() - n : 1, ' ') + b; }});
    k.push_back({"late-plain-ends", lq, upto(99), [=](int n) { string b = "\"v\"" + rep("]", n + 1); return rep("[", n + 1) + "1," + string(3, ' ') + b; }});
    k.push_back({"late-object-ends", oq, upto(48), [=](int n) { string b = "\"a\":\"v\"" + rep("},\"b\":\"w\"", n) + "}"; string a = rep("{\"a\":", n) + "{"; return a + string(b.size() > a.size() ? b.size() - a.size() : 1, ' ') + b; }});
    return k;
}
inline string longQuery(const string& step, int n) { string q = "$"; for (int i = 0; i < n; i++) q += step; return q; }
struct ModeOf { string name; int cores; bool learn; int footprint; };
inline vector<ModeOf> modes(bool th) {
    vector<ModeOf> m = {{"serial", 0, false, 0}, {"serial", 0, false, 50}, {"serial", 0, false, 1000}, {"parallel", 2, false, 0}, {"parallel", 3, false, 0}, {"parallel", 8, false, 0}, {"parallel", 2, false, 300}, {"optimized", 3, true, 0}};
    if (th) { m.push_back({"parallel", 16, false, 0}); m.push_back({"parallel", 99, false, 0}); m.push_back({"optimized", 16, true, 0}); m.push_back({"serial", 0, false, 4000}); m.push_back({"parallel", 5, false, 4000}); }
    return m;
}
inline Stage stage(const Kind& k, const vector<ModeOf>& ms, Oracle o = byReference()) {
    Stage s; s.name = k.name; s.rule = "sizes up to " + num(k.ns.back()) + " (" + num(k.ns.size()) + " sizes x " + num(k.queries.size()) + " queries x " + num(ms.size()) + " ways to run); non-trivial: something is selected";
    auto run = [=](W& w, const string& q, int n) {
        Proc p(q); string d; VS want; bool have = false; void* ct = nullptr; MemFile* f = nullptr;
        for (auto& m : ms) {
            if (!w.begin(Case{{"query", q}, {"size", num(n)}, {"run", m.name}, {"cores", num(m.cores)}, {"footprint", num(m.footprint)}})) continue;
            if (!have) { d = k.doc(n); f = new MemFile(d); want = o(p, d); have = true; }
            if (m.footprint && m.footprint * 1000 < (long)d.size()) continue;
            if (m.learn && !ct) ct = jps_learn(p.get(), f->p());
            if (!want.empty()) w.nontrivial();
            if (m.footprint) jps_verif_memory_footprint = m.footprint;
            auto got = take(m.cores == 0 ? jps_serial(p.get(), f->p()) : m.learn ? jps_parallel_opt(p.get(), f->p(), m.cores, ct) : jps_parallel(p.get(), f->p(), m.cores));
            jps_verif_memory_footprint = 250000000;
            same(w, m.name.c_str(), want, got);
        }
        if (ct) jps_free_table(ct); delete f;
    };
    s.ex.units = k.ns.size(); s.ex.hang = 60; s.ex.setup = perturb;
    s.ex.unit = [=](int u, W& w) { for (auto& q : k.queries) run(w, q, k.ns[k.ns.size() - 1 - u]); };
    s.ex.one = [=](const Case& c, W& w) { run(w, c.get("query"), c.geti("size")); };
    return s;
}
}  // namespace sz
