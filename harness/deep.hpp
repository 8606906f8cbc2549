// Nesting up to the limit, queries with many steps and automata with many states, cut at every place.
#pragma once
#include "sizes.hpp"
#include "spaces.hpp"
namespace sz {
using st::product;
// tables learned from documents that reach every state of a query with many
inline void wide_learned(run::Check& c, bool th, Oracle o) {
    std::function<string(int, string)> tree = [&](int n, string k) -> string { return n == 0 ? string("\"v\"") : "{\"a\":" + tree(n - 1, "a") + ",\"b\":" + tree(n - 1, "b") + "}"; };
    std::function<string(int)> lists = [&](int n) -> string { return n == 0 ? string("\"v\"") : "{\"a\":[" + lists(n - 1) + "],\"b\":[" + lists(n - 1) + "]}"; };
    VS lq = {"$..*", "$..a"}; for (int n : {3, 5, 6, 7, 8}) for (string e : {"", ".a", ".b"}) lq.push_back("$..a" + rep(".*", n) + e);
    VS trees; for (int n = 2; n <= (th ? 10 : 8); n++) trees.push_back(tree(n, "")); for (int n = 2; n <= 5; n++) trees.push_back(lists(n));
    c.stages.push_back(product("wide-learned", "tables learned from documents that reach every state; parallelRunOpt with 2 and 5 cores; non-trivial: something is selected", lq, trees, md::optimized({}, {2, 5}, 0, o), 1));
}
// few: fewer queries and sizes, for instrumented builds
// every document with one of its strings and names, or all of them, made n characters long
inline VS lengthened(const VS& ds, int n, bool all) {
    VS o; for (auto& d : ds) {
        vector<std::pair<size_t, size_t>> s; for (size_t i = 0; i < d.size(); i++) if (d[i] == '"') { size_t b = ++i; while (d[i] != '"') i++; s.push_back({b, i}); }
        for (size_t k = 0; k < s.size() + (all && s.size() > 1); k++) { string r; size_t at = 0; for (size_t j = 0; j < s.size(); j++) if (j == k || k == s.size()) { r += d.substr(at, s[j].second - at) + string(n, 'l'); at = s[j].second; } o.push_back(r + d.substr(at)); }
    }
    return o;
}
inline void deep_stages(run::Check& c, bool th, bool few, Oracle o) {
    // every legal cut of deep documents, with queries of up to 110 steps; the parallel engine tracks 100 states
    VS aq = {"$..*", "$[1]", "$[1][*][1][*][0]"}, oq = {"$..a", "$..p", "$.a.q", "$..a.q"}, mq = {"$..a", "$..p", "$..a..q"};
    for (int n = 1; n <= 110; n += th || n < 8 || (n > 94 && n < 104) ? 1 : 8) if (!few || n < 3 || n == 62 || (n > 96 && n < 102)) { aq.push_back("$" + rep("[1]", n)); aq.push_back("$" + rep("[*]", n)); oq.push_back("$" + rep(".a", n)); oq.push_back("$" + rep(".*", n)); oq.push_back("$..a" + rep(".a", n > 40 ? 40 : n) + ".p"); mq.push_back("$" + rep(".a[1]", n / 2) + ".a[0]"); mq.push_back("$" + rep(".*[*]", n / 2) + ".p"); }
    auto deep = [&](int max, const string& open, const string& in, const string& close) { VS d; for (int n = 1; n <= max; n += th || n < 8 || n > max - 4 ? 1 : 5) if (!few || n == 2 || n == 22 || n >= max - 1) d.push_back(rep(open, n) + in + rep(close, n)); return d; };
    string bound = "; non-trivial: something is selected and the input is cut";
    c.stages.push_back(product("deep-cuts-arrays", "nesting up to 100, every legal cut" + bound, aq, deep(99, "[\"p\",", "[\"v\",1]", ",\"s\"]"), md::segmented(1, o), 4));
    c.stages.push_back(product("deep-cuts-objects", "nesting up to 50, every legal cut" + bound, oq, deep(49, "{\"p\":1,\"a\":", "{\"p\":2,\"a\":\"v\"}", ",\"q\":3}"), md::segmented(1, o), 4));
    c.stages.push_back(product("deep-cuts-mixed", "nesting up to 66, every legal cut" + bound, mq, deep(32, "{\"p\":1,\"a\":[\"p\",", "{\"p\":2,\"a\":\"v\"}", ",\"s\"],\"q\":3}"), md::segmented(1, o), 4));
    VS ends = {rep("[", 99) + "[\"v\"" + rep("],\"s\"", 99) + "]", rep("[\"p\",", 99) + "[\"v\"" + rep("]", 100), rep("[\"p\",", 40) + "[\"v\"" + rep("],\"s\"", 40) + "]", rep("{\"p\":1,\"a\":", 30) + "1" + rep(",\"q\":3}", 30)};
    c.stages.push_back(product("deep-cuts-twice", (few && !th ? "every legal cut" : "every pair of legal cuts") + bound, {"$..*", "$" + rep("[1]", 30), "$" + rep("[1]", 60), "$" + rep("[*]", 60), "$" + rep("[0]", 60), "$..q", "$" + rep(".a", 20)}, ends, md::segmented(few && !th ? 1 : 2, o), 1));
    // a descendant followed by wildcards needs an automaton of twice as many states with every wildcard
    VS wide; for (int n = 0; n <= (th ? 10 : 8); n++) if (!few || n == 1 || (n > 4 && n < 8)) for (string a : {"$..a", "$..*", "$..a[0]", "$..a..b"}) for (string b : {".*", "[*]"}) if (n || b == ".*") for (string e : {"", ".b", ".a", "[0]"}) wide.push_back(a + rep(b, n) + e);
    VS broad; for (int n = 1; n <= 12; n++) if (!few || n % 4 == 0) { broad.push_back(rep("{\"a\":", n) + "{\"b\":\"v\"}" + rep(",\"b\":\"w\"}", n)); broad.push_back(rep("{\"a\":[\"p\",", n) + "1" + rep(",{\"b\":\"s\"}],\"b\":2}", n)); }
    c.stages.push_back(product("wide-automata", "queries whose automaton has many states, every legal cut" + bound, wide, broad, md::segmented(1, o), 4));
    // tables that are indexed by the automaton's states: filters and learned constraints of such queries, serially and in parallel
    VS wf; for (int n : {0, 3, 4, 5, 6, 7}) for (string f : {"[?(@.b)].c", "[?(@.b>1)]", "[?(@.b&&@.c)].b"}) wf.push_back("$..a" + rep(".*", n) + f);
    for (int n : {0, 1, 60, 90, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 105}) { wf.push_back("$" + rep("[1]", n) + "[?(@.b)].c"); wf.push_back("$" + rep("[*]", n) + "[?(@.b>1&&@.c)].b"); if (n < 60) wf.push_back("$" + rep(".a", n) + "[?(@.b)].c"); }
    VS filtered; string rec = "[{\"b\":1,\"c\":\"x\"},{\"b\":2,\"c\":\"y\"},{\"c\":\"z\"}]";
    for (int n : {0, 1, 3, 4, 5, 6, 7, 8, 30, 45}) filtered.push_back(rep("{\"a\":", n) + rec + rep(",\"b\":\"w\"}", n));
    for (int n : {1, 60, 90, 92, 93, 94, 95, 96}) filtered.push_back(rep("[\"p\",", n) + rec + rep("]", n));
    c.stages.push_back(product("wide-filters-serial", "filters in queries whose automaton has many states; non-trivial: something is selected", wf, filtered, md::serial(o), 4));
    c.stages.push_back(product("wide-filters-cut", "the same, every legal cut" + bound, wf, filtered, md::segmented(1, o), 4));
    // a token that outgrows the lexer's buffer wherever it stands and wherever the input is cut before it
    VS grow = st::docs({"a"}, "s", 1, 6, {0}, false);
    c.stages.push_back(product("long-tokens-cut", "documents of up to 6 nodes with one of the tokens, or all, longer than the lexer's buffer, every legal cut" + bound, few ? VS{"$..*", "$[*]"} : VS{"$..*", "$[*]", "$[2]", "$.a.*"}, lengthened(grow, 4500, true), md::segmented(1, o), 60));
    c.stages.push_back(product("long-tokens-grown", "the same with tokens of 3996 to 4002 characters, every set of cuts, and in consecutive parts" + bound, {"$..*"}, [&] { VS v; for (int n : {3996, 3997, 3998, 3999, 4000, 4001, 4002, 9000}) v = st::cat(v, lengthened(st::docs({"a"}, "s", 1, few ? 3 : 4, {0}, false), n, true)); return v; }(), [=](W& w, Proc& p, const string& d) { md::segmented(9, o)(w, p, d); md::partial(1, {0, 2}, o)(w, p, d); }, 60));
    wide_learned(c, th, o);
}
// What the other spaces hold constant: characters, names, numbers, layouts, positions, long tokens. The inputs of every way to run.
struct Variety { string name, rule; VS queries, docs; };
inline vector<Variety> variety(bool th) {
    using namespace sp; vector<Variety> v;
    v.push_back({"characters", "every ASCII character, escape, two-byte and some longer UTF-8 sequences in values and names", {"$.*", "$..a", "$[*].*"}, holding(characters())});
    v.push_back({"strings", "strings of up to 2 (thorough: 3) of 14 symbols in values and names", {"$.a", "$.b[1]", "$.*", "$..a", "$[1].*"}, holding(words(kStringParts, th ? 3 : 2))});
    VS nd; for (string n : {"0", "-1", "12", "-0.5", "2.25", "1e3", "-7E-2", "123456789012345678901", "true", "false", "null"}) { nd.push_back("{\"a\":" + n + ",\"b\":[1," + n + ",\"c\"],\"c\":" + n + "}"); nd.push_back("[" + n + ",\"s\"," + n + " ,{\"a\":" + n + "\n},[" + n + "],\"t\", " + n + "]"); }
    v.push_back({"numbers", "kinds of primitives in several surroundings", {"$.a", "$.*", "$[*]", "$[2]", "$..*", "$.b[1:]", "$..a"}, nd});
    VS kd, ks = {"a", "aa", "ab", "A", "a1", "_a", "ba", "a_b", "1", "length"}, kq = {"$.a", "$.aa", "$..ab", "$.*.a", "$..a", "$.ab.aa", "$.*[0].ab", "$..length", "$._a.*", "$.a1"}; for (auto& x : ks) for (auto& y : ks) if (x != y) { kd.push_back("{\"" + x + "\":1,\"" + y + "\":{\"" + x + "\":2,\"" + y + "\":\"s\"}}"); kd.push_back("{\"" + x + "\":{\"" + y + "\":[\"t\",{\"" + x + "\":0}]},\"" + y + "\":[{\"" + y + "\":4,\"" + x + "\":3}]}"); }
    v.push_back({"names", "names that contain each other", kq, kd});
    VS fd, fq; vector<string> fn = {"a", "ab", "b"}; for (auto& x : fn) for (auto& y : fn) { fq.push_back("$.r[?(@." + x + "==1||@." + y + ".a)].x"); if (x != y) fq.push_back("$.r[?(@." + x + "<@." + y + ")]." + x); }
    for (auto& x : fn) for (auto& y : fn) if (x != y) for (string u : {"1", "-2", "\"s\"", "{\"a\":1}"}) fd.push_back("{\"r\":[{\"" + x + "\":1,\"" + y + "\":" + u + ",\"x\":\"p\"},{\"x\":\"q\",\"" + x + "\":" + u + ",\"" + y + "\":3},{\"" + y + "\":1,\"x\":[\"t\"]}]}");
    v.push_back({"filters", "filters over names that contain each other", fq, fd});
    VS ws; for (auto& d : VS{"{\"a\":1,\"b\":[2,\"x\"]}", "[{\"a\":\"y\"},-3.5,true,\"z\"]"}) ws = st::cat(ws, spaced(d, th ? 2 : 1));
    v.push_back({"white-space", "blanks between the tokens", {"$.a", "$.*", "$[1]", "$.b[1]", "$[0].a", "$..a"}, ws});
    return v;
}
inline VS positionQueries(bool th) { return sp::atPositions(sp::magnitudes(th ? 10100 : 1100)); }
inline VS positionDocs(bool th) { return sp::longArrays({300, th ? 10101 : 1101}); }
// all kinds of sizes, reduced to those around capacities
inline void size_stages(run::Check& c, const vector<ModeOf>& ms, Oracle o) {
    for (auto k : kinds(false)) { vector<int> n; for (int x : k.ns) if (k.ns.size() < 60 || x <= 4 || (x >= 46 && x <= 50) || (x >= 61 && x <= 66) || (x >= 97 && x <= 103) || (x >= 126 && x <= 130) || (x > 150 && x <= 8001)) n.push_back(x); k.ns = n; c.stages.push_back(stage(k, ms, o)); }
}
}  // namespace sz
