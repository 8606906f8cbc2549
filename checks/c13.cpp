// C13: the learned table holds exactly the states in which the training document presents a name or an array.
#include "modes.hpp"
#include "spaces.hpp"
using namespace md; using namespace sp;
namespace {
typedef std::set<int> Set;
struct Walk {                                                      // the automaton over the tree of the document
    void* dfa; std::map<string, Set> must, may; Set arrMust, arrMay; std::set<string> names;
    bool in(int s, int count) { int lo, hi; jps_dfa_range(dfa, s, &lo, &hi); return (lo == 0 && hi == 0) || (count >= lo && count < hi); }
    void go(const ref::J& j, int s, int count) {                   // s: the state in which j stands, count: its number in the array it stands in
        bool ok = in(s, count);
        if (j.t == ref::J::OBJ) for (size_t m = 0; m < j.kids.size(); m++) { auto& k = j.keys[m]; names.insert(k); (ok ? must : may)[k].insert(s); if (!ok) must[k].insert(0); go(j.kids[m], ok ? jps_dfa_next(dfa, s, k.c_str()) : 0, 0); }
        if (j.t == ref::J::ARR) { (ok ? arrMust : arrMay).insert(s); if (!ok) arrMust.insert(0); int n = ok ? jps_dfa_next(dfa, s, nullptr) : 0; for (size_t m = 0; m < j.kids.size(); m++) go(j.kids[m], n, m); }
    }
};
string txt(const Set& s) { string o = "{"; for (int x : s) o += (o.size() > 1 ? "," : "") + std::to_string(x); return o + "}"; }
bool lookup(W& w, void* ct, const string* name, const Set& must, const Set& may) {
    int buf[200]; int n = jps_table_lookup(ct, name != nullptr, name ? name->c_str() : nullptr, buf, 200); string what = name ? "name " + (name->size() > 60 ? name->substr(0, 60) + "..." : *name) : string("arrays");
    Set got; for (int i = 0; i < n && i < 200; i++) got.insert(buf[i]);
    if ((int)got.size() != std::max(n, 0)) { w.fail(what + ": " + std::to_string(n) + " states but only " + std::to_string(got.size()) + " different ones"); return false; }
    for (int x : must) if (!got.count(x)) { w.fail(what + ": state " + std::to_string(x) + " is missing in " + txt(got) + ", the document presents it in " + txt(must)); return false; }
    for (int x : got) if (!must.count(x) && !may.count(x)) { w.fail(what + ": state " + std::to_string(x) + " of " + txt(got) + " does not occur, the document presents it in " + txt(must)); return false; }
    return true;
}
void body(W& w, Proc& p, const string& d) {
    static string q; static void* dfa = nullptr;
    if (!w.begin(Case{{"query", p.q}, {"doc", d}})) return;
    if (q != p.q || !dfa) { if (dfa) jps_dfa_free(dfa); dfa = jps_dfa_build(p.q.c_str()); q = p.q; }
    ref::J j = ref::parseJson(d); Walk k; k.dfa = dfa; k.go(j, 1, 0);
    for (auto& m : k.must) if (m.second.size() > 1) { w.nontrivial(); break; }
    MemFile f(d); void* ct = jps_learn(p.get(), f.p());
    if (!ct) { w.fail("no table was learned"); return; }
    bool ok = lookup(w, ct, nullptr, k.arrMust, k.arrMay);
    for (auto& n : k.names) if (ok) ok = lookup(w, ct, &n, k.must[n], k.may[n]);
    for (string n : {"", "zz", "a", "b", "aa", "[", "*"}) if (ok && !k.names.count(n)) ok = lookup(w, ct, &n, {}, {});
    jps_free_table(ct);
}
}
static run::Check make(const string& tier) {
    bool th = tier == "thorough"; run::Check c; c.id = "C13";
    c.explanation = "Every case learns a table from one document with the real learner and looks up every name of the document, arrays and foreign names; the states are compared with a walk of the automaton over the document's tree.";
    c.assumptions = {"an element outside of an index range may be recorded with its state in addition to the dead state", "names occur with their raw text"};
    VS q2 = paths(kSteps, 2);
    c.stages.push_back(product("shapes", "all queries of up to 2 of 13 steps with all documents of up to 5 (thorough: 6) nodes; non-trivial: some name occurs in several states", q2, docs({"a", "b"}, "n", 1, th ? 6 : 5), body));
    c.stages.push_back(product("deeper-queries", "queries of 3 steps", three({".a", ".*", "..a", "[*]", "[1]", "[0:2]"}), docs({"a", "b"}, "s", 1, th ? 6 : 5), body));
    c.stages.push_back(product("filters", "filter queries with every list of up to 3 records", kRecordQueries, lists(kRecords, 0, th ? 4 : 3), body));
    c.stages.push_back(product("layouts", "blanks and leaf kinds", paths({".a", ".*", "..a", "[*]", "[1]"}, 2), docs({"a", "b"}, "nmstz", 1, 3, {0, 1, 2, 3}), body));
    VS names; for (auto& x : words({"a", "b", "\\\"", "\\\\", "{", "[", ":", ",", " "}, th ? 4 : 3)) if (x.size() && x != "a" && x != "b") { names.push_back("{\"a\":{\"" + x + "\":[{\"a\":1,\"" + x + "\":2}]},\"" + x + "\":{\"b\":[[{\"" + x + "\":0}]]}}"); }
    c.stages.push_back(product("names", "every name of up to 3 (thorough: 4) of 9 symbols", {"$.a", "$..a", "$.a.*[*]", "$.*.b[0][0]"}, names, body));
    VS many; for (int n : {1, 2, 62, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 257, 500, 1000}) { string d = "{"; for (int i = 0; i < n; i++) d += string(i ? "," : "") + "\"k" + std::to_string(i) + "\":{\"a\":[" + std::to_string(i) + ",{\"k" + std::to_string(n - 1 - i) + "\":1}]}"; many.push_back(d + "}"); }
    for (int n : {1, 2, 3, 31, 32, 62, 63, 64, 65, 98, 99, 100, 101, 127, 128, 255, 256, 257, 1000, 3999, 4000, 4001, 5000}) { string s(n, 'k'); many.push_back("{\"a\":{\"" + s + "\":[{\"" + s + "\":1}],\"" + s + "x\":2},\"" + s + "\":3}"); }
    c.stages.push_back(product("sizes", "up to 1000 different names, names of up to 5000 characters", {"$.*.a", "$..a", "$.a.*", "$.*.a[1].*"}, many, body));
    VS chars; for (auto& x : characters()) if (x != "a" && x != "b") chars.push_back("{\"a\":{\"" + x + "\":[{\"a\":\"" + x + "\",\"" + x + "\":2}]},\"" + x + "\":{\"b\":[[{\"" + x + "\":\"b\"}]],\"x" + x + "\":1,\"" + x + "x\":[]}}");
    c.stages.push_back(product("characters", "every character a string can hold as a name and inside of names", {"$..a", "$.a.*[*]", "$.*.b[0][0]"}, chars, body));
    VS blank; for (string d : {"{\"a\":[{\"b\":1},\"s\"]}", "[[1,{\"a\":[]}],{\"b\":{\"a\":true}}]"}) blank = cat(blank, spaced(d, th ? 3 : 2));
    c.stages.push_back(product("blanks", "up to 2 (thorough: 3) blanks of 7 kinds between the tokens", {"$..a", "$.a[*].b", "$[0][1].a", "$[*].b.a", "$.*[1]"}, blank, body));
    vector<int> ns = magnitudes(th ? 66000 : 1030); VS pq, pd; for (int n : ns) { string k = std::to_string(n), a; for (string t : {"$[%].a", "$.a[%:].a", "$[:%].a[*]"}) { t.replace(t.find('%'), 1, k); pq.push_back(t); } for (int i = 0; i <= n; i++) a += string(i ? "," : "") + (i + 3 < n && i > 1 ? "1" : "{\"a\":[{\"a\":1},2],\"b\":3}"); pd.push_back("[" + a + "]"); pd.push_back("{\"a\":[" + a + "],\"b\":[1]}"); }
    c.stages.push_back(product("positions", "elements at positions around powers of two and ten", pq, pd, body, 4));
    VS dq, dd; for (int n = 1; n <= 30; n++) { string q = "$", r = "$", m = "$"; for (int i = 0; i < n; i++) { q += ".a"; r += "[*]"; m += i % 2 ? "[0]" : ".a"; } dq.push_back(q); dq.push_back(r); dq.push_back(m); dq.push_back("$." + q.substr(1) + (n < 8 ? ".b" : "")); string d1 = "1", d2 = "{\"a\":1}", d3 = "2"; for (int i = 0; i < n; i++) { d1 = "{\"a\":" + d1 + ",\"b\":1}"; d2 = "[" + d2 + ",{\"b\":[]}]"; d3 = i % 2 == n % 2 ? "[" + d3 + "]" : "{\"a\":" + d3 + "}"; } dd.push_back(d1); dd.push_back(d2); dd.push_back(d3); }
    c.stages.push_back(product("levels", "queries of up to 30 steps and documents of up to 30 levels", dq, dd, body));
    return c;
}
int main(int argc, char** argv) { return run::main_check(argc, argv, make); }
