// C05: the automaton compiled from a query accepts exactly the paths the query denotes, with the right role and index range.
// Explicit-state search of the product of the compiled automaton with a reference automaton built from the query text;
// every product state is reached by a path, which is also replayed as a document through serialRun.
#include "modes.hpp"
#include "spaces.hpp"
#include <deque>
using namespace md; using namespace sp;
namespace {
enum { STAY = 100000, OUT = 1, COND = 2, PRED = 3, OUTPRED = 4 };
struct Var { int at; vector<string> path; };                     // a filter variable: after at steps, then these keys
void vars(const ref::Ex& e, int at, vector<Var>& o) { if (e.k == ref::Ex::VAR) o.push_back({at, e.path}); for (auto& x : e.a) vars(x, at, o); }
struct Nfa {                                                     // positions of the query plus (variable, keys matched)
    ref::Query q; vector<Var> vs; vector<int> base; int n;
    Nfa(const string& t) : q(ref::parseQuery(t)) { for (size_t i = 0; i < q.size(); i++) if (q[i].k == ref::Step::FILTER) vars(*q[i].ex, i + 1, vs); n = q.size() + 1; for (auto& v : vs) { base.push_back(n); n += v.path.size() + 1; } }
    typedef std::set<int> Set;
    Set close(Set s) const { for (size_t i = 0; i < vs.size(); i++) if (s.count(vs[i].at)) s.insert(base[i]); return s; }
    Set start() const { return close({0}); }
    Set next(const Set& s, const string* key) const {            // key null: array
        Set o; bool arr = !key;
        for (int r : s) {
            int p = r % STAY;                                    // a position that was entered earlier and stayed in does not start a filter
            if (p < (int)q.size()) { auto& st = q[p]; switch (st.k) {
                case ref::Step::CHILD: if (!arr && *key == st.name) o.insert(p + 1); break;
                case ref::Step::WILD: o.insert(p + 1); break;
                case ref::Step::DESC: o.insert(p + STAY); if (!arr && *key == st.name) o.insert(p + 1); break;
                case ref::Step::DESCWILD: o.insert(p + STAY); o.insert(p + 1); break;
                default: if (arr) o.insert(p + 1); } }
            for (size_t i = 0; i < vs.size(); i++) { int k = p - base[i]; if (p >= base[i] && k < (int)vs[i].path.size() && !arr && *key == vs[i].path[k]) o.insert(p + 1); }
        }
        return close(o);
    }
    bool out(const Set& s) const { return s.count(q.size()); }
    bool pred(const Set& s) const { for (int p : s) if (p > 0 && p <= (int)q.size() && q[p - 1].k == ref::Step::FILTER) return true; return false; }
    bool cond(const Set& s) const { for (size_t i = 0; i < vs.size(); i++) if (s.count(base[i] + vs[i].path.size())) return true; return false; }
};
// the index steps that may have been entered by the last step; a slice entered together with other steps is not compared
int slice(const Nfa& a, const Nfa::Set& before, const Nfa::Set& after, const string* key, bool& clear) {
    int found = -1, others = 0;
    for (int p : after) { if (p > 0 && p <= (int)a.q.size() && a.q[p - 1].k == ref::Step::SLICE && !key && (before.count(p - 1) || before.count(p - 1 + STAY))) { if (found >= 0) others++; found = p - 1; } else others++; }
    clear = others == 0; return found;
}
string document(const vector<const string*>& path, const std::vector<int>& pos) {       // a document whose only leaf is at the end of the path
    string pre, post; for (size_t i = 0; i < path.size(); i++) if (path[i]) { pre += "{\"" + *path[i] + "\":"; post = "}" + post; } else { pre += "["; for (int k = 0; k < pos[i]; k++) pre += "0,"; post = "]" + post; }
    return pre + (path.empty() ? "{}" : "7") + post;
}
void check(W& w, const string& q) {
    if (!w.begin(Case{{"query", q}})) return;
    void* d = jps_dfa_build(q.c_str()); Nfa a(q); Proc p(q);
    std::set<string> ns; for (auto& s : a.q) if (!s.name.empty()) ns.insert(s.name); for (auto& v : a.vs) for (auto& k : v.path) ns.insert(k); ns.insert("zz");
    vector<string> names(ns.begin(), ns.end()); vector<const string*> sym = {nullptr}; for (auto& n : names) sym.push_back(&n);
    struct Node { int s; Nfa::Set set; vector<const string*> path; vector<int> pos; bool inrange; };
    bool filt = !a.vs.empty(); for (auto& s : a.q) if (s.k == ref::Step::FILTER) filt = true;
    std::set<std::pair<int, Nfa::Set>> seen; std::deque<Node> todo; bool nontrivial = false;
    auto bad = [&](const Node& x, const string& m) { string t = "$"; for (auto* k : x.path) t += k ? "." + *k : "[]"; w.fail("path " + t + ": " + m); };
    auto role = [&](const Node& x) -> bool {
        bool o = a.out(x.set), pr = a.pred(x.set), c = a.cond(x.set); int got = jps_dfa_accept(d, x.s);
        int want = o && pr ? OUTPRED : o ? OUT : pr ? PRED : c ? COND : 0;
        if (got != want) { bad(x, "role " + std::to_string(got) + " instead of " + std::to_string(want) + " (1 output, 2 filter variable, 3 filter, 4 both)"); return false; }
        if (want) nontrivial = true;
        return true; };
    Node s0{1, a.start(), {}, {}, true}; seen.insert({1, s0.set}); todo.push_back(s0);
    if (!role(s0)) { jps_dfa_free(d); return; }
    int states = 1, trans = 0, traces = 0; bool okay = true;
    while (!todo.empty() && okay) {
        Node x = todo.front(); todo.pop_front();
        for (auto* k : sym) {
            trans++; Node y; y.s = jps_dfa_next(d, x.s, k ? k->c_str() : nullptr); y.set = a.next(x.set, k); y.path = x.path; y.path.push_back(k); y.inrange = x.inrange; y.pos = x.pos; y.pos.push_back(0);
            if (y.s < 0 || y.s >= (int)jps_dfa_states(d)) { bad(y, "state " + std::to_string(y.s) + " does not exist"); okay = false; break; }
            if (y.set.empty() && y.s == 0) continue;                      // both have left every accepted path
            if (!role(y)) { okay = false; break; }
            int lo = 0, hi = 0; jps_dfa_range(d, y.s, &lo, &hi); bool clear; int sl = slice(a, x.set, y.set, k, clear);
            if (sl >= 0 && clear) {
                long wl = a.q[sl].lo, wh = a.q[sl].hi; bool none = wl >= wh && !(lo == 0 && hi == 0) && lo >= hi;
                if (!none && (lo != wl || hi != wh) && !(wl == 0 && wh == 0 && lo >= hi && hi)) { bad(y, "elements " + std::to_string(lo) + " to " + std::to_string(hi) + " instead of " + std::to_string(wl) + " to " + std::to_string(wh)); okay = false; break; }
                y.pos.back() = std::max(0L, wl); if (wl >= wh) y.inrange = false;
            } else if (sl < 0 && (lo || hi)) { bad(y, "elements are restricted to " + std::to_string(lo) + ":" + std::to_string(hi)); okay = false; break; }
            else if (sl >= 0) y.inrange = false;
            if (!seen.insert({y.s, y.set}).second) continue;
            states++; todo.push_back(y);
            if (y.inrange && !filt) {                                     // the trace, replayed against the implementation
                string doc = document(y.path, y.pos); auto e = ref::expect(q, doc); if (e.skip) continue;
                traces++; MemFile f(doc); auto got = take(jps_serial(p.get(), f.p())); if (got != e.want) { bad(y, "serialRun on " + doc + " selects " + show(got) + " instead of " + show(e.want)); okay = false; break; }
                if (!e.want.empty() && a.out(y.set) != (std::find(e.want.begin(), e.want.end(), "7") != e.want.end())) { bad(y, "the reference evaluator and the reference automaton disagree"); okay = false; break; }
            }
        }
    }
    jps_dfa_free(d); w.count(0, states); w.count(1, trans); w.count(2, traces); if (nontrivial) w.nontrivial();
}
int states(int n, int dot) { return 2 * n + (dot ? n / 3 : 0) + 8; }
Stage stage(const string& name, const string& rule, const VS& qs) {
    Stage s; s.name = name; s.rule = rule + " (" + std::to_string(qs.size()) + " queries); non-trivial: some path has a role"; auto q = make_shared<VS>(qs); s.extra = {"product_states", "product_transitions", "traces_replayed"};
    size_t block = 64; s.ex.units = (q->size() + block - 1) / block; s.ex.hang = 20; s.ex.setup = perturb;
    s.ex.unit = [=](int u, W& w) { for (size_t i = u * block; i < std::min(q->size(), (u + 1) * block); i++) check(w, (*q)[i]); };
    s.ex.one = [](const Case& c, W& w) { check(w, c.get("query")); };
    return s;
}
}
static run::Check make(const string& tier) {
    bool th = tier == "thorough"; run::Check c; c.id = "C05"; c.level = "model_checking"; c.states = "product_states"; c.transitions = "product_transitions"; c.traces = "traces_replayed";
    c.explanation = "For every query the reachable product of the compiled automaton and a reference automaton is searched completely: in every product state both must assign the same role and index range. The path to every product state of a query without filters is replayed as a document through serialRun.";
    c.assumptions = {"names outside of the query are represented by one other name", "the index range of a slice entered together with other steps (below a descendant) is not compared: known finding"};
    VS steps = {".a", ".b", ".*", "..a", "..b", "..*", "[*]", "[1]", "[0:2]"};
    c.stages.push_back(stage("paths", "all queries of up to 5 (thorough: 6) of 9 steps", paths(steps, th ? 6 : 5)));
    c.stages.push_back(stage("long-paths", "all queries of up to 8 (thorough: 10) of 3 steps", cat(paths({".a", "[*]", ".*"}, th ? 10 : 8), paths({"..a", "..b", ".a"}, th ? 8 : 6))));
    auto fix = [](VS v) { for (auto& q : v) { size_t at = 0; while ((at = q.find('$', 1)) != string::npos) q.erase(at, 1); } return v; };
    c.stages.push_back(stage("filters", "prefix x filter x suffix, with one and two filters", fix(cat(cross(cross(paths({".a", ".b", "[*]", "..a", ".*", "[1]"}, 2), kFilters), paths({".a", ".x", "[*]", ".*", "..b"}, 2)), cross(cross(cross(cross(VS{"$.a", "$..a", "$", "$.a[*]"}, kFilters), VS{".x", "", ".a", "..b", "[*]"}), kFilters), VS{".x", "", ".b"})))));
    VS names = {"a", "b", "aa", "ab", "A", "_a", "a1", "length", "other", "array"}; VS nq; for (auto& x : names) for (auto& y : names) for (string s : {".", ".."}) for (string t : {".", "..", "[*]."}) nq.push_back("$" + s + x + t + y);
    c.stages.push_back(stage("names", "pairs of 10 names", nq));
    VS sl; for (int i = 0; i <= 12; i++) { sl.push_back("$[" + std::to_string(i) + "]"); sl.push_back("$.a[" + std::to_string(i) + ":]"); sl.push_back("$.a[:" + std::to_string(i) + "].b"); for (int j = 0; j <= 12; j++) { sl.push_back("$[" + std::to_string(i) + ":" + std::to_string(j) + "]"); sl.push_back("$.a[" + std::to_string(i) + "][" + std::to_string(j) + "]"); sl.push_back("$.a[" + std::to_string(i) + ":" + std::to_string(j) + "].b[" + std::to_string(j) + "]"); } }
    c.stages.push_back(stage("slices", "index and slice bounds up to 12, one and two on a path", sl));
    VS mv; for (int n = 1; n <= (th ? 28 : 18); n++) for (string op : {"&&", "||"}) for (int dot = 0; dot < 2; dot++) {
        string e, g; for (int i = 0; i < n; i++) { string v = "@.v" + std::to_string(i) + (dot && i % 3 == 1 ? ".w" : ""); e += (i ? op : "") + v; g += (i ? op : "") + "@.v" + std::to_string(n - 1 - i) + "==1"; }
        for (string pre : {"$.r", "$..r", "$", "$.*", "$..*", "$.v1", "$..v1"}) for (string suf : {".x", "", ".v1", "..x", ".*", "[*]", "..v1"}) mv.push_back(pre + "[?(" + e + ")]" + suf);
        for (string pre : {"$.r", "$..r"}) for (string mid : {".x", "", "..x", ".v1", ".*"}) if (states(n, dot) < 45) mv.push_back(pre + "[?(" + e + ")]" + mid + "[?(" + g + ")].y"); }
    c.stages.push_back(stage("many-variables", "filters with up to 18 (thorough: 28) variables, one and two on a path", mv));
    VS ln; for (int n = 1; n <= (th ? 40 : 24); n++) for (string s : {".", "..", "[*].", "[1].", ".*.", "..*."}) { string q = "$", r = "$", m = "$"; for (int i = 0; i < n; i++) { q += s + "n" + std::to_string(i); r += s + "n" + std::to_string(i % 3); m += (i % 2 ? s : ".") + "n" + std::to_string(i); } if (n <= (s == "..*." ? 5 : s == ".." ? 12 : 24)) { ln.push_back(q); ln.push_back(m); } if (n <= (s == "..*." ? 5 : 8)) ln.push_back(r); }
    c.stages.push_back(stage("many-names", "paths of up to 24 (thorough: 40) steps, different and repeating names", ln));
    // symbols beyond 64, 128 and 256: names that only a wildcard meets must not be lost
    vector<int> many = {60, 61, 62, 63, 100, 124, 125, 126, 127, 250, 251, 252, 253, 254, 255, 256, 300}; if (th) for (int i = 50; i < 300; i += 7) many.push_back(i);
    VS hn; for (int n : many) { string e; for (int i = 0; i < n; i++) e += string(i ? "||" : "") + "@.k" + std::to_string(i); for (string pre : {"$.r", "$.*", "$..r"}) for (string suf : {".x", ".*", "..*"}) if (pre != "$..r" || n < 70 || (suf == ".x" && n == 253)) hn.push_back(pre + "[?(" + e + ")]" + suf); }
    c.stages.push_back(stage("hundreds-of-names", "filters with up to 300 variables before and behind wildcards", hn));
    return c;
}
int main(int argc, char** argv) { return run::main_check(argc, argv, make); }
