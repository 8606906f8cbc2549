// C06: the regular-expression compiler preserves every rule's language: the reachable product of the compiled automaton and
// of a reference automaton (partial derivatives of the rules) is searched completely.
#include <iostream>
#include "pass.hpp"
#include "Lexer/dfa_compressed.hpp"
#include "Lexer/dfa_mixer.hpp"
#include "Lexer/dfa_simple.hpp"
#include "Lexer/ecset_converter.hpp"
#include "Lexer/model_core.hpp"
#include "Lexer/regex_builder.hpp"
#include "Lexer/regex_model.hpp"
#include "Lexer/set_converter.hpp"
#include "dragontooth.h"
#include <deque>
#include <memory>
#include "runner.hpp"
using namespace dragontooth;
using std::string; using std::vector; using std::map; using std::set; using std::shared_ptr; using std::make_shared; using pool::W; using pool::Case; using run::Stage;
typedef vector<string> VS;
namespace {
// Texts: a letter is a symbol (a is 1), '.' every symbol, "!b" every symbol but b, "-ac" the symbols a to c, "=ad-f;" one of them, "=^ad-f;" none of them, (...) a
// sequence, <...> alternatives, {x} a reference to a named expression; each can be followed by ?, *, + and ~ (non-greedy).
// A symbol without a letter is written as its number: #200;
int symbol(char c) { return c >= 'a' ? c - 'a' + 1 : c - 'A' + 27; }
int take(const char*& p) { if (*p != '#') return symbol(*p++); int n = 0; for (p++; *p != ';'; p++) n = n * 10 + (*p - '0'); p++; return n; }
const int kSymbols = 400;
typedef vector<bool> Mask;

// ---- reference ----
struct Core { int k; int m; int l, r; bool nul; bool operator<(const Core& o) const { return std::tie(k, m, l, r) < std::tie(o.k, o.m, o.l, o.r); } };
enum { EPS, SET, CAT, ALT, STAR };
struct Ref {
    vector<Core> n; map<Core, int> ids; vector<Mask> masks; map<Mask, int> mids; map<std::pair<int, int>, set<int>> memo;
    int mk(int k, int m = 0, int l = -1, int r = -1) {
        Core c{k, m, l, r, k == EPS || k == STAR || (k == ALT && (n[l].nul || n[r].nul)) || (k == CAT && n[l].nul && n[r].nul)};
        auto i = ids.find(c); if (i != ids.end()) return i->second; n.push_back(c); return ids[c] = n.size() - 1;
    }
    int mask(const Mask& m) { auto i = mids.insert({m, (int)masks.size()}); if (i.second) masks.push_back(m); return i.first->second; }
    int set_of(bool neg, const vector<std::pair<int, int>>& v) { Mask m(kSymbols, neg); for (auto& x : v) for (int i = x.first; i <= x.second; i++) m[i] = !neg; m[0] = false; return mk(SET, mask(m)); }
    int cat(int l, int r) { return n[l].k == EPS ? r : n[r].k == EPS ? l : mk(CAT, 0, l, r); }
    const set<int>& pd(int x, int a) {
        auto key = std::make_pair(x, a); auto i = memo.find(key); if (i != memo.end()) return i->second;
        set<int> o; Core c = n[x];
        if (c.k == SET) { if (masks[c.m][a]) o.insert(mk(EPS)); }
        else if (c.k == ALT) { o = pd(c.l, a); auto& s = pd(c.r, a); o.insert(s.begin(), s.end()); }
        else if (c.k == CAT) { for (int d : set<int>(pd(c.l, a))) o.insert(cat(d, c.r)); if (n[c.l].nul) { auto& s = pd(c.r, a); o.insert(s.begin(), s.end()); } }
        else if (c.k == STAR) for (int d : set<int>(pd(c.l, a))) o.insert(cat(d, x));
        return memo[key] = o;
    }
    int parse(const char*& p) {
        char c = *p++; int x;
        if (c == '.') x = set_of(true, {});
        else if (c == '!') { int y = take(p); x = set_of(true, {{y, y}}); }
        else if (c == '-') { int lo = take(p), hi = take(p); x = set_of(false, {{lo, hi}}); }
        else if (c == '=') {
            bool neg = *p == '^'; p += neg; vector<std::pair<int, int>> v;
            while (*p != ';') { int lo = take(p), hi = lo; if (*p == '-') { p++; hi = take(p); } v.push_back({lo, hi}); }
            p++; x = set_of(neg, v); }
        else if (c == '(') { x = mk(EPS); while (*p != ')') { int y = parse(p); x = cat(x, y); } p++; }
        else if (c == '<') { x = parse(p); while (*p != '>') x = mk(ALT, 0, x, parse(p)); p++; }
        else if (c == '{') { x = parse(p); p++; }
        else { p--; int y = take(p); x = set_of(false, {{y, y}}); }
        for (;; p++) if (*p == '?') x = mk(ALT, 0, mk(EPS), x); else if (*p == '*') x = mk(STAR, 0, x); else if (*p == '+') x = cat(x, mk(STAR, 0, x)); else if (*p != '~') return x;
    }
    typedef set<int> State;
    State start(const string& t) { const char* p = t.c_str(); return {parse(p)}; }
    State next(const State& s, int a) { State o; for (int x : s) { auto& d = pd(x, a); o.insert(d.begin(), d.end()); } return o; }
    bool acc(const State& s) { for (int x : s) if (n[x].nul) return true; return false; }
};
// ---- implementation ----
struct Mapper : RegexRefMapper {};
RegexItem* parse(const char*& p, vector<shared_ptr<Mapper>>& maps) {
    char c = *p++; RegexItem* x; auto chr = [](int c) { return string(1, (char)c); };
    if (c == '.') x = new RegexSet("^");
    else if (c == '!') x = new RegexSet(("^" + chr(take(p))).c_str());
    else if (c == '-') { int lo = take(p), hi = take(p); x = new RegexSet((chr(lo) + "-" + chr(hi)).c_str()); }
    else if (c == '=') { string s; while (*p != ';') { if (*p == '^' || *p == '-') s += *p++; else s += chr(take(p)); } p++; x = new RegexSet(s.c_str()); }
    else if (c == '(' || c == '<') { auto* l = new RegexList(c == '<'); while (*p != (c == '(' ? ')' : '>')) l->Add(parse(p, maps)); p++; x = l; }
    else if (c == '{') { maps.push_back(make_shared<Mapper>()); auto m = maps.back(); RegexItem* y = parse(p, maps); p++; m->Define("x", y); x = m->Find("x"); }
    else { p--; x = new RegexChar((regex_char)take(p)); }
    for (;; p++) if (*p == '?') x->setOpt(RegexItem::re_optional); else if (*p == '*') x->setOpt(RegexItem::re_repetition); else if (*p == '+') x->setOpt(RegexItem::re_nonzero_repetition); else if (*p == '~') x->setNonGreedy(true); else return x;
}
string letter(int i) { return i > 52 ? "#" + std::to_string(i) + ";" : string(1, i < 27 ? 'a' + i - 1 : 'A' + i - 27); }
struct Rules { int max; VS rules; vector<VS> pre; };              // pre: the start conditions of each rule
string text(const Rules& r) { string o; for (size_t i = 0; i < r.rules.size(); i++) { o += (i ? " " : "") + r.rules[i]; if (i < r.pre.size()) for (auto& p : r.pre[i]) o += "@" + p; } return o; }
Ref* ref() { static Ref* r = nullptr; if (!r || r->n.size() > 40000) { delete r; r = new Ref; } return r; }
void destroy(RegexItem* x) { if (auto* l = dynamic_cast<RegexList*>(x)) { for (auto* y : l->getItems()) destroy(y); } else if (auto* f = dynamic_cast<RegexRef*>(x)) destroy(f->getRef()); delete x; }
void check(W& w, const Rules& R, bool shortest = false, bool classes = false) {
    if (!w.begin(Case{{"symbols", std::to_string(R.max - 1)}, {"rules", text(R)}})) return;
    auto* model = new RegexModel(); model->input_max = R.max; vector<shared_ptr<Mapper>> maps; Ref& f = *ref();
    set<string> names; VS begin = {"default"};
    for (size_t i = 0; i < R.rules.size(); i++) { const char* p = R.rules[i].c_str(); model->Add(parse(p, maps)); model->at(i)->dfa = nullptr; if (i < R.pre.size()) for (auto& n : R.pre[i]) { model->at(i)->prerequisites.insert(n); if (n != "default") names.insert(n); } }
    begin.insert(begin.end(), names.begin(), names.end());
    SetConverter sc; ECSetConverter ec; RegexBuilder rb; DFAMixer mx; (classes ? (Pass&)ec : (Pass&)sc).next(&rb)->next(&mx);
    auto* data = (classes ? (Pass&)ec : (Pass&)sc).ExecuteAll<RegexModel>(model); auto* dfa = (DFACompressed*)data->main_dfa; int states = dfa->getStateSum(); bool ok = true, rich = false; long ns = 0, nt = 0;
    typedef vector<Ref::State> Tuple; map<std::pair<int, Tuple>, int> seen; std::deque<std::pair<std::pair<int, Tuple>, string>> todo;
    vector<Ref::State> roots; for (auto& r : R.rules) roots.push_back(f.start(r));
    for (size_t b = 0; b < begin.size(); b++) {
        Tuple t; for (size_t i = 0; i < roots.size(); i++) { bool in = i >= R.pre.size() || R.pre[i].empty() ? b == 0 : std::count(R.pre[i].begin(), R.pre[i].end(), begin[b]) > 0; t.push_back(in ? roots[i] : Ref::State{}); }
        todo.push_back({{(int)b + 1, t}, b ? "in " + begin[b] + ": " : ""}); seen.insert({todo.back().first, 0}); ns++;
    }
    // the lexer's own walk over the compressed tables
    DTLexerState lex; memset(&lex, 0, sizeof lex); auto stop = dfa->getStopState();
    lex.m_base = dfa->m_base.data(); lex.m_next = dfa->m_next.data(); lex.m_check = dfa->m_check.data(); lex.m_default = dfa->m_default.data(); lex.m_stop_state = stop.data(); lex.bottom = dfa->getBottom();
    if ((int)stop.size() < states) { w.fail("the list of accepting states has " + std::to_string(stop.size()) + " entries for " + std::to_string(states) + " states"); ok = false; }
    for (int s = 0; s < states && ok; s++) {
        for (int a = 1; a < model->input_max && ok; a++) { nt++; int x = dtl_nextState(&lex, s, a), y = dfa->nextState(s, a); if (x != y) { w.fail("in state " + std::to_string(s) + " symbol " + std::to_string(a) + " leads the lexer to " + std::to_string(x) + ", the automaton to " + std::to_string(y)); ok = false; } }
        if (ok && dtl_isStopState(&lex, s) != dfa->isStopState(s)) { w.fail("state " + std::to_string(s) + " accepts rule " + std::to_string(dtl_isStopState(&lex, s)) + " in the lexer, rule " + std::to_string(dfa->isStopState(s)) + " in the automaton"); ok = false; }
    }
    while (!todo.empty() && ok) {
        auto x = todo.front(); todo.pop_front();
        for (int a = 1; a < R.max && ok; a++) {
            nt++; int s = dfa->nextState(x.first.first, classes ? model->ec->getClass(a) : a); Tuple t; bool dead = true;
            for (auto& st : x.first.second) { t.push_back(shortest && seen[x.first] && f.acc(st) ? Ref::State{} : f.next(st, a)); if (!t.back().empty()) dead = false; }
            string path = x.second + letter(a);
            if (s < 0 || s >= states) { w.fail("after " + path + ": state " + std::to_string(s) + " of " + std::to_string(states)); ok = false; break; }
            if (dead && s == 0) continue;
            vector<int> want; for (int i = (int)t.size() - 1; i >= 0; i--) if (f.acc(t[i])) want.push_back(i + 1);
            auto sr = data->stop_rules.find(s); vector<int> got = sr == data->stop_rules.end() ? vector<int>() : sr->second; int top = dfa->isStopState(s);
            std::sort(want.rbegin(), want.rend()); auto sorted = got; std::sort(sorted.rbegin(), sorted.rend());
            auto show = [](const vector<int>& v) { string o; for (int x : v) o += (o.empty() ? "" : ",") + std::to_string(x); return o.empty() ? string("no rule") : "rule " + o; };
            if (sorted != want) { w.fail("the word " + path + " is accepted by " + show(got) + " instead of " + show(want)); ok = false; break; }
            if (top != (want.empty() ? 0 : want[0])) { w.fail("the word " + path + " reports rule " + std::to_string(top) + " instead of " + show(want)); ok = false; break; }
            if (!want.empty()) rich = true;
            if (seen.insert({{s, t}, 1}).second) { ns++; todo.push_back({{s, t}, path}); }
        }
    }
    w.count(0, ns); w.count(1, nt); if (rich) w.nontrivial();
    for (int i = 0; i < model->size(); i++) { delete (DFASimple*)model->at(i)->dfa; destroy(model->at(i)->root); delete model->at(i); }
    delete dfa; delete model;
}
typedef std::function<void(int unit, const std::function<void(const Rules&)>&)> Gen;
Rules parse_rules(const Case& c) {
    Rules r; r.max = c.geti("symbols") + 1; string t = c.get("rules") + " ", cur;
    for (char ch : t) if (ch == ' ') { VS parts; string p; for (char d : cur + "@") if (d == '@') { parts.push_back(p); p.clear(); } else p += d; r.rules.push_back(parts[0]); r.pre.push_back(VS(parts.begin() + 1, parts.end())); cur.clear(); } else cur += ch;
    return r;
}
Stage stage(const string& name, const string& rule, int units, Gen g, bool shortest = false, bool classes = false) {
    Stage s; s.name = name; s.rule = rule + "; non-trivial: some word is accepted"; s.extra = {"product_states", "product_transitions"}; s.ex.units = units; s.ex.hang = 20;
    s.ex.unit = [=](int u, W& w) { g(u, [&](const Rules& r) { check(w, r, shortest, classes); }); };
    s.ex.one = [=](const Case& c, W& w) { check(w, parse_rules(c), shortest, classes); };
    return s;
}
const VS kOpt = {"", "?", "*", "+"};
VS opted(const VS& v) { VS o; for (auto& x : v) for (auto& p : kOpt) o.push_back(x + p); return o; }
VS lists(const VS& a, const VS& b) { VS o; for (auto& x : a) for (auto& y : b) { o.push_back("(" + x + y + ")"); o.push_back("<" + x + y + ">"); } return o; }
VS join(const VS& a, const VS& b) { VS o = a; o.insert(o.end(), b.begin(), b.end()); return o; }
Gen over(const VS& v, int max) { auto p = make_shared<VS>(v); return [=](int u, const std::function<void(const Rules&)>& f) { for (size_t i = (size_t)u * 256; i < std::min(p->size(), (u + 1) * (size_t)256); i++) f(Rules{max, {(*p)[i]}, {}}); }; }
int blocks(const VS& v) { return (v.size() + 255) / 256; }
}
static run::Check make(const string& tier) {
    bool th = tier == "thorough"; run::Check c; c.id = "C06"; c.level = "model_checking"; c.states = "product_states"; c.transitions = "product_transitions";
    c.explanation = "For every set of rules the reachable product of the compiled automaton (nextState, isStopState, stop_rules, and the table walk of dragontooth.h) and of the partial derivatives of the rules is searched completely, so every word of every length is compared. The automaton searched is the implementation's own, built by SetConverter, RegexBuilder and DFAMixer: every rule set counts as one validated trace.";
    c.assumptions = {"the empty word is never reported: a start state accepts nothing (JPStream treats the path without steps separately)", "symbols below 400; through equivalence classes and in the texts of sets below 256 and 128"};
    VS atoms = opted({"a", "b", ".", "!b", "-ab"}); VS l2 = opted(lists(atoms, atoms));
    c.stages.push_back(stage("pairs-of-items", "one rule of one or two items over 5 atoms and every repetition", blocks(join(atoms, l2)), over(join(atoms, l2), 4)));
    VS few = opted({"a", "b", "."}); VS f2 = opted(lists(few, few));
    auto nest = [=](VS outer) { auto L = make_shared<VS>(f2), O = make_shared<VS>(outer); return Gen([=](int u, const std::function<void(const Rules&)>& f) { const string& x = (*L)[u]; for (auto& y : *O) for (int side = 0; side < 2; side++) for (char k : string("(<")) for (auto& p : kOpt) { string close = k == '(' ? ")" : ">"; f(Rules{4, {string(1, k) + (side ? y + x : x + y) + close + p}, {}}); } }); };
    c.stages.push_back(stage("nested", "two-item groups inside of two-item groups", f2.size(), nest(join(few, th ? f2 : VS()))));
    VS three; for (auto& x : few) for (auto& y : few) for (auto& z : few) for (auto& k : VS{"()", "<>"}) for (auto& p : kOpt) three.push_back(k.substr(0, 1) + x + y + z + k.substr(1) + p);
    c.stages.push_back(stage("three-items", "one rule of three items", blocks(three), over(three, 4)));
    if (th) { auto F = make_shared<VS>(few); c.stages.push_back(stage("four-items", "one rule of four items", few.size() * few.size(), [=](int u, const std::function<void(const Rules&)>& f) { size_t n = F->size(); for (auto& y : *F) for (auto& z : *F) for (string k : {"()", "<>"}) for (auto& p : kOpt) f(Rules{4, {k.substr(0, 1) + (*F)[u / n] + (*F)[u % n] + y + z + k.substr(1) + p}, {}}); })); }
    VS refs; for (auto& x : l2) for (auto& p : kOpt) { refs.push_back("{" + x + "}" + p); if (p.size()) refs.push_back("({" + x + "}" + p + "a)"); }
    c.stages.push_back(stage("references", "one rule with a reference to a named expression", blocks(refs), over(refs, 4)));
    VS sets; for (int i = 1; i <= 9; i++) { sets.push_back("!" + letter(i)); for (int j = i + 1; j <= 9; j++) { sets.push_back("-" + letter(i) + letter(j)); if (j > i + 1) { sets.push_back("=" + letter(i) + letter(j) + ";"); for (int k = j + 2; k <= 9; k++) sets.push_back("=" + letter(i) + letter(j) + letter(k) + ";"); } } }
    VS setr; for (auto& x : sets) for (auto& p : kOpt) { setr.push_back(x + p); setr.push_back("(" + x + p + "a)"); setr.push_back("(." + x + p + ")"); for (auto& y : sets) setr.push_back("(" + x + p + y + ")"); }
    c.stages.push_back(stage("sets", "sets, ranges and complements over 9 symbols, in pairs", blocks(setr), over(setr, 10)));
    VS items, rich; for (int i = 1; i <= 6; i++) for (int j = i; j <= 6; j++) items.push_back(letter(i) + (i < j ? "-" + letter(j) : ""));
    for (auto& x : items) for (auto& y : items) for (string n : {"", "^"}) { rich.push_back("=" + n + x + y + ";"); for (auto& z : items) rich.push_back("=" + n + x + y + z + ";"); }
    c.stages.push_back(stage("set-texts", "every set text of two or three symbols and ranges over 6 symbols, and its complement", blocks(rich), over(rich, 8)));
    // several rules
    VS base = join(few, lists(few, few)); auto B = make_shared<VS>(base);
    c.stages.push_back(stage("two-rules", "every pair of rules of up to two items", base.size(), [=](int u, const std::function<void(const Rules&)>& f) { for (auto& y : *B) f(Rules{4, {(*B)[u], y}, {}}); }));
    VS steps = {"a", "b", ".", ".+", "(.*a)", "(.*b)", "c"}; VS paths; for (auto& x : steps) { paths.push_back("(" + x + ")"); for (auto& y : steps) { paths.push_back("(" + x + y + ")"); for (auto& z : steps) if (th) paths.push_back("(" + x + y + z + ")"); } }
    auto P = make_shared<VS>(paths);
    c.stages.push_back(stage("three-rules", "every triple of paths of up to two (thorough: three, the third rule up to two) steps", paths.size(), [=](int u, const std::function<void(const Rules&)>& f) { for (auto& y : *P) for (size_t k = 0; k < P->size(); k += th ? 8 : 1) f(Rules{4, {(*P)[u], y, (*P)[k]}, {}}); }));
    VS one = {"a", "b", ".", "(.*a)", "(a.)", "(ab)", "<ab>+"}; auto O = make_shared<VS>(one);
    c.stages.push_back(stage("four-rules", "every four of 7 rules", one.size() * one.size(), [=](int u, const std::function<void(const Rules&)>& f) { size_t n = O->size(); for (auto& y : *O) for (auto& z : *O) f(Rules{4, {(*O)[u / n], (*O)[u % n], y, z}, {}}); }));
    // the pipeline with equivalence classes
    c.stages.push_back(stage("classes", "the stages pairs-of-items, sets and set-texts through equivalence classes", blocks(join(atoms, l2)), over(join(atoms, l2), 6), false, true));
    c.stages.push_back(stage("classes-sets", "the sets through equivalence classes", blocks(setr), over(setr, 12), false, true));
    c.stages.push_back(stage("classes-set-texts", "the set texts through equivalence classes", blocks(rich), over(rich, 8), false, true));
    c.stages.push_back(stage("classes-two-rules", "pairs of rules through equivalence classes", base.size(), [=](int u, const std::function<void(const Rules&)>& f) { for (auto& y : *B) f(Rules{5, {(*B)[u], y}, {}}); }, false, true));
    // start conditions
    vector<VS> pres = {{}, {"default"}, {"x"}, {"y"}, {"x", "y"}, {"default", "y"}}; 
    c.stages.push_back(stage("start-conditions", "every triple of 7 rules under every start condition of 6", one.size() * one.size(), [=](int u, const std::function<void(const Rules&)>& f) { size_t n = O->size(); for (auto& z : *O) for (auto& p : pres) for (auto& q : pres) for (auto& r : pres) f(Rules{4, {(*O)[u / n], (*O)[u % n], z}, {p, q, r}}); }));
    VS ng; for (auto& x : few) for (auto& y : few) { ng.push_back("(" + x + y + "~)"); ng.push_back("(" + x + "~" + y + ")"); for (auto& z : few) { ng.push_back("(" + x + y + "~" + z + ")"); ng.push_back("(" + x + "~" + y + z + ")"); } }
    c.stages.push_back(stage("non-greedy", "one rule of two or three items, one of them non-greedy: only its shortest words are accepted", blocks(ng), over(ng, 4), true));
    // many symbols: states with more than ten different successors share their tables with similar ones
    int top = th ? 45 : 30;
    c.stages.push_back(stage("many-symbols", "rules prefix x symbol x suffix for every run and stride of symbols, alphabets of 9 to 30 (thorough: 45) symbols, plus one rule that differs", top - 8, [=](int u, const std::function<void(const Rules&)>& f) {
        int n = u + 9; for (string p : {"", ".", ".*", ".+", "a", "<ab>"}) for (string s : {"", "a", ".", ".*", "b+"}) if (!((p == ".*" || p == ".+") && (s == ".*" || (s == "." && n > 13)))) for (int stride = 1; stride <= 3; stride++) for (int from = 1; from <= 3; from++) for (string odd : {"", "(ab)", "(..b)", "(.*c)", "(a.*)", "(b.a)"}) {
            Rules r; r.max = n; for (int i = from; i < n; i += stride) r.rules.push_back("(" + p + letter(i) + s + ")"); if (!odd.empty()) r.rules.push_back(odd); if (r.rules.size()) f(r); } }));
    c.stages.push_back(stage("wide-alternatives", "one rule of alternatives of words over up to 30 (thorough: 45) symbols, every position of a word that differs", top - 8, [=](int u, const std::function<void(const Rules&)>& f) {
        int n = u + 9; for (string tail : {"", "a", "z", "."}) for (string rep : {"", "*", "+"}) for (int d = 0; d < n; d++) for (int e = d; e < std::min(n, d + 3); e++) {
            string alt = "<"; for (int i = 1; i < n; i++) { int j = i == d || i == e ? 1 : i; alt += "(" + letter(i) + letter(j) + (symbol(tail.empty() ? 'a' : tail[0] == '.' ? 'a' : tail[0]) < n ? tail : "") + ")"; } alt += ">" + rep; f(Rules{n, {alt}, {}}); f(Rules{n, {alt, "(.*a)"}, {}}); } }));
    c.stages.push_back(stage("shifted-tables", "pairs of permuted wide alternatives: every rotation, and every rotation with one symbol missing", top - 8, [=](int u, const std::function<void(const Rules&)>& f) {
        int n = u + 9; for (int rot = 0; rot < n; rot++) for (int miss = 0; miss < n; miss += 2) {
            string x = "<", y = "<"; for (int i = 1; i < n; i++) { x += "(" + letter(i) + letter(i) + ")"; if (i != miss) y += "(" + letter(i) + letter((i + rot - 1) % (n - 1) + 1) + ")"; } f(Rules{n, {"(a" + x + ">)", "(b" + y + ">)"}, {}}); } }));
    // alphabets on both sides of 64, 128 and 256 symbols: a query with many names
    vector<int> sizes = {54, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300}; if (th) for (int i = 245; i < 275; i++) sizes.push_back(i);
    auto large = [=](bool classes) { return Gen([=](int u, const std::function<void(const Rules&)>& f) {
        int n = sizes[u]; if (classes && n > 256) return;
        vector<int> at; for (int i : {1, 2, 52, 53, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, n - 2, n - 1}) if (i < n && std::count(at.begin(), at.end(), i) == 0) at.push_back(i);
        for (int i : at) {
            string x = letter(i);
            for (string t : {"%", "(.%)", "(%.)", "(.*%)", "(%.*)", "(.+%)", "(.%.)", "(%%+)", "(a%)", "<a%>+", "<%(.a)>", "(.*a%)", "(%?.)", "(!a%)", "(%!a)", "(=^ab-d;%)"}) { string r; for (char ch : t) r += ch == '%' ? x : string(1, ch); f(Rules{n, {r}, {}}); f(Rules{n, {r, "(.*a)"}, {}}); f(Rules{n, {"(..)", r}, {}}); }
            for (int j : at) if (i != j) { f(Rules{n, {"(." + x + ")", "(." + letter(j) + ")", ".+"}, {}}); f(Rules{n, {"(.*" + x + "." + ")", "(" + letter(j) + x + ")"}, {}}); }
            if (i < 128 && i != 92) { f(Rules{n, {"!" + x}, {}}); f(Rules{n, {"(!" + x + ".)", "(." + x + ")"}, {}}); if (i > 2) { f(Rules{n, {"(=b-" + x + ";" + letter(n - 1) + ")"}, {}}); f(Rules{n, {"(.=^b-" + x + ";)"}, {}}); } }
        }
        string alt = "<", shift = "<"; for (int i = 1; i < n; i++) { alt += "(" + letter(i) + letter(n - i) + ")"; shift += "(" + letter(i) + letter(i % (n - 1) + 1) + ")"; } f(Rules{n, {alt + ">"}, {}}); f(Rules{n, {"(a" + alt + ">)", "(b" + shift + ">)"}, {}});
    }); };
    c.stages.push_back(stage("large-alphabets", "rules of one to three items with a symbol around 64, 128, 256 or the last one, in alphabets of up to 299 symbols, alone and with other rules", sizes.size(), large(false)));
    c.stages.push_back(stage("classes-large-alphabets", "the same through equivalence classes, up to 255 symbols", sizes.size(), large(true), false, true));
    return c;
}
int main(int argc, char** argv) { return run::main_check(argc, argv, make); }
