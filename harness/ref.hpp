// Reference model: a plain in-memory JSON tree and a direct JSONPath evaluator. No code of JPStream is used here.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
namespace ref {
using std::string; using std::vector;

// ---------- JSON ----------
struct J {
    enum T { NUM, STR, BOOL, NUL, OBJ, ARR } t = NUL;
    size_t b = 0, e = 0;              // text span [b,e)
    vector<string> keys; vector<J> kids;
};
struct JsonParser {
    const string& s; size_t i = 0;
    JsonParser(const string& s) : s(s) {}
    [[noreturn]] void bad(const char* m) { throw std::runtime_error(string("json: ") + m + " at " + std::to_string(i) + " in " + s); }
    void ws() { while (i < s.size() && strchr(" \t\r\n", s[i]) && s[i]) i++; }
    string str() {               // raw key text between the quotes
        if (s[i] != '"') bad("expected string");
        size_t b = ++i;
        while (i < s.size() && s[i] != '"') { if (s[i] == '\\') i++; i++; }
        if (i >= s.size()) bad("unterminated string");
        return s.substr(b, i++ - b);
    }
    J val() {
        ws(); J v; v.b = i;
        if (i >= s.size()) bad("end");
        char c = s[i];
        if (c == '{') { v.t = J::OBJ; i++; ws();
            if (s[i] == '}') i++; else for (;;) { ws(); v.keys.push_back(str()); ws(); if (s[i++] != ':') bad("colon"); v.kids.push_back(val()); ws();
                if (s[i] == ',') { i++; continue; } if (s[i] == '}') { i++; break; } bad("object"); } }
        else if (c == '[') { v.t = J::ARR; i++; ws();
            if (s[i] == ']') i++; else for (;;) { v.kids.push_back(val()); ws(); if (s[i] == ',') { i++; continue; } if (s[i] == ']') { i++; break; } bad("array"); } }
        else if (c == '"') { v.t = J::STR; str(); }
        else { while (i < s.size() && !strchr(" \t\r\n,]}", s[i])) i++;
            string w = s.substr(v.b, i - v.b);
            v.t = w == "true" || w == "false" ? J::BOOL : w == "null" ? J::NUL : J::NUM;
            if (w.empty()) bad("value"); }
        v.e = i; return v;
    }
    J doc() { J v = val(); ws(); if (i != s.size()) bad("trailing"); return v; }
};
inline J parseJson(const string& s) { JsonParser p(s); return p.doc(); }

// ---------- filter expressions ----------
struct V { enum T { NONE, NUL, BOOL, NUM, STR, CONT } t = NONE; bool b = false; double n = 0; string s; };
struct Ex {
    enum K { VAR, NUM, STR, NOT, BIN } k; string op;       // op for BIN: || && == != < > <= >= + - * / %
    vector<string> path; double n = 0; string s; vector<Ex> a;
};
inline V valueOf(const J& j, const string& text) {
    V v; string w = text.substr(j.b, j.e - j.b);
    switch (j.t) {
        case J::NUM: v.t = V::NUM; v.n = atof(w.c_str()); break;
        case J::STR: v.t = V::STR; v.s = w.substr(1, w.size() - 2); break;
        case J::BOOL: v.t = V::BOOL; v.b = w == "true"; break;
        case J::NUL: v.t = V::NUL; break;
        default: v.t = V::BOOL; v.b = true;   // an object or an array only exists
    }
    return v;
}
inline bool truth(const V& v) {
    switch (v.t) { case V::NONE: case V::NUL: return false; case V::BOOL: return v.b; case V::NUM: return v.n != 0; default: return true; }
}
inline V mkb(bool b) { V v; v.t = V::BOOL; v.b = b; return v; }
inline bool& outOfDomain() { static bool b = false; return b; }      // a remainder of values that are no integers of 64 bits
inline V binop(const string& op, const V& x, const V& y) {
    if (op == "||") return mkb(truth(x) || truth(y));
    if (op == "&&") return mkb(truth(x) && truth(y));
    if (op == "==" || op == "!=") {
        bool r = false;
        auto nul = [](const V& v) { return v.t == V::NONE || v.t == V::NUL; };
        if (nul(x) && nul(y)) r = true;
        else if (x.t == y.t) r = x.t == V::NUM ? x.n == y.n : x.t == V::STR ? x.s == y.s : x.t == V::BOOL ? x.b == y.b : x.t == V::CONT;
        return mkb(op == "==" ? r : !r);
    }
    bool both = x.t == V::NUM && y.t == V::NUM;
    if (op == "<") return mkb(both && x.n < y.n);
    if (op == ">") return mkb(both && x.n > y.n);
    if (op == "<=") return mkb(both && x.n <= y.n);
    if (op == ">=") return mkb(both && x.n >= y.n);
    V v; if (!both) return v;                 // arithmetic on a non-number has no value
    v.t = V::NUM;
    if (op == "+") v.n = x.n + y.n; else if (op == "-") v.n = x.n - y.n; else if (op == "*") v.n = x.n * y.n;
    else if (op == "/") v.n = x.n / y.n;
    else { if (!(fabs(x.n) < 9e18) || !(fabs(y.n) < 9e18)) outOfDomain() = true; else if ((long long)y.n == 0) { V z; return z; } else v.n = (double)((long long)x.n % (long long)y.n); }
    return v;
}
template <class Look> V evalEx(const Ex& e, const Look& look) {
    switch (e.k) {
        case Ex::VAR: return look(e.path);
        case Ex::NUM: { V v; v.t = V::NUM; v.n = e.n; return v; }
        case Ex::STR: { V v; v.t = V::STR; v.s = e.s; return v; }
        case Ex::NOT: return mkb(!truth(evalEx(e.a[0], look)));
        default: return binop(e.op, evalEx(e.a[0], look), evalEx(e.a[1], look));
    }
}

// ---------- queries ----------
struct Step { enum K { CHILD, WILD, DESC, DESCWILD, ALL, SLICE, FILTER } k; string name; long lo = 0, hi = 0; bool index = false; std::shared_ptr<Ex> ex; };
typedef vector<Step> Query;
struct QueryParser {
    const string& s; size_t i = 0;
    QueryParser(const string& s) : s(s) {}
    [[noreturn]] void bad(const char* m) { throw std::runtime_error(string("query: ") + m + " at " + std::to_string(i) + " in " + s); }
    void ws() { while (i < s.size() && strchr(" \t", s[i]) && s[i]) i++; }
    bool eat(const char* t) { ws(); size_t n = strlen(t); if (s.compare(i, n, t) == 0) { i += n; return true; } return false; }
    string name() { ws(); size_t b = i; while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_')) i++; if (b == i) bad("name"); return s.substr(b, i - b); }
    bool num(double& d) { ws(); size_t b = i; bool neg = i < s.size() && s[i] == '-'; if (neg) { i++; ws(); } if (i >= s.size() || !isdigit((unsigned char)s[i])) { i = b; return false; }
        char* e; d = strtod(s.c_str() + i, &e); i = e - s.c_str(); if (neg) d = -d; return true; }
    Ex mk(const string& op, Ex a, Ex b) { Ex e; e.k = Ex::BIN; e.op = op; e.a.push_back(a); e.a.push_back(b); return e; }
    // precedence: || < && < comparison < +- < */% < !   all left associative
    Ex orx() { Ex a = andx(); while (eat("||")) a = mk("||", a, andx()); return a; }
    Ex andx() { Ex a = cmpx(); while (eat("&&")) a = mk("&&", a, cmpx()); return a; }
    Ex cmpx() { Ex a = addx(); for (;;) { if (eat("==")) a = mk("==", a, addx()); else if (eat("!=")) a = mk("!=", a, addx()); else if (eat("<=")) a = mk("<=", a, addx());
        else if (eat(">=")) a = mk(">=", a, addx()); else if (eat("<")) a = mk("<", a, addx()); else if (eat(">")) a = mk(">", a, addx()); else return a; } }
    Ex addx() { Ex a = mulx(); for (;;) { if (eat("+")) a = mk("+", a, mulx()); else if (eat("-")) a = mk("-", a, mulx()); else return a; } }
    Ex mulx() { Ex a = un(); for (;;) { if (eat("*")) a = mk("*", a, un()); else if (eat("/")) a = mk("/", a, un()); else if (eat("%")) a = mk("%", a, un()); else return a; } }
    Ex un() {
        ws(); Ex e;
        if (i < s.size() && s[i] == '!' ) { i++; e.k = Ex::NOT; e.a.push_back(un()); return e; }
        if (eat("(")) { e = orx(); if (!eat(")")) bad(")"); return e; }
        if (eat("@")) { e.k = Ex::VAR; while (eat(".")) e.path.push_back(name()); return e; }
        if (i < s.size() && (s[i] == '"' || s[i] == '\'')) { char q = s[i++]; size_t b = i; while (s[i] != q) i++; e.k = Ex::STR; e.s = s.substr(b, i++ - b); return e; }
        double d; if (num(d)) { e.k = Ex::NUM; e.n = d; return e; }
        bad("expression");
    }
    Query parse() {
        Query q; if (!eat("$")) bad("$");
        for (;;) {
            ws(); if (i >= s.size()) return q;
            Step st;
            if (eat("..")) { if (eat("*")) st.k = Step::DESCWILD; else { st.k = Step::DESC; st.name = name(); } }
            else if (eat(".")) { if (eat("*")) st.k = Step::WILD; else { st.k = Step::CHILD; st.name = name(); } }
            else if (eat("[")) {
                if (eat("*")) st.k = Step::ALL;
                else if (eat("?")) { if (!eat("(")) bad("("); st.k = Step::FILTER; st.ex = std::make_shared<Ex>(orx()); if (!eat(")")) bad(")"); }
                else { st.k = Step::SLICE; double d; bool l = num(d); st.lo = l ? (long)d : -2147483648L; 
                    if (eat(":")) { st.hi = num(d) ? (long)d : 2147483647L; } else { if (!l) bad("index"); st.hi = st.lo + 1; st.index = true; } }
                if (!eat("]")) bad("]");
            } else bad("step");
            q.push_back(st);
        }
    }
};
inline Query parseQuery(const string& s) { QueryParser p(s); return p.parse(); }

// ---------- evaluation ----------
struct Hit { size_t b, e; };
struct Eval {
    typedef unsigned __int128 Set;                                // positions of the query: up to 126 steps
    const Query& q; const string& text; vector<Hit> hits; bool prune = false, nested = false;
    Eval(const Query& q, const string& t) : q(q), text(t) {}
    bool pass(const Ex& ex, const J& obj) const {
        auto look = [&](const vector<string>& path) -> V {
            const J* c = &obj;
            for (auto& k : path) {
                const J* n = nullptr;
                if (c->t == J::OBJ) for (size_t m = 0; m < c->keys.size(); m++) if (c->keys[m] == k) n = &c->kids[m];
                if (!n) return V();
                c = n;
            }
            return valueOf(*c, text);
        };
        return truth(evalEx(ex, look));
    }
    void walk(const J& j, Set set, Set inside = 0) {
        for (size_t m = 0; m < j.kids.size(); m++) {
            bool arr = j.t == J::ARR; const J& c = j.kids[m];
            Set nx = 0, in = inside;
            for (unsigned p = 0; p < q.size(); p++) if (set >> p & 1) {
                const Step& st = q[p];
                switch (st.k) {
                    case Step::CHILD: if (!arr && j.keys[m] == st.name) nx |= Set(2) << p; break;
                    case Step::WILD: nx |= Set(2) << p; break;
                    case Step::DESC: nx |= Set(1) << p; if (!arr && j.keys[m] == st.name) nx |= Set(2) << p; break;
                    case Step::DESCWILD: nx |= Set(3) << p; break;
                    case Step::ALL: if (arr) nx |= Set(2) << p; break;
                    case Step::SLICE: if (arr && (long)m >= st.lo && (long)m < st.hi) nx |= Set(2) << p; break;
                    case Step::FILTER: if (arr && c.t == J::OBJ) { if (inside >> p & 1) nested = true; in |= Set(1) << p; } if (arr && c.t == J::OBJ && pass(*st.ex, c)) nx |= Set(2) << p; break;
                }
            }
            if (prune && arr) for (unsigned p = 0; p < q.size(); p++) if ((set >> p & 1) && q[p].k == Step::SLICE && !((long)m >= q[p].lo && (long)m < q[p].hi)) nx = 0;
            if (nx) walk(c, nx, in);
        }
        if (set >> q.size() & 1) hits.push_back({j.b, j.e});
    }
};
// Selected values, each once, as the verbatim text of the document, in the order in which they end.
inline vector<string> evalQuery(const Query& q, const J& doc, const string& text) {
    Eval ev(q, text); ev.walk(doc, 1u);
    vector<string> out; for (auto& h : ev.hits) out.push_back(text.substr(h.b, h.e - h.b));
    return out;
}
// The expected result of a case, and whether the case lies outside of the domain (a known finding, see DESIGN.md):
// a slice below a descendant step whose out-of-range elements contain further results;
// a filter below a descendant step when an element it examines contains further elements it examines.
struct Expect { vector<string> want; bool skip = false; };
inline Expect expect(const string& qt, const string& dt) {
    static string lastq, lastd; static Query q; static J j;
    if (qt != lastq || lastq.empty()) { q = parseQuery(qt); lastq = qt; }
    if (dt != lastd || lastd.empty()) { j = parseJson(dt); lastd = dt; }
    Expect e; Eval ev0(q, dt); ev0.walk(j, 1u); for (auto& h : ev0.hits) e.want.push_back(dt.substr(h.b, h.e - h.b)); e.skip = ev0.nested;
    bool desc = false, risk = false; for (auto& s : q) { if (s.k == Step::DESC || s.k == Step::DESCWILD) desc = true; if (s.k == Step::SLICE && desc) risk = true; }
    if (risk) { Eval ev(q, dt); ev.prune = true; ev.walk(j, 1u); vector<string> o; for (auto& h : ev.hits) o.push_back(dt.substr(h.b, h.e - h.b)); if (o != e.want) e.skip = true; }
    return e;
}
inline vector<string> evalText(const string& q, const string& d) { Query qq = parseQuery(q); J j = parseJson(d); return evalQuery(qq, j, d); }
}  // namespace ref
