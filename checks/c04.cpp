// C04: a query text is parsed into the tree of its steps and conditions.
#include "modes.hpp"
#include "spaces.hpp"
using namespace md; using namespace sp;
namespace {
const VS kOps = {"||", "&&", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%"};
string num(double d) { char b[64]; snprintf(b, 64, "num:%.17g", d); return b; }
string tree(const ref::Ex& e) {
    static const VS names = {"||", "&&", "!", "==", "<", ">", "!=", "<=", ">=", "+", "-", "*", "/", "%"};
    switch (e.k) {
        case ref::Ex::VAR: { string o = "@"; for (auto& k : e.path) o = "(. " + o + " id:" + k + ")"; return o; }
        case ref::Ex::NUM: return num(e.n);
        case ref::Ex::STR: return "str:" + e.s;
        case ref::Ex::NOT: return "(op2 " + tree(e.a[0]) + " -)";
        default: return "(op" + std::to_string(std::find(names.begin(), names.end(), e.op) - names.begin()) + " " + tree(e.a[0]) + " " + tree(e.a[1]) + ")";
    }
}
string tree(const ref::Query& q) {
    string o = "$";
    for (auto& s : q) switch (s.k) {
        case ref::Step::CHILD: o = "(. " + o + " id:" + s.name + ")"; break;
        case ref::Step::WILD: o = "(. " + o + " *)"; break;
        case ref::Step::DESC: o = "(.. " + o + " id:" + s.name + ")"; break;
        case ref::Step::DESCWILD: o = "(.. " + o + " *)"; break;
        case ref::Step::ALL: o = "([] " + o + " *)"; break;
        case ref::Step::FILTER: o = "([] " + o + " (? " + tree(*s.ex) + " -))"; break;
        case ref::Step::SLICE: o = "([] " + o + " " + (s.index ? num(s.lo) : string("(: ") + (s.lo == -2147483648L ? "-" : num(s.lo)) + " " + (s.hi == 2147483647L ? "-" : num(s.hi)) + ")") + ")"; break;
    }
    return o;
}
void check(W& w, const string& q) {
    if (!w.begin(Case{{"query", q}})) return;
    string want = tree(ref::parseQuery(q)); char* t = jps_tree(jps_parse(q.c_str())); string got = t; free(t);
    if (want.size() > 1) w.nontrivial();
    if (got != want) w.fail("parsed as " + got + " instead of " + want);
}
Stage stage(const string& name, const string& rule, const VS& qs) {
    Stage s; s.name = name; s.rule = rule + " (" + std::to_string(qs.size()) + " texts); non-trivial: the tree has more than one node"; auto q = make_shared<VS>(qs); size_t block = 400;
    s.ex.units = (q->size() + block - 1) / block; s.ex.hang = 10; s.ex.setup = perturb;
    s.ex.unit = [=](int u, W& w) { for (size_t i = u * block; i < std::min(q->size(), (u + 1) * block); i++) check(w, (*q)[i]); };
    s.ex.one = [](const Case& c, W& w) { check(w, c.get("query")); };
    return s;
}
VS blanks(const VS& toks, int gaps) {       // up to `gaps` blank sequences between the tokens
    VS ws = {" ", "\t", "  "}, out; vector<int> g(toks.size() + 1, -1);
    std::function<void(size_t, int)> go = [&](size_t i, int left) {
        if (i == g.size()) { string o; for (size_t k = 0; k < g.size(); k++) { if (g[k] >= 0) o += ws[g[k]]; if (k < toks.size()) o += toks[k]; } out.push_back(o); return; }
        g[i] = -1; go(i + 1, left); if (left) for (size_t k = 0; k < ws.size(); k++) { g[i] = k; go(i + 1, left - 1); } g[i] = -1; };
    go(0, gaps); return out;
}
}
static run::Check make(const string& tier) {
    bool th = tier == "thorough"; run::Check c; c.id = "C04";
    c.explanation = "Every case parses a query text with the real parser and compares the whole tree with the tree of an independent parser.";
    c.assumptions = {"texts are within the documented grammar; unions of indexes and script expressions are documented as unsupported"};
    c.stages.push_back(stage("steps", "all queries of up to 4 (thorough: 5) of 13 steps", paths({".a", ".*", "..b", "..*", "[*]", "[0]", "[12]", "[1:3]", "[2:]", "[:2]", "[?(@.a)]", "[?(!@.a.b)]", ".a_B1"}, th ? 5 : 4)));
    VS e2, at = {"@.a", "1", "'s'", "@.a.b", "2.5", "\"t\""}; for (auto& x : at) for (auto& y : at) for (auto& z : at) for (auto& o : kOps) for (auto& p : kOps) { if (!th && x != "@.a" && z != "1") continue; for (string t : {x + o + y + p + z, "(" + x + o + y + ")" + p + z, x + o + "(" + y + p + z + ")", "!" + x + o + y + p + z, x + o + "!" + y + p + z, "!(" + x + o + y + ")" + p + z}) e2.push_back("$.r[?(" + t + ")].x"); }
    c.stages.push_back(stage("two-operators", "every pair of operators between atoms, plain, bracketed and negated", e2));
    VS e3; for (auto& o : kOps) for (auto& p : kOps) for (auto& r : kOps) for (string t : {"@.a" + o + "1" + p + "@.b.c" + r + "'s'", "(@.a" + o + "1" + p + "@.b)" + r + "2", "@.a" + o + "(1" + p + "@.b)" + r + "2", "@.a" + o + "(1" + p + "@.b" + r + "2)", "(@.a" + o + "1)" + p + "(@.b" + r + "2)", "!@.a" + o + "!1" + p + "!@.b" + r + "!@.c"}) e3.push_back("$[?(" + t + ")]");
    c.stages.push_back(stage("three-operators", "every triple of operators with every bracketing of two groups", e3));
    VS e4; for (auto& o : kOps) for (auto& p : kOps) for (auto& r : kOps) for (auto& s : kOps) { if (!th && (o == p) != (r == s)) continue; e4.push_back("$[?(@.a" + o + "@.b" + p + "1" + r + "@.c" + s + "2)]"); }
    c.stages.push_back(stage("four-operators", "quadruples of operators", e4));
    VS bl; for (auto& t : vector<VS>{{"$", ".", "a", "..", "b", "[", "1", ":", "2", "]"}, {"$", "[", "*", "]", ".", "*", "[", "0", "]"}, {"$", ".", "r", "[", "?", "(", "@", ".", "a", ".", "b", "==", "'x y'", ")", "]"}, {"$", "[", "?", "(", "!", "@", ".", "a", "&&", "(", "1", "<=", "@", ".", "b", "||", "@", ".", "c", ")", ")", "]", ".", "x"}, {"$", "[", "?", "(", "@", ".", "a", "-", "1", "%", "2", "!=", "\"q\"", ")", "]"}, {"$", "[", ":", "3", "]", "[", "2", ":", "]", "..", "*"}}) bl = cat(bl, blanks(t, th ? 3 : 2));
    c.stages.push_back(stage("blanks", "up to 2 (thorough: 3) blank sequences between the tokens of 6 queries", bl));
    VS nu; for (string n : {"0", "1", "9", "10", "123", "2147483646", "007", "0.5", "12.25", "1000000.125", "3.0"}) { if (n.find('.') == string::npos) for (string m : {"0", "1", "15", "2147483646"}) { nu.push_back("$[" + n + ":" + m + "]"); nu.push_back("$.a[" + n + "][" + m + "]"); } for (auto& o : kOps) { nu.push_back("$[?(@.a" + o + n + ")]"); nu.push_back("$[?(" + n + o + "@.a)]"); nu.push_back("$[?(@.a" + o + "-" + n + ")]"); nu.push_back("$[?(-" + n + o + "@.a)]"); nu.push_back("$[?(@.a" + o + " - " + n + ")]"); } }
    c.stages.push_back(stage("numbers", "number forms in slices and conditions", nu));
    VS st, al = {"a", " ", "1", ".", "]", ")", "[", "(", "@", "&&", "||", "=", "$", "*", "'", "\"", "\\\\", "\xc3\xa9", "{", ","}; VS wl = {""}; size_t b = 0; for (int l = 0; l < (th ? 4 : 3); l++) { size_t e = wl.size(); for (size_t i = b; i < e; i++) for (auto& a : al) wl.push_back(wl[i] + a); b = e; }
    for (auto& x : wl) { if (x.find('\'') == string::npos) st.push_back("$[?(@.a=='" + x + "')].b"); if (x.find('"') == string::npos) st.push_back("$[?(@.a!=\"" + x + "\"&&@.c)]"); }
    c.stages.push_back(stage("strings", "every string literal of up to 3 (thorough: 4) of 20 symbols in both kinds of quotes", st));
    VS na; for (string x : {"a", "Z", "_", "_a", "a1", "a_b", "ABC", "aa", "a0b", "length", "true", "null", "div", "mod", "or", "and", "x9_"}) for (string y : {"a", "_", "b2", "or"}) { na.push_back("$." + x + "." + y); na.push_back("$.." + x + ".." + y); na.push_back("$[?(@." + x + "." + y + ")]." + x); na.push_back("$[?(@." + x + ">@." + y + ")]"); }
    c.stages.push_back(stage("names", "forms of names", na));
    // every character, every small number
    string letters; for (int i = 0; i < 26; i++) { letters += 'a' + i; letters += 'A' + i; } letters += '_'; string any = letters + "0123456789";
    VS ch; for (char x : letters) { string X(1, x); for (string t : {"$.%", "$..%", "$.a.%.b", "$[?(@.%)].x", "$[?(@.a.%==1)]", "$[*].%[1]"}) { t.replace(t.find('%'), 1, X); ch.push_back(t); } for (char y : any) { ch.push_back("$." + X + y); ch.push_back("$[?(@." + X + y + ">@.b)]." + X); } }
    for (char y : any) for (char z : any) ch.push_back("$.a" + string(1, y) + string(1, z) + "..b");
    c.stages.push_back(stage("characters-of-names", "every letter as a name, every two characters of a name", ch));
    VS by; for (int b = 1; b < 256; b++) if (b != '\\') for (string t : {"$[?(@.a=='%')]", "$[?(@.a==\"%\")].b", "$[?('x%y'!=@.a&&@.b)]", "$[?(\"%%\"==@.a||@.c=='z')]"}) { if (t.find(b == '\'' ? "'" : b == '"' ? "\"" : "\x01\x01") != string::npos) continue; if (b == '\n' || b == '\r') continue; size_t at; while ((at = t.find('%')) != string::npos) t.replace(at, 1, "\x01"); while ((at = t.find('\x01')) != string::npos && b != 1) t.replace(at, 1, string(1, (char)b)); by.push_back(t); }
    c.stages.push_back(stage("bytes-of-literals", "every byte in string literals of both kinds", by));
    VS nn; for (int i = 0; i <= (th ? 3000 : 600); i++) { string n = std::to_string(i); nn.push_back("$[" + n + "]"); nn.push_back("$.a[" + n + ":" + std::to_string(i * 7 + 1) + "].b"); nn.push_back("$[:" + n + "]"); nn.push_back("$[" + n + ":]"); nn.push_back("$[?(@.a==" + n + ")]"); nn.push_back("$[?(@.a<" + n + "." + n + ")]"); nn.push_back("$[?(@.a>-0." + n + ")]"); }
    for (int b = 0; b < 31; b++) for (int d = -1; d <= 1; d++) { long v = (1L << b) + d; if (v < 0 || v > 2147483646) continue; string n = std::to_string(v); nn.push_back("$[" + n + "]"); nn.push_back("$[0:" + n + "]"); nn.push_back("$[" + n + ":]"); nn.push_back("$[?(@.a==" + n + ")]"); }
    for (int b = 31; b < 70; b++) for (int d = -1; d <= 1; d++) { char t[64]; snprintf(t, 64, "%.0f", ldexp(1, b) + d); nn.push_back(string("$[?(@.a>=") + t + ")]"); nn.push_back(string("$[?(@.a==0.") + t + ")]"); nn.push_back(string("$[?(") + t + "." + t + "<@.a)]"); }
    for (string n : {"00", "01", "07", "08", "010", "0010", "099", "0000000001", "012"}) { nn.push_back("$[" + n + "]"); nn.push_back("$.a[" + n + ":0" + n + "].b"); nn.push_back("$[" + n + ":]"); nn.push_back("$[:" + n + "]"); nn.push_back("$[?(@.a>" + n + ")]"); nn.push_back("$[?(@.a==" + n + ".50)]"); }
    c.stages.push_back(stage("every-number", "every index and bound up to 600 (thorough: 3000) and around powers of two, and such literals", nn));
    VS lo; for (int n : {1, 2, 10, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8190, 16383, 16384, 16385, 20000}) { string s(n, 'n'); for (string t : {"$.%", "$..%", "$.%.a", "$[?(@.%)]", "$[?(@.%.b==1)].%", "$[?(@.a=='%')]", "$[?(\"%\"!=@.a)]", "$.a[?(@.b&&@.a=='%')].c[1]"}) { size_t at; while ((at = t.find('%')) != string::npos) t.replace(at, 1, s); lo.push_back(t); } string b(n, ' '); lo.push_back("$" + b + "." + b + "a" + b + "[" + b + "1" + b + "]"); }
    for (int n = 1; n <= (th ? 400 : 150); n++) for (string t : {".a", "..b", "[*]", "[1:2]", ".*"}) { string q = "$"; for (int i = 0; i < n; i++) q += t; lo.push_back(q); }
    for (int n = 1; n <= (th ? 300 : 100); n++) { string e = "@.a", f = "@.a", g = "@.a"; for (int i = 0; i < n; i++) { e += i % 2 ? "&&@.b" : "||@.b"; f = "(" + f + ")"; g = "(" + g + "+1)"; } for (auto& x : {e, f, g}) lo.push_back("$[?(" + x + ")].x"); lo.push_back("$[?(" + string(n, '!') + "@.a)]"); }
    c.stages.push_back(stage("long-texts", "names, literals and blanks of every size around powers of two, up to 150 (thorough: 400) steps, up to 100 (300) operators and brackets", lo));
    // what was parsed before
    VS second = {"$", "$.a", "$..a", "$.*", "$..*", "$[*]", "$[0]", "$[1:2]", "$[:2].b", "$[3:]", "$[?(@.a)]", "$[?(!@.a.b)].c", "$.a[?(@.b=='x')].c", "$[?(@.a>-1&&(@.b||@.c))]", "$[?(1+2*3==@.a)]", "$.a[*].b[?(@.c)].d[?(@.e!=\"s\")].f", "$." + string(300, 'n'), "$[?(@.a=='" + string(300, 's') + "')]", "$[?(@.a==123456.789)]"};
    { Stage s; s.name = "histories"; s.rule = "every sequence of three of 19 texts; non-trivial: the tree has more than one node"; auto F = make_shared<VS>(second), G = F; s.ex.units = second.size(); s.ex.hang = 10; s.ex.setup = perturb;
      auto one = [](W& w, const string& x, const string& y, const string& q) { if (!w.begin(Case{{"first", x}, {"then", y}, {"query", q}})) return; jps_parse(x.c_str()); jps_parse(y.c_str()); string want = tree(ref::parseQuery(q)); char* t = jps_tree(jps_parse(q.c_str())); string got = t; free(t); if (want.size() > 1) w.nontrivial(); if (got != want) w.fail("parsed as " + got + " instead of " + want); };
      s.ex.unit = [=](int u, W& w) { for (auto& y : *F) for (auto& q : *G) one(w, (*F)[u], y, q); };
      s.ex.one = [=](const Case& c, W& w) { one(w, c.get("first"), c.get("then"), c.get("query")); }; c.stages.push_back(s); }
    return c;
}
int main(int argc, char** argv) { return run::main_check(argc, argv, make); }
