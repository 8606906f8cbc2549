// C07: a well-formed input is cut into exactly its tokens, with their texts and positions.
#include "modes.hpp"
#include "spaces.hpp"
using namespace md; using namespace sp;
namespace {
struct Tok { int kind; string text; size_t b, e; };         // e: behind the token (a name: behind its colon)
bool blank(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
vector<Tok> tokens(const string& d, size_t at) {
    vector<Tok> o;
    for (size_t i = at; i < d.size();) {
        if (blank(d[i])) { i++; continue; }
        size_t b = i; size_t k = string("{}[],").find(d[i]);
        if (k != string::npos) { o.push_back({(int)k + 1, "", b, ++i}); continue; }
        if (d[i] == '"') { i++; while (i < d.size() && d[i] != '"') i += d[i] == '\\' ? 2 : 1; i++; size_t j = i; while (j < d.size() && blank(d[j])) j++;
            if (j < d.size() && d[j] == ':') { o.push_back({6, d.substr(b + 1, i - b - 2), b, j + 1}); i = j + 1; } else o.push_back({7, d.substr(b, i - b), b, i}); continue; }
        while (i < d.size() && !blank(d[i]) && !strchr(",}]", d[i])) i++;
        o.push_back({7, d.substr(b, i - b), b, i});
    }
    return o;
}
string show(int k, const string& t) { static const char* n[] = {"", "{", "}", "[", "]", ",", "name ", "value "}; return k < 1 || k > 7 ? "end" : string(n[k]) + t; }
void check(W& w, const string& d, int skip = 0) {
    if (!w.begin(Case{{"text", d}, {"skip", std::to_string(skip)}})) return;
    auto want = tokens(d, skip); if (want.size() > 1) w.nontrivial();
    char* s = strdup(d.c_str()); void* l = jps_lex_new(s, skip); bool ok = true;
    for (size_t i = 0; i <= want.size() + 1 && ok; i++) {
        const char* c; long next; int k = jps_lex_next(l, &c, &next); string t = c ? c : "";
        if (i >= want.size()) { if (k != -1) { w.fail("a token behind the end: " + show(k, t)); ok = false; } continue; }
        auto& x = want[i]; size_t lim = i + 1 < want.size() ? want[i + 1].b : d.size();
        if (k != x.kind || t != x.text) { w.fail("token " + std::to_string(i + 1) + " is " + show(k, t) + " instead of " + show(x.kind, x.text)); ok = false; }
        else if (next < (long)x.e || next > (long)lim || (x.kind <= 5 && next != (long)x.e)) { w.fail("after token " + std::to_string(i + 1) + ", which ends at " + std::to_string(x.e) + ", the position is " + std::to_string(next)); ok = false; }
    }
    if (ok && d != s) w.fail("the input was changed");
    jps_lex_free(l); free(s);
}
const VS kBlank = {"", " ", "\n", "\t", "\r\n"};
// every sequence of up to len tokens with up to `gaps` blanks (in front, between, behind, before and after colons)
Stage sequences(const string& name, const string& rule, const VS& alpha, int len, int gaps) {
    Stage s; s.name = name; s.rule = rule + "; non-trivial: more than one token"; auto al = make_shared<VS>(alpha); size_t n = alpha.size();
    s.ex.units = n * n; s.ex.hang = 20; s.ex.setup = perturb;
    auto gen = [=](vector<string> h, W& w, size_t first) {                 // h: the tokens chosen so far
        vector<string> parts; std::function<void()> all;
        auto emit = [&](const vector<string>& toks) {
            vector<string> p; for (auto& t : toks) { if (t.back() == ':') { p.push_back(t.substr(0, t.size() - 1)); p.push_back(":"); } else p.push_back(t); }
            string o; std::function<void(size_t, int)> go = [&](size_t i, int left) {
                size_t z = o.size();
                for (size_t b = 0; b < (left ? kBlank.size() : 1); b++) {
                    bool prim = i > 0 && i < p.size() && !strchr("\"{}[],:", p[i - 1][0]) && strchr("\"{[", p[i][0]); bool two = i > 0 && i < p.size() && !strchr("\"{}[],:", p[i - 1][0]) && !strchr("\"{}[],:", p[i][0]);
                    string bl = kBlank[b]; if (!b && (prim || two)) bl = " ";
                    o += bl; if (i < p.size()) { o += p[i]; go(i + 1, left - (b ? 1 : 0)); } else check(w, o);
                    o.resize(z); } };
            go(0, gaps); };
        all = [&] { if (h.size() >= first) emit(h); if ((int)h.size() < len) for (auto& a : *al) { h.push_back(a); all(); h.pop_back(); } };
        all(); };
    s.ex.unit = [=](int u, W& w) { if (u % n == 0) { auto h = vector<string>{(*al)[u / n]}; if (u == 0) { for (auto& b : kBlank) check(w, b); } 
            string t = h[0]; for (auto& b : kBlank) for (auto& c : kBlank) if (t.back() == ':') for (auto& m : kBlank) check(w, b + t.substr(0, t.size() - 1) + m + ":" + c); else check(w, b + t + c); }
        if (len >= 2) gen({(*al)[u / n], (*al)[u % n]}, w, 2); };
    s.ex.one = [](const Case& c, W& w) { check(w, c.get("text"), c.geti("skip")); };
    return s;
}
}
static run::Check make(const string& tier) {
    bool th = tier == "thorough"; run::Check c; c.id = "C07";
    c.explanation = "Every case reads all tokens of one text with the real lexer and compares kind, text and position of each with an independent tokenizer; behind the end the lexer must stay at the end.";
    c.assumptions = {"primitives are followed by a blank, a closing bracket, a comma or the end, as in well-formed JSON", "after a string or a name the position may stand anywhere in the blanks behind it"};
    VS alpha = {"{", "}", "[", "]", ",", "\"a\":", "\"k\\\"\":", "\"\"", "\"s\"", "\"\\\\\"", "\"}\\\",\"", "1", "-2.5e3", "true"};
    c.stages.push_back(sequences("sequences", "every sequence of up to 5 (thorough: 6) of 14 tokens with up to 1 of 5 blanks", alpha, th ? 6 : 5, 1));
    c.stages.push_back(sequences("blanks", "every sequence of up to 3 tokens with up to 3 (thorough: any number of) blanks", alpha, 3, th ? 9 : 3));
    c.stages.push_back(sequences("long-sequences", "every sequence of up to 8 (thorough: 10) of 5 tokens", {"[", "}", ",", "\"a\":", "1"}, th ? 10 : 8, 0));
    VS sd; for (auto& x : words(kStringParts, th ? 5 : 4)) { sd.push_back("\"" + x + "\""); sd.push_back("{\"" + x + "\":\"" + x + "\",\"" + x + "\" : 1}"); }
    auto plain = [](W& w, const string& d) { check(w, d); };
    c.stages.push_back(each("strings", "every string of up to 4 (thorough: 5) of 14 symbols as a value and as a name", sd, plain));
    VS ch = characters(), cd; for (auto& x : ch) for (auto& y : ch) if (&x == &ch[0] || (x.size() == 1 && y.size() == 1)) cd.push_back("{\"" + x + y + "\":[\"" + y + x + "\",\"" + x + "\"]}");
    c.stages.push_back(each("characters", "every pair of ASCII characters, every escape, every two-byte and some longer UTF-8 sequences in names and values", cd, plain));
    c.stages.push_back(each("documents", "every document of up to 5 nodes in 4 layouts", docs({"a", "b"}, "nmst", 1, th ? 5 : 4, {0, 1, 2, 3}), plain));
    VS nu; for (string s : {"", "-"}) for (string i : {"0", "7", "10", "123456789012345678901"}) for (string f : {"", ".5", ".25", ".000"}) for (string e : {"", "e3", "E+10", "e-7"}) for (string z : {"", ",", "]", "}", " ", "\n", "\t", "\r\n", ",1", "]]", " ,"}) nu.push_back("[" + s + i + f + e + z);
    for (string l : {"true", "false", "null"}) for (string z : {"", ",", "]", "}", " ", "\n", "\t", "\r\n"}) nu.push_back(l + z);
    c.stages.push_back(each("primitives", "every primitive before every delimiter", nu, plain));
    VS lg; vector<int> ns; for (int i = 0; i <= (th ? 400 : 70); i++) ns.push_back(i); for (int m : {100, 999, 1000, 3990, 4000, 8000, 16000, 32000, 100000}) for (int i = m - 8; i < m + 8; i++) ns.push_back(i);
    for (int n : ns) { string x(n, 'x'), e; for (int i = 0; i < n / 2; i++) e += "\\\""; lg.push_back("{\"" + x + "\":\"" + x + "\",\"a\":[1" + string(n, '0') + ",\"" + e + "\"," + string(n, ' ') + "\"b\"" + string(n, ' ') + "]" + string(n, '\n') + "}"); lg.push_back("[\"" + x + "x\",\"" + x + x + "\",\"" + x + "\",\"a\",1" + string(2 * n, '2') + "]"); lg.push_back("\"" + e + "\"" + string(n, ' ') + ":" + x + "1"); }
    c.stages.push_back(each("sizes", "texts and blanks of every length up to 70 (thorough: 400) and around capacities up to 100000", lg, plain, "texts", 4));
    VS sk = docs({"a", "b"}, "ns", 1, th ? 5 : 4, {0, 1});
    Stage s = each("skipped", "reading begins behind every number of characters up to which the input has been processed", sk, [](W& w, const string& d) { for (auto& t : tokens(d, 0)) for (size_t at : {t.b, t.e}) check(w, d, at); }); s.ex.one = [](const Case& c, W& w) { check(w, c.get("text"), c.geti("skip")); };
    c.stages.push_back(s);
    VS rn; for (auto& x : runs(th ? 100 : 40, {63, 64, 65, 127, 128, 129, 255, 256, 257, 1000})) { rn.push_back("[\"" + x + "\",\"" + x + "\"]"); rn.push_back("{\"" + x + "\":1,\"a\" : \"" + x + "\"}"); }
    c.stages.push_back(each("repetitions", "strings and names that repeat one of 9 units up to 40 (thorough: 100) and around 64, 128, 256 and 1000 times", rn, plain));
    return c;
}
int main(int argc, char** argv) { return run::main_check(argc, argv, make); }
