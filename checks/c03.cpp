// C03: a filter condition evaluates to the value its operators have on the values found.
#include "modes.hpp"
#include "spaces.hpp"
using namespace md; using namespace sp;
namespace {
const VS kOps = {"||", "&&", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%"};
// texts of condition values; "(none)": the name does not occur
void check(W& w, const string& expr, const VS& names, const vector<VS>& values) {
    void* f = nullptr; ref::Ex ex; bool parsed = false; vector<size_t> at(values.size(), 0); string q = "$[?(" + expr + ")]";
    for (;;) {
        Case c{{"filter", expr}}; for (size_t i = 0; i < names.size(); i++) c.f.push_back({names[i], values[i][at[i]]});
        if (!parsed) { ex = *ref::parseQuery(q)[0].ex; parsed = true; }
        auto look = [&](const vector<string>& path) -> ref::V { string n; for (auto& k : path) n += (n.empty() ? "" : ".") + k; for (size_t i = 0; i < names.size(); i++) if (names[i] == n && values[i][at[i]] != "(none)") { ref::J j = ref::parseJson(values[i][at[i]]); return ref::valueOf(j, values[i][at[i]]); } return ref::V(); };
        ref::outOfDomain() = false; bool want = ref::truth(ref::evalEx(ex, look));
        if (!ref::outOfDomain() && w.begin(c)) {
            if (!f) f = jps_filter(q.c_str());
            vector<const char*> n, t; for (size_t i = 0; i < names.size(); i++) { n.push_back(names[i].c_str()); t.push_back(values[i][at[i]] == "(none)" ? nullptr : values[i][at[i]].c_str()); }
            bool got = jps_eval(f, n.data(), t.data(), n.size());
            if (want) w.nontrivial();
            if (got != want) w.fail(string("evaluates to ") + (got ? "true" : "false") + " instead of " + (want ? "true" : "false"));
        }
        size_t k = 0; while (k < at.size() && ++at[k] == values[k].size()) at[k++] = 0;
        if (k == at.size()) return;
    }
}
Stage stage(const string& name, const string& rule, const VS& exprs, const VS& names, const vector<VS>& values) {
    Stage s; s.name = name; s.rule = rule + " (" + std::to_string(exprs.size()) + " conditions); non-trivial: the condition holds"; auto e = make_shared<VS>(exprs); size_t block = 50;
    s.ex.units = (e->size() + block - 1) / block; s.ex.hang = 10; s.ex.setup = perturb;
    s.ex.unit = [=](int u, W& w) { for (size_t i = u * block; i < std::min(e->size(), (u + 1) * block); i++) check(w, (*e)[i], names, values); };
    s.ex.one = [=](const Case& c, W& w) { vector<VS> v; for (auto& n : names) v.push_back({c.get(n)}); check(w, c.get("filter"), names, v); };
    return s;
}
}
static run::Check make(const string& tier) {
    bool th = tier == "thorough"; run::Check c; c.id = "C03";
    c.explanation = "Every case parses the text of a condition with the real parser and evaluates it with the real evaluator on a table of condition texts; the verdict is compared with an independent parser and evaluator.";
    c.assumptions = {"remainders of values outside of 64-bit integers are not compared"};
    VS big = {"(none)", "null", "true", "false", "0", "1", "-1", "2", "2.5", "-0.5", "1e1", "10", "\"\"", "\"s\"", "\"1\"", "\"true\"", "\"null\"", "{}", "[]", "{\"b\":1}"}, small = {"(none)", "null", "true", "false", "0", "1", "-2", "2.5", "\"s\"", "{}"};
    VS atoms = {"@.a", "@.b", "@.c.d", "0", "1", "2.5", "-1", "\"s\"", "'1'", "\"\""}, un; for (auto& a : atoms) { un.push_back(a); un.push_back("!" + a); un.push_back("!(" + a + ")"); un.push_back("!!" + a); }
    c.stages.push_back(stage("atoms", "a variable or a literal with up to two negations, with all 20 x 20 x 10 values", un, {"a", "b", "c.d"}, {big, big, small}));
    VS one; for (auto& x : atoms) for (auto& y : atoms) for (auto& o : kOps) { one.push_back(x + o + y); one.push_back("!" + x + o + y); one.push_back(x + o + "!" + y); one.push_back("!(" + x + o + y + ")"); }
    c.stages.push_back(stage("one-operator", "every operator between 10 atoms, with negations, with 20 x 20 x 3 values", one, {"a", "b", "c.d"}, {big, big, {"(none)", "1", "\"s\""}}));
    VS two, at2 = {"@.a", "@.b", "1", "\"s\"", "@.a.b"}; for (auto& o : kOps) for (auto& p : kOps) for (auto& x : at2) for (auto& y : at2) for (auto& z : at2) { two.push_back(x + o + y + p + z); if (th || (z != "\"s\"" && x != "\"s\"")) { two.push_back("(" + x + o + y + ")" + p + z); two.push_back(x + o + "(" + y + p + z + ")"); } }
    c.stages.push_back(stage("two-operators", "every pair of operators between 5 atoms, plain and bracketed, with 10 x 10 x 3 values", two, {"a", "b", "a.b"}, {small, small, {"(none)", "1", "2.5"}}));
    VS three; for (auto& o : kOps) for (auto& p : kOps) for (auto& r : kOps) { three.push_back("@.a" + o + "@.b" + p + "1" + r + "@.c"); three.push_back("@.a" + o + "!@.b" + p + "@.c" + r + "2"); if (th) { three.push_back("(@.a" + o + "@.b)" + p + "(@.c" + r + "2)"); three.push_back("!(@.a" + o + "@.b" + p + "1)" + r + "@.c"); } }
    c.stages.push_back(stage("three-operators", "every triple of operators, with 10 x 10 x 4 values", three, {"a", "b", "c"}, {small, small, {"(none)", "1", "2", "\"s\""}}));
    if (th) { VS four; for (auto& o : kOps) for (auto& p : kOps) for (auto& r : kOps) for (auto& t : kOps) four.push_back("@.a" + o + "@.b" + p + "1" + r + "@.c" + t + "@.a"); c.stages.push_back(stage("four-operators", "every quadruple of operators, with 6 x 6 x 3 values", four, {"a", "b", "c"}, {{"(none)", "true", "0", "1", "-2", "\"s\""}, {"(none)", "true", "0", "1", "-2", "\"s\""}, {"(none)", "1", "2.5"}})); }
    // values that differ little, or in kind only
    VS close = {"(none)", "null", "true", "false", "{}", "[]", "{\"a\":1}", "[1]", "[ ]", "{ }", "[\"a\"]",
        "0", "-0", "0.0", "1", "1.0", "9", "10", "100", "-1", "-10", "-9", "0.1", "0.2", "0.3", "0.30000000000000004", "1e-7", "1e-320", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "16777216", "16777217", "9007199254740991", "9007199254740992", "9007199254740994", "1e10", "1E10", "1e+10", "10000000000", "1e300", "1e308", "-1e308", "1e-300", "123456789012345678901234567890", "3.14", "3.140", "0.5e1", "5", "5.0000001", "0.99999999999999999",
        "\"\"", "\" \"", "\"a\"", "\"b\"", "\"aa\"", "\"ab\"", "\"A\"", "\"a \"", "\" a\"", "\"1\"", "\"10\"", "\"9\"", "\"-1\"", "\"true\"", "\"null\"", "\"{\"", "\"}\"", "\"[\"", "\"\xc3\xa9\"", "\"\\n\"", "\"\\\"\"", "\"\\\\\"", "\"" + string(1000, 'l') + "\"", "\"" + string(1000, 'l') + "m\"", "\"" + string(999, 'l') + "m\"", "\"m" + string(999, 'l') + "\""};
    VS rel; for (auto& o : kOps) { rel.push_back("@.a" + o + "@.b"); rel.push_back("@.b" + o + "@.a"); rel.push_back("!(@.a" + o + "@.b)"); rel.push_back("(@.a" + o + "@.b)==@.a"); rel.push_back("@.a" + o + "@.a"); }
    c.stages.push_back(stage("close-values", "every operator between all pairs of " + std::to_string(close.size()) + " values: numbers around limits of precision and range, strings that differ in one place, empty and filled containers", rel, {"a", "b"}, {close, close}));
    VS lits; for (string n : {"0", "1", "1.0", "9", "10", "100", "0.1", "0.3", "2147483647", "2147483648", "4294967296", "16777217", "9007199254740991", "9007199254740994", "10000000000", "123456789012345678901234567890", "3.14", "5", "5.0000001"}) for (auto& o : kOps) { lits.push_back("@.a" + o + n); lits.push_back(n + o + "@.a"); lits.push_back("-" + n + o + "@.a"); lits.push_back("@.a" + o + "-" + n); }
    for (string t : {"", " ", "a", "b", "aa", "ab", "A", "a ", " a", "1", "10", "9", "-1", "true", "null", "{", "}", "[", "\xc3\xa9"}) for (string o : {"==", "!=", "<", ">=", "&&", "||", "+"}) { lits.push_back("@.a" + o + "'" + t + "'"); lits.push_back("\"" + t + "\"" + o + "@.a"); }
    lits.push_back("@.a=='" + string(1000, 'l') + "'"); lits.push_back("@.a!='" + string(999, 'l') + "m'");
    c.stages.push_back(stage("close-literals", "number and string literals against the same values", lits, {"a"}, {close}));
    VS sums; for (string o : {"+", "-", "*", "/", "%"}) for (string p : {"==", "<", ">", "<=", ">=", "!="}) { sums.push_back("@.a" + o + "@.b" + p + "@.c"); sums.push_back("@.c" + p + "@.a" + o + "@.b"); for (string q : {"+", "-", "*", "/", "%"}) sums.push_back("@.a" + o + "@.b" + q + "@.c" + p + "2"); }
    VS nums = {"0", "1", "-1", "2", "3", "0.5", "-2.5", "7", "10", "1e10", "0.1", "0.2", "0.30000000000000004", "3000000000", "-7"};
    c.stages.push_back(stage("sums", "one and two calculations and a comparison, with all triples of 15 numbers", sums, {"a", "b", "c"}, {nums, nums, nums}));
    // filters with many names: every variable is looked up by its own name
    VS mv; for (int n : {2, 3, 5, 10, 20, 40}) for (string op : {"&&", "||"}) { string e; for (int i = 0; i < n; i++) e += (i ? op : "") + (i == n - 1 ? "@.a>1" : i == n / 2 ? "@.b" : "@.v" + std::to_string(i) + (op == "&&" ? "==1" : ">1")); mv.push_back(e); }
    { VS names = {"a", "b"}; vector<VS> vals = {{"(none)", "1", "2", "\"s\""}, {"(none)", "true", "0"}}; for (int i = 0; i < 40; i++) { names.push_back("v" + std::to_string(i)); vals.push_back({"1"}); } c.stages.push_back(stage("many-names", "conditions of up to 40 variables of which two vary", mv, names, vals)); }
    return c;
}
int main(int argc, char** argv) { return run::main_check(argc, argv, make); }
