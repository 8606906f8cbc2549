// C02: filter queries select exactly what the reference semantics selects.
#include "modes.hpp"
#include "spaces.hpp"
using namespace md; using namespace sp;
static run::Check make(const string& tier) {
    bool th = tier == "thorough"; run::Check c; c.id = "C02";
    c.explanation = "Every case runs the real serialRun on a file and compares the complete output with an independent tree evaluator of filter queries.";
    c.assumptions = {"filters apply to the objects in an array", "documents are well-formed JSON without repeated keys", "cases where an examined element contains further examined elements of the same filter are a known finding and left out"};
    VS rq = kRecordQueries;
    c.stages.push_back(product("shapes", "filter queries prefix x filter x suffix with every array of up to 6 (thorough: 7) nodes over the keys a,b,x; non-trivial: something is selected", cross(cross({"$.r", "$.*", "$..r", "$.r[*]", "$.r[1:]"}, kFilters), kSuffixes), arrays({"a", "b", "x"}, th ? "n" : "nt", 1, th ? 7 : 6), serial()));
    c.stages.push_back(product("records", "every list of up to 4 (thorough: 5) of 12 kinds of records", rq, lists(kRecords, 0, th ? 5 : 4), serial()));
    VS vals = {"", "null", "true", "false", "0", "1", "-1", "2.5", "-0.5", "1e1", "\"\"", "\"s\"", "\"1\"", "\"true\"", "{}", "[]", "{\"b\":1}", "[1]"}; VS vd, vq;
    for (auto& v : vals) for (auto& u : vals) { string a = v.empty() ? "" : "\"a\":" + v, b = u.empty() ? "" : "\"b\":" + u; auto join = [](VS p) { string o; for (auto& s : p) if (!s.empty()) o += (o.empty() ? "" : ",") + s; return "{" + o + "}"; };
        vd.push_back("{\"r\":[" + join({a, "\"x\":1", b}) + "," + join({"\"x\":2", b, a}) + "," + join({a, b, "\"x\":3"}) + "]}"); }
    for (string op : {"==", "!=", "<", ">", "<=", ">="}) { for (string l : {"0", "1", "2.5", "\"s\"", "\"\"", "\"1\"", "@.b"}) { vq.push_back("$.r[?(@.a" + op + l + ")].x"); } for (string l : {"1", "\"s\""}) vq.push_back("$.r[?(" + l + op + "@.a)].x"); }
    for (string e : {"@.a", "!@.a", "@.a&&@.b", "@.a||@.b", "!@.a||@.b", "!(@.a&&@.b)", "@.a+@.b==2", "@.a-@.b>0", "@.a*2>@.b", "@.a/2==0.5", "@.a%2==1", "@.a+1", "@.a-1", "@.a==@.b&&@.x>1", "@.a==@.b||@.x>2", "@.a.b==1"}) vq.push_back("$.r[?(" + e + ")].x");
    c.stages.push_back(product("values", "every pair of 18 condition values, before, around and after the selected value, with 70 conditions", vq, vd, serial()));
    VS bits; for (int n = 1; n <= (th ? 12 : 9); n++) for (int m = 0; m < (1 << n); m++) { string d; for (int i = 0; i < n; i++) d += string(i ? "," : "") + "{\"x\":" + std::to_string(i) + ((m >> i & 1) ? ",\"a\":1}" : "}"); bits.push_back("{\"r\":[" + d + "],\"s\":[{\"x\":99,\"a\":1}]}"); }
    c.stages.push_back(product("selections", "every subset of up to 9 (thorough: 12) elements passes", {"$.r[?(@.a)].x", "$.r[?(!@.a)].x", "$.r[?(@.a)]", "$..r[?(@.a)].x", "$.r[2:5][?(@.a)].x", "$.*[?(@.a)].x"}, bits, serial()));
    VS nest = lists({"{\"a\":#,\"x\":[{\"b\":#,\"x\":#}]}", "{\"x\":[{\"b\":#,\"x\":#},{\"x\":#}],\"a\":1}", "{\"x\":[{\"x\":#,\"b\":#},{\"x\":#,\"b\":#}]}", "{\"x\":[],\"a\":1}", "{\"a\":1,\"x\":{\"b\":1}}", "{\"x\":[{\"x\":[{\"a\":1,\"x\":#},{\"x\":#}],\"b\":#}],\"a\":#}", "{\"b\":0,\"x\":[{\"b\":0,\"x\":#}],\"a\":0}"}, 0, th ? 5 : 4);
    VS nq; for (string f : {"@.a", "!@.a", "@.a&&@.b==0"}) for (string g : {"@.b", "!@.b", "@.b>2", "@.b&&@.x"}) for (string s : {".x", "", ".*", ".b", ".x[?(@.a)].x", "..x"}) nq.push_back("$.r[?(" + f + ")].x[?(" + g + ")]" + s);
    c.stages.push_back(product("nested-filters", "two and three filters on a path, every list of up to 4 (thorough: 5) of 7 nested records", nq, nest, serial()));
    // names that contain, begin or end with each other, as variables, as parts of variables and as what is selected
    VS nm = {"a", "ab", "abc", "b", "ba", "A"}, vn, vnd; for (auto& x : nm) for (auto& y : nm) { if (x != y) { for (string op : {"&&", "||"}) vn.push_back("$.r[?(@." + x + "==1" + op + "@." + y + "==2)].x"); vn.push_back("$.r[?(@." + x + "<@." + y + ")].x"); } vn.push_back("$.r[?(@." + x + "." + y + "==1)].x"); vn.push_back("$.r[?(@." + x + "." + y + "==1||@." + x + "==2||@." + y + ")].x"); vn.push_back("$.r[?(@." + x + "==1)]." + y); }
    for (auto& x : nm) for (auto& y : nm) if (x < y) for (string u : {"1", "2"}) for (string v : {"1", "2"}) { string a = "\"" + x + "\":" + u, b = "\"" + y + "\":" + v, n = "\"" + x + "\":{\"" + y + "\":" + u + "}", o = "\"" + y + "\":{\"" + x + "\":" + v + "}"; vnd.push_back("{\"r\":[{" + a + "," + b + ",\"x\":1},{" + b + ",\"x\":2," + a + "},{\"x\":3," + a + "},{\"x\":4," + b + "},{" + n + ",\"x\":5," + b + "},{" + o + "," + a + ",\"x\":6},{" + n + "," + o + ",\"x\":7}]}"); }
    c.stages.push_back(product("names", "two variables and a selected name out of 6 names that contain each other", vn, vnd, serial()));
    // characters of values, names and literals
    VS ch; for (auto& x : characters()) { ch.push_back("{\"r\":[{\"a\":\"" + x + "\",\"x\":1},{\"x\":\"" + x + "\",\"a\":1},{\"x\":\"b" + x + "\",\"b\":\"b" + x + "\",\"a\":\"b\"},{\"a\":\"" + x + x + "\",\"x\":[\"" + x + "\"]}]}"); if (x != "a" && x != "x" && x != "r" && x != "b") ch.push_back("{\"" + x + "\":[{\"a\":7}],\"r\":[{\"" + x + "\":2,\"x\":1},{\"a\":1,\"" + x + "\":{\"a\":false},\"x\":\"v\"},{\"x\":{\"" + x + "\":1,\"a\":0},\"b\":{\"" + x + "\":1,\"a\":0},\"a\":{\"" + x + "\":1,\"a\":0}}]}"); }
    c.stages.push_back(product("characters", "every character a string can hold in values and names of examined elements", {"$.r[?(@.a)].x", "$.r[?(@.a=='b')].x", "$.r[?(@.a!='{')]", "$.r[?(@.a<'b')].x", "$.r[?(@.x==@.b)].a", "$.r[?(@.a>='~')].x", "$.r[?(!@.a.a)].x", "$.*[?(@.a)].a", "$.r[?(@.a)].*", "$..x[?(@.a)]"}, ch, serial()));
    VS lit, lv; for (int b = 0x20; b < 0x7f; b++) if (b != '\'' && b != '"' && b != '\\') for (string op : {"==", "!=", "<", ">="}) { lit.push_back("$.r[?(@.a" + op + "'" + string(1, b) + "')].x"); lit.push_back("$.r[?(@.a" + op + "\"k" + string(1, b) + "k\")].x"); }
    { string d; for (int b = 0x20; b < 0x7f; b++) if (b != '"' && b != '\\') { d += string(d.empty() ? "" : ",") + "{\"a\":\"" + string(1, b) + "\",\"x\":" + std::to_string(b) + "},{\"x\":\"" + std::to_string(b) + "\",\"a\":\"k" + string(1, b) + "k\"}"; } lv.push_back("{\"r\":[" + d + "]}"); }
    c.stages.push_back(product("literals", "every printable character in literals of both kinds against every printable character", lit, lv, serial(), 1));
    VS sp2; for (string d : {"{\"r\":[{\"a\":1,\"x\":\"s\"},{\"x\":2}]}", "{\"r\":[{\"x\":[{\"b\":1}],\"a\":{\"b\":true}}]}", "{\"r\":[[1],{\"a\":-2,\"x\":{}}]}"}) sp2 = cat(sp2, spaced(d, th ? 3 : 2));
    c.stages.push_back(product("blanks", "up to 2 (thorough: 3) blanks of 7 kinds between the tokens", {"$.r[?(@.a)].x", "$.r[?(@.a)]", "$.r[?(@.a.b)].x[?(@.b)]", "$.r[?(@.a==1)].x", "$.r[?(@.a<0)].x", "$.r[?(!@.a)].*"}, sp2, serial()));
    // positions of elements, of what is selected in them, and of filters in the document
    vector<int> ps = magnitudes(th ? 66000 : 4200); VS pd; for (int n : ps) { string a; for (int i = 0; i <= n + 1; i++) a += string(i ? "," : "") + (i + 3 < n ? "0" : "{\"a\":" + std::to_string(i - n) + ",\"x\":" + std::to_string(i) + "}"); pd.push_back("{\"r\":[" + a + "]}"); }
    c.stages.push_back(product("late-elements", "examined elements at positions around powers of two and ten", {"$.r[?(@.a)].x", "$.r[?(@.a==0)].x", "$.r[?(@.a<0)]", "$.*[?(!@.a)].x", "$.r[?(@.a>0)].*"}, pd, serial(), 4));
    VS mq, md2; for (int n : ps) { if (n > 1030) continue; string s = std::to_string(n); for (string f : {"[" + s + "]", "[" + s + ":]", "[:" + s + "]"}) mq.push_back("$.r[?(@.a)].x" + f); string xs, ms; for (int i = 0; i <= n; i++) { xs += (i ? "," : "") + std::to_string(i); ms += ",\"m" + std::to_string(i) + "\":[" + std::to_string(i) + "]"; } md2.push_back("{\"r\":[{\"x\":[" + xs + "],\"a\":1},{\"x\":[" + xs + "]},{\"a\":1,\"x\":[5," + xs + "]}" "]}"); md2.push_back("{\"r\":[{\"x\":[1]" + ms + ",\"a\":1},{\"a\":2" + ms + ",\"x\":[2,3]}]}"); }
    mq = cat(mq, {"$.r[?(@.a)].x[*]", "$.r[?(@.a)].*", "$.r[?(@.a==2)]..x", "$.r[?(!@.a)].x"}); c.stages.push_back(product("late-matches", "matches at positions around powers of two and ten in examined elements, and between so many members", mq, md2, serial(), 4));
    VS dq, dd; for (int n = 0; n <= 30; n++) { string q = "$", r = "$", d, e; for (int i = 0; i < n; i++) { q += ".a"; r += "[*]"; } string in = "[{\"x\":1,\"a\":2},{\"x\":2},{\"a\":0,\"x\":[{\"b\":1}]}]"; for (string f : {"[?(@.a)].x", "[?(!@.a)].x", "[?(@.a>1)]", "[?(@.a)].x[?(@.b)]"}) { dq.push_back(q + f); dq.push_back(r + f); } string d1 = in, d2 = in; for (int i = 0; i < n; i++) { d1 = "{\"a\":" + d1 + ",\"b\":[{\"a\":1,\"x\":9}]}"; d2 = "[" + d2 + ",{\"a\":1,\"x\":" + std::to_string(100 + i) + "}]"; } dd.push_back(d1); dd.push_back(d2); }
    c.stages.push_back(product("levels", "filters on every level up to 30 of objects and arrays", dq, dd, serial()));
    // how much a filter examines
    VS xq, xd; for (int n = 1; n <= (th ? 90 : 45); n++) for (string op : {"&&", "||"}) for (string t : {"", ">1", ".b"}) { string e; for (int i = 0; i < n; i++) e += (i ? op : "") + "@.v" + std::to_string(i) + t; xq.push_back("$.r[?(" + e + ")].x"); }
    for (int n : {1, 2, 3, 5, 10, 20, 40, 45, 80, 90}) for (int miss : {-1, 0, n / 2, n - 1}) for (string v : {"1", "2", "{\"b\":1}"}) { string a, b; for (int i = 0; i < n; i++) if (i != miss) { a += ",\"v" + std::to_string(i) + "\":" + v; b = ",\"v" + std::to_string(i) + "\":" + v + b; } xd.push_back("{\"r\":[{\"x\":1" + a + "},{" + (b.empty() ? "" : b.substr(1) + ",") + "\"x\":2},{\"x\":3}]}"); }
    c.stages.push_back(product("many-variables", "filters of up to 45 (thorough: 90) variables, all there or one of them missing, in both orders", xq, xd, serial()));
    VS lq, ld; for (int n : magnitudes(th ? 66000 : 4200)) { string s(n, 'v'), t = s; t.back() = 'w'; lq.push_back("$.r[?(@.a=='" + s + "')].x"); lq.push_back("$.r[?(@.a<'" + t + "')].x"); ld.push_back("{\"r\":[{\"a\":\"" + s + "\",\"x\":1},{\"x\":\"" + s + "\",\"a\":\"" + t + "\"},{\"a\":\"" + s.substr(1) + "\",\"b\":\"" + s + "\",\"x\":[\"" + t + "\"]}]}"); }
    lq = cat(lq, {"$.r[?(@.a)].x", "$.r[?(@.a==@.b)].x", "$.r[?(@.x==@.b)].a", "$.r[?(@.a>@.b)]", "$.r[?(@.a!=@.x)].a"}); c.stages.push_back(product("long-values", "values and literals of sizes around powers of two and ten", lq, ld, serial(), 4));
    c.stages.push_back(findings());
    return c;
}
int main(int argc, char** argv) { return run::main_check(argc, argv, make); }
