// C15: no well-formed input makes any engine touch memory it does not own. Built with address and undefined-behaviour
// instrumentation; results are not compared here, only reports of the instrumentation count.
#include "deep.hpp"
#include "spaces.hpp"
using namespace sz; using namespace sp;
extern "C" const char* __asan_default_options() { return "detect_leaks=0:quarantine_size_mb=8:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0"; }
namespace {
Oracle none() { return [](Proc&, const string&) { return VS{"."}; }; }
Body all(const vector<Body>& bs) { return [=](W& w, Proc& p, const string& d) { for (auto& b : bs) b(w, p, d); }; }
}
static run::Check make(const string& tier) {
    bool th = tier == "thorough"; run::Check c; c.id = "C15"; jp::compare() = false;
    c.explanation = "Every case runs the real engines, compiled with AddressSanitizer and UndefinedBehaviorSanitizer, in one way on one input and fails when the instrumentation reports an access outside of an object, to released memory, or undefined arithmetic. Results are not compared (C01-C14).";
    c.assumptions = {"documents are well-formed JSON nested within the documented limits", "overlong shifts, misaligned accesses and conversions from floating point are not reported"};
    auto any = all({serial(none()), parallel({2, 3}, none()), segmented(99, none()), optimized({"{\"a\":[{\"a\":1}]}"}, {2}, 1, none()), bounded({0, 2}, true, none()), partial(2, {0, 2}, none())});
    // sizes first: every capacity
    vector<ModeOf> ms = {{"serial", 0, false, 0}, {"serial", 0, false, 50}, {"parallel", 3, false, 0}, {"parallel", 2, false, 300}, {"optimized", 3, true, 0}}; if (th) ms = modes(true);
    for (auto k : kinds(th)) { if (!th) { vector<int> n; for (int x : k.ns) if (k.ns.size() < 100 || x <= 5 || (x >= 61 && x <= 66) || (x >= 97 && x <= 103) || (x >= 126 && x <= 130) || (x > 150 && x <= 8001)) n.push_back(x); k.ns = n; } c.stages.push_back(stage(k, ms, none())); }
    for (string st : {".a", "[0]", "..a"}) c.stages.push_back(stage(Kind{"long-query" + st, [&] { VS q; for (int n = 0; n <= (th ? 20 : 12); n++) q.push_back(longQuery(st, n)); return q; }(), upto(th ? 14 : 6), [st](int n) { bool o = st != "[0]"; string d; for (int i = 0; i < n; i++) d += o ? "{\"a\":" : "["; d += "\"v\""; for (int i = 0; i < n; i++) d += o ? ",\"b\":\"u\"}" : ",\"t\"]"; return n ? d : "[" + d + "]"; }}, ms, none()));
    VS fq; for (int n = 1; n <= (th ? 16 : 8); n++) { string a; for (int i = 0; i < n; i++) a += string(i ? "&&" : "") + "@.k" + num(i); fq.push_back("$[?(" + a + ")].x"); }
    c.stages.push_back(stage(Kind{"many-variables", fq, {0, 1, 2, 17, 25, 40}, [](int n) { return list(n, [](int i) { string o = "{\"x\":" + num(i); for (int j = 0; j < i % 17; j++) o += ",\"k" + num(j) + "\":" + num((i * 31 + j * 17) % 100 + 1); return o + "}"; }); }}, ms, none()));
    VS nq; for (int n : {1, 63, 64, 65, 100, 256, 1000, 4000, 5000}) { nq.push_back("$." + string(n, 'k')); nq.push_back("$.." + string(n, 'k') + ".a"); nq.push_back("$.r[?(@." + string(n, 'k') + ")].a"); }
    c.stages.push_back(stage(Kind{"query-names", nq, {1, 63, 64, 65, 100, 256, 1000, 4000, 5000}, [](int n) { string s(n, 'k'); return "{\"" + s + "\":{\"a\":1,\"b\":\"t\"},\"r\":[{\"" + s + "\":2,\"a\":\"u\"},{\"a\":2}]}"; }}, ms, none()));
    deep_stages(c, th, true, none());
    // small inputs in every way
    VS qs = paths({".a", ".*", "..a", "[*]", "[1]", "[0:2]"}, 2);
    c.stages.push_back(product("shapes", "all queries of up to 2 of 6 steps with all documents of up to 3 (thorough: 4) nodes: serial, 2 and 3 cores, every set of cuts, learned tables, every footprint, partial runs", qs, docs({"a", "b"}, "s", 1, th ? 4 : 3), any, 60));
    c.stages.push_back(product("bigger-shapes", "serial runs and every single cut on documents of up to 5 nodes", {"$.*", "$..a", "$[*].a", "$.a[1:3]", "$..*", "$.a[*][0]", "$[1:3][0:1]", "$"}, docs({"a", "b"}, "n", 4, th ? 6 : 5), all({serial(none()), segmented(1, none()), partial(1, {0, 2}, none())}), 100));
    c.stages.push_back(product("filters", "filter queries on every list of up to 2 (thorough: 3) records in every way", kRecordQueries, lists(kRecords, 0, 1), any, 20));
    c.stages.push_back(product("filter-lists", "filter queries on lists of 2 (thorough: 3) records, serial, with every single cut", kRecordQueries, lists(kRecords, 2, th ? 3 : 2), all({serial(none()), segmented(1, none()), partial(1, {0}, none())}), 40));
    VS vals = {"", "null", "true", "0", "-1", "2.5", "1e400", "99999999999999999999", "-9223372036854775808", "\"\"", "\"s\"", "{}", "[]", "{\"b\":1}"}, vd, vq;
    for (auto& v : vals) for (auto& u : vals) { string a = v.empty() ? "" : ",\"a\":" + v, b = u.empty() ? "" : ",\"b\":" + u; vd.push_back("{\"r\":[{\"x\":1" + a + b + "},{\"x\":2" + b + a + "}]}"); }
    for (string op : {"==", "<", ">=", "+", "-", "*", "/", "%", "&&", "||"}) for (string l : {"0", "-1", "\"s\"", "@.b"}) { vq.push_back("$.r[?(@.a" + op + l + ")].x"); vq.push_back("$.r[?(" + l + op + "@.a)].x"); vq.push_back("$.r[?(@.a" + op + l + "==@.b)].x"); }
    c.stages.push_back(product("values", "pairs of 14 condition values with 120 conditions, serial", vq, vd, serial(none())));
    VS sd; for (auto& x : words(kStringParts, th ? 3 : 2)) { sd.push_back("{\"a\":\"" + x + "\",\"b\":[\"" + x + "\",1]}"); if (x.size()) sd.push_back("{\"" + x + "\":{\"a\":1},\"b\":[{\"" + x + "\":3,\"c\":[4]}]}"); }
    c.stages.push_back(product("strings", "strings of up to 2 (thorough: 3) of 14 symbols, as values and as names", {"$.a", "$.b[1]", "$.*", "$..c"}, sd, all({serial(none()), segmented(1, none()), bounded({0}, false, none()), optimized({"[]"}, {2}, 0, none())}), 30));
    VS ws; for (auto& d : VS{"{\"a\":1,\"b\":[2,\"x\"]}", "[{\"a\":\"y\"},-3.5,true,null]"}) ws = cat(ws, spaced(d, 1));
    c.stages.push_back(product("white-space", "blanks between the tokens", {"$.a", "$.*", "$[1]", "$.b[1]"}, ws, all({serial(none()), parallel({2, 4}, none()), bounded({0}, false, none())}), 20));
    VS many; for (int n : {1, 5, 16}) { string d; for (int i = 0; i < n; i++) d += (i ? "," : "") + kRecords[i % kRecords.size()]; string o; int m = 0; for (char ch : d) if (ch == '#') o += std::to_string(++m); else o += ch; many.push_back("{\"h\":[1,2,{\"r\":3}],\"r\":[" + o + "],\"t\":{\"x\":[" + o + "]}}"); }
    vector<int> cs; for (int i = 1; i <= 130; i++) cs.push_back(i);
    c.stages.push_back(product("many-cores", "1 to 130 chunks", cat(kRecordQueries, {"$..x", "$.r[3:7]", "$..*"}), many, all({parallel(cs, none()), optimized({"[]"}, cs, 0, none())}), 1));
    VS flat = {"[" + rep("\"s\",", 600) + "1]", "[" + rep("{\"a\":1,\"b\":\"x\"},", 200) + "1]"};
    c.stages.push_back(product("many-chunks", "1 to 130 chunks of lists with more elements than that", {"$[*]", "$..a", "$[*].a", "$[400:]", "$[?(@.a)].b"}, flat, all({parallel(cs, none()), optimized({"[]"}, cs, 0, none())}), 1));
    return c;
}
int main(int argc, char** argv) { return run::main_check(argc, argv, make); }
