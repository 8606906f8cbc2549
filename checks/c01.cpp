// C01: structural queries select exactly the values of the reference semantics, verbatim, in document order.
#include "modes.hpp"
#include "spaces.hpp"
using namespace md; using namespace sp;
static run::Check make(const string& tier) {
    bool th = tier == "thorough"; run::Check c; c.id = "C01";
    c.explanation = "Every case runs the real serialRun on a file and compares the complete output, element by element, with an independent tree evaluator.";
    c.assumptions = {"documents are well-formed JSON with an object or an array at the top and no repeated keys in an object", "value of a case: the text, order and number of results; slices below a descendant step are explored where pruning of out-of-range elements cannot be observed (known finding)"};
    VS steps = {".a", ".b", ".*", "..a", "..*", "[*]", "[0]", "[1]", "[0:2]", "[1:2]", "[1:]", "[:1]", "[0:0]"};
    c.stages.push_back(product("shapes", "all queries of up to 2 of 13 steps with all documents of up to 6 (thorough: 7) nodes over keys a,b; non-trivial: something is selected", paths(steps, 2), docs({"a", "b"}, "ns", 1, th ? 7 : 6), serial()));
    c.stages.push_back(product("deeper-queries", "all queries of 3 of 8 steps with all documents of up to 5 nodes", [&] { VS q = paths({".a", ".*", "..a", "..*", "[*]", "[0]", "[1:2]", "[1:]"}, 3); q.erase(q.begin(), q.begin() + 1 + 8 + 64); return q; }(), docs({"a", "b"}, "n", 1, th ? 6 : 5), serial()));
    c.stages.push_back(product("bigger-docs", "selected queries with all documents of 7 (thorough: 8) nodes", {"$.*", "$..a", "$[*].a", "$.a[1:3]", "$..*", "$.a.b", "$[1].*", "$..a..b", "$.a[*][0]", "$[1:3][0:1]", "$.*.*.*"}, docs({"a", "b"}, "n", 7, th ? 8 : 7), serial()));
    c.stages.push_back(product("styles", "leaf kinds and layouts", paths({".a", ".*", "..a", "[*]", "[1]"}, 2), docs({"a", "b"}, "nmstfz", 1, th ? 4 : 3, {0, 1, 2, 3}), serial()));
    VS ws; for (auto& d : VS{"{\"a\":1,\"b\":[2,\"x\"]}", "[{\"a\":\"y\"},-3.5,true,null]", "{\"a\":{\"b\":{}},\"c\":[]}"}) ws = cat(ws, spaced(d, th ? 3 : 2));
    c.stages.push_back(product("white-space", "every placement of up to 2 (thorough: 3) of 7 blank sequences between the tokens of 3 documents", {"$.a", "$.*", "$..*", "$[*]", "$[1]", "$.b[1]", "$..b"}, ws, serial()));
    VS sd; VS wl = words(kStringParts, th ? 4 : 3);
    for (auto& x : wl) { sd.push_back("{\"a\":\"" + x + "\",\"b\":[\"" + x + "\",1]}"); if (x != "a" && x != "b" && x != "c" && x.size()) sd.push_back("{\"" + x + "\":{\"a\":1},\"a\":2,\"b\":[{\"" + x + "\":3,\"c\":[4]}]}"); }
    c.stages.push_back(product("strings", "all strings of up to 3 (thorough: 4) of 14 symbols, with escapes and JSON punctuation, as values and as keys", {"$.a", "$.b[1]", "$.*", "$..a", "$..*", "$.b[0].c"}, sd, serial()));
    VS nums, nd; for (string s : {"", "-"}) for (string i : {"0", "7", "10", "123456789012345678901"}) for (string f : {"", ".5", ".25", ".000"}) for (string e : {"", "e3", "E+10", "e-7"}) nums.push_back(s + i + f + e);
    for (auto& l : VS{"true", "false", "null"}) nums.push_back(l);
    for (auto& n : nums) { nd.push_back("{\"a\":" + n + "}"); nd.push_back("[" + n + "]"); nd.push_back("[" + n + "," + n + "]"); nd.push_back("{\"a\":" + n + ",\"b\":[1," + n + " ]}"); nd.push_back("{\"b\" : " + n + "\n,\"a\" : [ " + n + "\t, " + n + "\r\n]\n}"); }
    c.stages.push_back(product("numbers", "every primitive out of sign x integer x fraction x exponent, and the literals, in 5 surroundings", {"$.a", "$.*", "$[*]", "$[1]", "$..*", "$.b[1]", "$.a[0]"}, nd, serial()));
    VS kd; VS ks = {"a", "aa", "ab", "A", "a1", "_a", "ba", "a_b", "1", "length"}; for (auto& x : ks) for (auto& y : ks) if (x != y) { kd.push_back("{\"" + x + "\":1,\"" + y + "\":{\"" + x + "\":2}}"); kd.push_back("{\"" + x + "\":{\"" + y + "\":[1]},\"" + y + "\":[{\"" + x + "\":3}]}"); }
    VS kq; for (auto& x : VS{"a", "aa", "ab", "A", "a1", "_a", "ba", "a_b", "length"}) { kq.push_back("$." + x); kq.push_back("$.." + x); kq.push_back("$.*." + x); for (auto& y : VS{"a", "aa", "ab", "A"}) if (x != y) kq.push_back("$." + y + "." + x); }
    c.stages.push_back(product("names", "names that are prefixes or case variants of each other, in queries and documents", kq, kd, serial()));
    VS ld; for (int n = 0; n <= (th ? 40 : 14); n++) for (auto& e : VS{"1", "{\"a\":1}", "[5,6]", "\"s\""}) { string d = "["; for (int i = 0; i < n; i++) d += (i ? "," : "") + e; ld.push_back(d + "]"); ld.push_back("{\"a\":" + d + "]}"); }
    VS lq; for (string p : {"$", "$.a"}) for (int i = 0; i <= 13; i++) { lq.push_back(p + "[" + std::to_string(i) + "]"); for (int j = 0; j <= 13; j++) lq.push_back(p + "[" + std::to_string(i) + ":" + std::to_string(j) + "]"); lq.push_back(p + "[" + std::to_string(i) + ":]"); lq.push_back(p + "[:" + std::to_string(i) + "]"); }
    c.stages.push_back(product("slices", "every index and slice with bounds up to 13 with arrays of every length up to 14 (thorough: 40)", lq, ld, serial()));
    c.stages.push_back(product("characters", "every ASCII character, escape, two-byte and some longer UTF-8 sequences in values and names", {"$.a", "$.*", "$..a", "$..*", "$[*].a", "$[0].*"}, holding(characters()), serial()));
    { vector<int> m = magnitudes(th ? 200000 : 10100); c.stages.push_back(product("positions", "elements at positions around powers of two and ten, up to " + std::to_string(m.back()), atPositions(m), longArrays({m.back(), 300}), serial(), 1)); }
    { VS q, d; for (char x = 'a'; x <= 'z'; x++) for (char y : {x, (char)(x - 32)}) { string n(1, y); q.push_back("$." + n); q.push_back("$.." + n + "1"); q.push_back("$.*._" + n); } for (int i = 0; i < 10; i++) q.push_back("$..n" + std::to_string(i));
      string o = "{"; for (auto& t : q) { string n = t.substr(t.find_last_of(".") + 1); o += (o.size() > 1 ? ",\"" : "\"") + n + "\":{\"" + n + "\":\"" + n + "\"}"; } c.stages.push_back(product("letters", "every letter and digit in a name of the query", q, {o + "}"}, serial(), 1)); }
    c.stages.push_back(findings());
    return c;
}
int main(int argc, char** argv) { return run::main_check(argc, argv, make); }
