// C18: results do not depend on the size of values, names, arrays, objects or nesting.
#include "deep.hpp"
using namespace sz;
static run::Check make(const string& tier) {
    bool th = tier == "thorough"; run::Check c; c.id = "C18";
    c.explanation = "Every case runs the real engine in one way (serial, bounded, parallel, with a learned table) on a document of one size and compares the complete output with an independent tree evaluator.";
    c.assumptions = {"nesting stays within the fixed stacks (known finding)"};
    for (auto& k : kinds(th)) c.stages.push_back(stage(k, modes(th)));
    for (string st : {".a", "[0]", ".*", "..a", ".a[0]"}) c.stages.push_back(stage(Kind{"long-query" + st, [&] { VS q; for (int n = 0; n <= (th ? 20 : 14); n++) q.push_back(longQuery(st, n)); return q; }(), upto(th ? 14 : 11), [st](int n) { bool o = st != "[0]", a = st.find('[') != string::npos; string d; for (int i = 0; i < n; i++) d += o && a ? "{\"a\":[" : o ? "{\"a\":" : "["; d += "\"v\""; for (int i = 0; i < n; i++) d += o && a ? ",\"t\"],\"b\":\"u\"}" : o ? ",\"b\":\"u\"}" : ",\"t\"]"; return n ? d : "[" + d + "]"; }}, modes(th)));
    VS fq; for (int n = 1; n <= (th ? 16 : 10); n++) { string a, b; for (int i = 0; i < n; i++) { a += string(i ? "&&" : "") + "@.k" + num(i); b += string(i ? "||" : "") + "@.k" + num(i) + ">50"; } fq.push_back("$[?(" + a + ")].x"); fq.push_back("$[?(" + b + ")].x"); }
    c.stages.push_back(stage(Kind{"many-variables", fq, upto(th ? 60 : 25), [](int n) { return list(n, [](int i) { string o = "{\"x\":" + num(i); for (int j = 0; j < i % 17; j++) o += ",\"k" + num(j) + "\":" + num((i * 31 + j * 17) % 100 + 1); return o + "}"; }); }}, modes(th)));
    VS nq; for (int n : {1, 10, 50, 63, 64, 65, 100, 255, 256, 257, 1000, 4000, 5000}) { nq.push_back("$." + string(n, 'k')); nq.push_back("$.." + string(n, 'k') + ".a"); nq.push_back("$.r[?(@." + string(n, 'k') + ")].a"); }
    c.stages.push_back(stage(Kind{"query-names", nq, {1, 10, 50, 63, 64, 65, 100, 255, 256, 257, 1000, 4000, 5000}, [](int n) { string s(n, 'k'); return "{\"" + s + "\":{\"a\":1,\"b\":\"t\"},\"r\":[{\"" + s + "\":2,\"a\":\"u\"},{\"a\":2}]}"; }}, modes(th)));
    vector<int> many = {60, 61, 62, 63, 64, 124, 125, 126, 127, 250, 251, 252, 253, 254, 255, 256, 260}; VS hq; for (int n : many) { string e; for (int i = 0; i < n; i++) e += string(i ? "||" : "") + "@.k" + num(i); for (string f : {"$.r[?(%)].*", "$.*[?(%)].z", "$.r[?(%)]..*"}) { f.replace(f.find('%'), 1, e); hq.push_back(f); } }
    c.stages.push_back(stage(Kind{"hundreds-of-names", hq, many, [](int n) { string k = "\"k" + num(n - 1) + "\""; return "{" + k + ":[{\"k1\":1,\"z\":5},{\"z\":6}],\"r\":[{" + k + ":1,\"z\":7},{\"z\":8},{\"k0\":{" + k + ":2}}]}"; }}, modes(th)));
    // counters beyond 16 bits
    c.stages.push_back(stage(Kind{"many-elements", {"$[32766:32769]", "$[32768]", "$[65534:65537]", "$[65536]", "$[69999]", "$[40000:]"}, {32767, 32768, 32769, 65535, 65536, 65537, 70000}, [](int n) { return list(n, [](int i) { return num(i % 10); }); }}, modes(th)));
    c.stages.push_back(stage(Kind{"many-records", {"$[?(@.a>7)]", "$[32768].a", "$[65535:65537].a", "$..a"}, {32768, 65537, 70000}, [](int n) { return list(n, [](int i) { return "{\"a\":" + num(i % 10) + "}"; }); }}, modes(th)));
    deep_stages(c, th, false, md::byReference());
    c.stages.push_back(md::findings());
    return c;
}
int main(int argc, char** argv) { return run::main_check(argc, argv, make); }
