// C09: parallel execution gives the result of serial execution, for every number of cores and every legal cut of the input.
#include "deep.hpp"
using namespace md; using namespace sp;
static run::Check make(const string& tier) {
    bool th = tier == "thorough"; run::Check c; c.id = "C09";
    c.explanation = "Every case runs the real parallel engine on one input with one partitioning and compares the complete output with serialRun on the same input. Worker threads run one after the other (their interleavings: C11).";
    c.assumptions = {"inputs are cut where the partitioner may cut them: before a string that follows '{', '[' or ','", "documents are well-formed JSON without repeated keys"};
    VS q2 = paths(kSteps, 2);
    c.stages.push_back(product("cores", "parallelRun with 2 to 5 cores; all queries of up to 2 of 13 steps with all documents of up to 4 (thorough: 5) nodes; non-trivial: something is selected", q2, docs({"a", "b"}, "ns", 1, th ? 5 : 4), parallel({2, 3, 4, 5})));
    c.stages.push_back(product("segmentations", "every set of legal cuts of every document of up to 5 (thorough: 6) nodes; non-trivial: something is selected and the input is cut", paths({".a", ".b", ".*", "..a", "..*", "[*]", "[1]", "[0:2]", "[1:]"}, 2), docs({"a", "b"}, "s", 1, th ? 6 : 5), segmented(99)));
    c.stages.push_back(product("deeper-queries", "queries of 3 steps, every set of up to 2 cuts", three({".a", ".*", "..a", "[*]", "[1]", "[0:2]"}), docs({"a", "b"}, "s", 1, th ? 5 : 4), segmented(2)));
    c.stages.push_back(product("bigger-docs", "documents of 6 (thorough: 7) nodes, every set of up to 2 cuts", {"$.*", "$..a", "$[*].a", "$.a[1:3]", "$..*", "$.a[*][0]", "$[1:3][0:1]", "$.*.*"}, docs({"a", "b"}, "s", 6, th ? 7 : 6, {0}, th), segmented(2)));
    c.stages.push_back(product("layouts", "blanks, line breaks and leaf kinds around the cuts", paths({".a", ".*", "..a", "[*]", "[1]"}, 2), docs({"a", "b"}, "nmst", 2, th ? 4 : 3, {1, 2, 3}), segmented(99)));
    c.stages.push_back(product("filter-shapes", "filter queries, every set of legal cuts of every array of up to 6 (thorough: 7) nodes", cross(cross({"$.r", "$..r"}, {"[?(@.a)]", "[?(!@.a)]", "[?(@.a&&@.b)]", "[?(@.a.b)]"}), {"", ".x", ".*", ".a", ".x[*]", "..x"}), arrays({"a", "b", "x"}, "n", 1, th ? 6 : 5), segmented(99)));
    c.stages.push_back(product("filter-records", "21 filter queries, every list of up to 2 (thorough: 3) of 12 kinds of records, every set of up to 3 cuts", kRecordQueries, lists(kRecords, 1, th ? 3 : 2), segmented(3)));
    VS many; for (int n : {5, 9, 16}) for (auto& k : kRecords) { string d; for (int i = 0; i < n; i++) d += (i ? "," : "") + (i % 3 == 1 ? kRecords[i % kRecords.size()] : k); many.push_back("{\"h\":[1,2,{\"r\":3}],\"r\":[" + d + "],\"t\":{\"x\":[" + d + "]}}"); }
    for (auto& d : many) { int n = 0; string o; for (char ch : d) if (ch == '#') o += std::to_string(++n); else o += ch; d = o; }
    VS cores; vector<int> cs; for (int i = 1; i <= (th ? 64 : 24); i++) cs.push_back(i);
    c.stages.push_back(product("many-cores", "arrays of 5 to 16 records in 1 to 24 (thorough: 64) chunks", cat(cat(kRecordQueries, {"$..x", "$.r[*].x", "$.r[3:7]", "$..*", "$.t.x[2].a", "$.*[*]..a", "$.h[2].r", "$.r[4:].x"}), {}), many, parallel(cs)));
    string flat = "[", recs = "["; for (int i = 0; i < 300; i++) { flat += "\"s" + std::to_string(i) + "\","; recs += "{\"a\":" + std::to_string(i) + ",\"b\":\"x\"},"; }
    vector<int> most = {33, 64, 65, 90}; for (int i = 97; i <= (th ? 250 : 130); i++) most.push_back(i);
    c.stages.push_back(product("more-cores-than-threads", "lists of 300 elements in up to 130 (thorough: 250) chunks; at most 100 worker threads run at the same time", {"$[*]", "$[*].a", "$..b", "$[99:101]", "$[250:]", "$[?(@.a>200)].b", "$[?(@.a%7==0&&@.b)].a", "$"}, {flat + "1]", recs + "{}]", "{\"r\":" + recs + "2],\"t\":" + flat + "3]}"}, parallel(most), 1));
    for (auto& v : sz::variety(th)) c.stages.push_back(product("variety-" + v.name, v.rule + ", every set of up to 2 cuts", v.queries, v.docs, segmented(2), 100));
    c.stages.push_back(product("positions", "elements at positions around powers of two and ten, 2, 3 and 7 cores", sz::positionQueries(th), sz::positionDocs(th), parallel({2, 3, 7}), 2));
    sz::size_stages(c, {{"parallel", 2, false, 0}, {"parallel", 3, false, 0}, {"parallel", 8, false, 0}}, bySerial());
    sz::deep_stages(c, th, true, bySerial());
    return c;
}
int main(int argc, char** argv) { return run::main_check(argc, argv, make); }
