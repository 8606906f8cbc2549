// C10: a learned constraint table only speeds parallel execution up, it never changes its result.
#include "deep.hpp"
using namespace md; using namespace sp;
static run::Check make(const string& tier) {
    bool th = tier == "thorough"; run::Check c; c.id = "C10";
    c.explanation = "Every case learns a table from a training document, runs the real parallel engine with it on another document and compares the complete output with serialRun.";
    c.assumptions = {"as for C09"};
    VS train = docs({"a", "b"}, "n", 1, 3);
    c.stages.push_back(product("training", "every training document of up to 3 nodes, and the document itself, for every document of up to 4 nodes, with 2 and 3 cores and every single cut; non-trivial: something is selected", paths({".a", ".*", "..a", "[*]", "[1]", "[0:2]"}, 2), docs({"a", "b"}, "s", 2, th ? 5 : 4), optimized(train, {2, 3}, 1)));
    VS ft; for (auto& k : lists(kRecords, 1, 1)) ft.push_back(k); ft.push_back("{\"x\":1}"); ft.push_back("[[]]"); ft.push_back("{\"r\":[{\"a\":1},{\"x\":{\"a\":[{\"b\":1}]}}]}");
    c.stages.push_back(product("filters", "21 filter queries trained with 15 documents, every list of up to 2 records, 2 to 4 cores and every set of up to 2 cuts", kRecordQueries, lists(kRecords, 1, 2), optimized(ft, {2, 4}, th ? 2 : 1)));
    c.stages.push_back(product("self-trained", "every document of up to 5 nodes trained with itself and with a document without any of its names, every set of cuts", paths({".a", ".*", "..a", "..*", "[*]", "[1]", "[0:2]"}, 2), docs({"a", "b"}, "s", 2, th ? 6 : 5, {0}, th), optimized({"[]", "{\"z\":[{\"y\":1}]}"}, {}, 99)));
    c.stages.push_back(product("deeper-queries", "queries of 3 steps", three({".a", ".*", "..a", "[*]", "[1]"}), docs({"a", "b"}, "s", 3, 4), optimized({"{\"a\":[{\"a\":1}]}", "[{\"b\":1}]"}, {}, 2)));
    for (auto& v : sz::variety(th)) { bool f = v.name == "filters"; VS t = v.name == "characters" ? VS{} : f ? VS{v.docs[0], v.docs.back(), "[]"} : VS{v.docs[v.docs.size() / 2], v.docs.back(), "{\"a\":{\"aa\":[{\"a\":1}]},\"ab\":2}"}; c.stages.push_back(product("variety-" + v.name, v.rule + ", trained with itself and other documents, every single cut", v.queries, v.docs, optimized(t, {}, 1), 100)); }
    c.stages.push_back(product("positions", "elements at positions around powers of two and ten, 2, 3 and 7 cores", sz::positionQueries(th), sz::positionDocs(th), optimized({"[[{}]]"}, {2, 3, 7}, 0), 2));
    sz::size_stages(c, {{"optimized", 2, true, 0}, {"optimized", 3, true, 0}, {"optimized", 8, true, 0}}, bySerial());
    sz::wide_learned(c, th, bySerial());
    return c;
}
int main(int argc, char** argv) { return run::main_check(argc, argv, make); }
