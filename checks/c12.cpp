// C12: a bounded memory footprint does not change any result.
#include "deep.hpp"
using namespace md; using namespace sp;
static run::Check make(const string& tier) {
    bool th = tier == "thorough"; run::Check c; c.id = "C12";
    c.explanation = "Every case runs the real engine with the input loaded in several parts, through the loader with every footprint or through the partial-run calls over every set of legal cuts, and compares the complete output with an undivided serialRun.";
    c.assumptions = {"the footprint constant is lowered by the hook JPS_VERIF so that small documents span several loads", "documents are well-formed JSON without repeated keys"};
    VS q2 = paths(kSteps, 2), qs = paths({".a", ".*", "..a", "[*]", "[1]", "[0:2]"}, 2);
    c.stages.push_back(product("footprints", "every footprint from 1 byte to the length of the document, serial, with 1 and 3 cores, and with a learned table; non-trivial: something is selected", qs, docs({"a", "b"}, "s", 1, th ? 5 : 4, {0}), bounded({0, 1, 3}, true)));
    c.stages.push_back(product("footprint-layouts", "the same with blanks and leaf kinds", {"$.a", "$.*", "$..b", "$[*].a", "$.a[1]", "$..*"}, docs({"a", "b"}, "nst", 2, 3, {1, 3}), bounded({0, 2}, false)));
    c.stages.push_back(product("serial-parts", "serialPartialRun over every set of legal cuts of all documents of up to 5 (thorough: 6) nodes; non-trivial: something is selected and the input is cut", q2, docs({"a", "b"}, "s", 2, th ? 6 : 5), partial(99, {0})));
    c.stages.push_back(product("parallel-parts", "parallelPartialRun with 1, 2 and 3 cores over every set of up to 3 cuts", qs, docs({"a", "b"}, "s", 2, th ? 5 : 4), partial(3, {1, 2, 3})));
    c.stages.push_back(product("filters", "filter queries over every set of up to 3 cuts, serial and with 2 cores", kRecordQueries, lists(kRecords, 1, th ? 3 : 2), partial(3, {0, 2})));
    c.stages.push_back(product("filter-footprints", "filter queries with every footprint", {"$.r[?(@.a)].x", "$.r[?(@.a&&@.b)].x", "$.r[?(@.a)]", "$.r[?(@.b)].x[?(@.a)].x", "$.r[?(@.a)].*"}, lists(kRecords, 1, 2), bounded({0, 2}, false)));
    for (auto& v : sz::variety(th)) { c.stages.push_back(product("variety-" + v.name, v.rule + ", over every set of up to 2 cuts", v.queries, v.docs, partial(v.docs.size() > 2000 ? 1 : 2, {0, 2}), 100)); if (v.docs.size() < 500) c.stages.push_back(product("variety-footprints-" + v.name, v.rule + ", every footprint", v.queries, v.docs, bounded({0, 2}, false), 30)); }
    c.stages.push_back(product("positions", "elements at positions around powers of two and ten, footprints of 100, 1000 and 5000 bytes", sz::positionQueries(th), sz::positionDocs(th), bounded({0, 2}, false, bySerial(), {100, 1000, 5000}), 2));
    sz::size_stages(c, {{"serial", 0, false, 50}, {"serial", 0, false, 1000}, {"parallel", 2, false, 300}, {"optimized", 3, true, 1000}}, bySerial());
    VS misfit = {"[[]]", "{\"a\":[{\"a\":1}]}", "{\"b\":{\"a\":{\"b\":[]}}}"}, rf = {"", "{\"x\":[{\"a\":1}]}", "[[1]]", "{\"r\":[{\"a\":1},{\"x\":{\"a\":[{\"b\":1}]}}]}"};
    c.stages.push_back(product("parts-of-chunks", "every way to leave alone, to cut a part into chunks or to end a part at each place where a cut is possible, without and with 3 unsuitable learned tables, documents of up to 4 (thorough: 5) nodes", qs, docs({"a", "b"}, "s", 2, th ? 5 : 4), parts(cat({""}, misfit), 99)));
    c.stages.push_back(product("parts-of-chunks-bigger", "the same in documents of 5 (thorough: 6) nodes with up to 4 cuts", {"$.*", "$..a", "$..*", "$[*].a", "$.a[1]", "$.a..b", "$[0:2][*]", "$[*]"}, docs({"a", "b"}, "s", th ? 6 : 5, th ? 6 : 5, {0}, false), parts({"", misfit[1]}, 4)));
    c.stages.push_back(product("parts-of-chunks-filters", "the same with 21 filter queries and every list of up to 2 records, up to 3 (thorough: 5) cuts", kRecordQueries, lists(kRecords, 1, 2), parts(rf, th ? 5 : 3)));
    return c;
}
int main(int argc, char** argv) { return run::main_check(argc, argv, make); }
