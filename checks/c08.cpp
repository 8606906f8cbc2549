// C08: loading and partitioning cut the input only at token starts outside of strings and lose nothing.
#include "modes.hpp"
#include "spaces.hpp"
using namespace md; using namespace sp;
namespace {
string parts(const VS& v) { string o; for (auto& s : v) o += "<" + s + ">"; return o; }
// the pieces are the text, cut at legal positions, none longer than to the first legal cut after `nominal` bytes
bool pieces(W& w, const char* what, const string& d, const VS& v, size_t nominal, size_t most) {
    string all; for (auto& s : v) all += s;
    if (all != d) { w.fail(string(what) + ": the pieces " + parts(v) + " are not the input"); return false; }
    if (v.size() > most || v.empty()) { w.fail(string(what) + ": " + std::to_string(v.size()) + " pieces"); return false; }
    auto c = cuts(d); size_t at = 0;
    for (size_t i = 0; i < v.size(); i++) {
        auto it = std::lower_bound(c.begin(), c.end(), at + nominal); size_t last = it == c.end() ? d.size() : *it;
        if (i + 1 < v.size() || most == (size_t)-1) if (at + v[i].size() > last) { w.fail(string(what) + ": piece " + std::to_string(i) + " of " + parts(v) + " is longer than needed"); return false; }
        at += v[i].size();
        if (i + 1 < v.size() && !std::binary_search(c.begin(), c.end(), at)) { w.fail(string(what) + ": " + parts(v) + " is cut at " + std::to_string(at) + " where no token begins"); return false; }
        if (v[i].empty()) { w.fail(string(what) + ": empty piece in " + parts(v)); return false; }
    }
    return true;
}
std::function<void(W&, const string&)> body(int maxCores) {
    return [=](W& w, const string& d) {
        MemFile f(d); size_t n = cuts(d).size();
        for (int c = 1; c <= maxCores; c++) {
            if (!w.begin(Case{{"text", d}, {"cores", std::to_string(c)}})) continue;
            string copy = d; VS a = take(jps_partition_stream(&copy[0], c)), b = take(jps_partition_file(f.p(), c));
            if (n && c > 1) w.nontrivial();
            if (copy != d) { w.fail("partitioning a stream changed it"); continue; }
            if (!pieces(w, "stream", d, a, d.size() / c + 1, c)) continue;
            if (a != b) w.fail("the file is cut differently from the stream: " + parts(a) + " " + parts(b));
        }
        for (int fp = 1; fp <= (int)d.size() + 1; fp++) {
            if (!w.begin(Case{{"text", d}, {"footprint", std::to_string(fp)}})) continue;
            jps_verif_memory_footprint = fp; VS v; int pos = 0; char* p; if (n) w.nontrivial();
            while ((p = jps_load_bounded(f.p(), &pos)) && v.size() <= d.size()) { v.push_back(p); free(p); size_t at = 0; for (auto& s : v) at += s.size(); if ((size_t)pos != at) { w.fail("the next position is " + std::to_string(pos) + " after " + parts(v)); break; } }
            jps_verif_memory_footprint = 250000000; if (w.failed) return;
            if (!pieces(w, "bounded loading", d, v, fp, (size_t)-1)) return;
        }
        if (w.begin(Case{{"text", d}, {"load", "whole"}})) { char* p = jps_load(f.p()); if (!p || d != p) w.fail("the loaded stream is not the file"); free(p); }
    };
}
}
static run::Check make(const string& tier) {
    bool th = tier == "thorough"; run::Check c; c.id = "C08";
    c.explanation = "Every case calls the real loader or partitioner with one number of cores or one footprint; the pieces are checked against the input and against an independent scan for token starts.";
    c.assumptions = {"a piece may begin before a string that follows '{', '[' or ','; documents are well-formed JSON"};
    int mc = th ? 12 : 7;
    c.stages.push_back(each("shapes", "every document of up to 5 (thorough: 6) nodes, 1 to 7 cores, every footprint; non-trivial: the input can be cut", docs({"a", "b"}, "sn", 1, th ? 6 : 5), body(mc)));
    VS sd; for (auto& x : words(kStringParts, th ? 4 : 3)) { sd.push_back("{\"a\":\"" + x + "\",\"b\":[\"" + x + "\",1,\"c\"]}"); if (x.size()) sd.push_back("[{\"" + x + "\":{\"a\":1}},\"" + x + "\"]"); }
    c.stages.push_back(each("strings", "every string of up to 3 (thorough: 4) of 14 symbols with escapes and JSON punctuation, as values and keys", sd, body(mc)));
    c.stages.push_back(each("characters", "every ASCII character, escape, two-byte and some longer UTF-8 sequences in values and names", holding(characters()), body(mc)));
    VS ws; for (auto& d : VS{"{\"a\":1,\"b\":[2,\"x\"]}", "[{\"a\":\"y\"},-3.5,true,\"z\"]", "[\"a\",\"b\",{\"c\":[]}]"}) ws = cat(ws, spaced(d, th ? 3 : 2));
    c.stages.push_back(each("white-space", "blanks, tabs and line breaks between the tokens", ws, body(mc)));
    VS lg; for (int n : {30, 100, 300}) for (int k : {1, 3, 20}) { string d = "["; for (int i = 0; i < n; i++) d += string(i ? "," : "") + "{\"" + string(k, 'k') + "\":\"" + string((i * 7) % (k + 5), 'v') + "\",\"n\":" + std::to_string(i) + "}"; lg.push_back(d + "]"); lg.push_back("{\"x\":\"" + string(n * k, 'q') + "\",\"y\":" + d + "]}"); }
    c.stages.push_back(each("large", "large documents, 1 to 99 cores", lg, [](W& w, const string& d) { for (int c = 1; c <= 99; c++) { if (!w.begin(Case{{"text", d}, {"cores", std::to_string(c)}})) continue; MemFile f(d); string copy = d; VS a = take(jps_partition_stream(&copy[0], c)), b = take(jps_partition_file(f.p(), c)); if (c > 1) w.nontrivial(); if (pieces(w, "stream", d, a, d.size() / c + 1, c) && a != b) w.fail("the file is cut differently from the stream"); } }, "texts", 1));
    VS mg; for (int n : {1990, 1999, 2000, 2001, 2002, 4000, 6001, 20000}) { mg.push_back("{\"a\":\"" + string(n, 'x') + "\",\"b\":1}"); mg.push_back("[\"" + string(n, '{') + "\",\"b\"]"); mg.push_back("{\"a\":[" + [&] { string s; for (int i = 0; i < n / 2; i++) s += i ? ",1" : "1"; return s; }() + "],\"b\":2}"); }
    c.stages.push_back(each("far-boundaries", "the next token start is up to 20000 bytes behind the footprint", mg, [](W& w, const string& d) { MemFile f(d); for (int fp : {1, 2, 3, 5, 10, 1000, 1999, 2000, 2001, 4000, (int)d.size() - 1}) { if (!w.begin(Case{{"text", d}, {"footprint", std::to_string(fp)}})) continue; w.nontrivial(); jps_verif_memory_footprint = fp; VS v; int pos = 0; char* p; while ((p = jps_load_bounded(f.p(), &pos)) && v.size() <= d.size()) { v.push_back(p); free(p); } jps_verif_memory_footprint = 250000000; pieces(w, "bounded loading", d, v, fp, (size_t)-1); } }, "texts", 1));
    VS rn; for (auto& x : runs(th ? 40 : 20)) { rn.push_back("{\"a\":\"" + x + "\",\"b\":[\"" + x + "\",1,\"c\"]}"); rn.push_back("[{\"" + x + "\":{\"a\":1}},\"" + x + "\"]"); }
    c.stages.push_back(each("repetitions", "strings and names that repeat one of 9 units up to 20 (thorough: 40) times", rn, body(mc)));
    return c;
}
int main(int argc, char** argv) { return run::main_check(argc, argv, make); }
