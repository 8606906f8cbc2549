// The ways to run a query on a document; each is compared with an expected result.
#pragma once
#include "inline_threads.hpp"
#include "stages.hpp"
namespace md {
using namespace st;
// Where an input may be cut: before a string that follows '{', '[' or ',' outside of strings.
inline vector<size_t> cuts(const string& d) {
    vector<size_t> o; char prev = 0;
    for (size_t i = 0; i < d.size(); i++) { char c = d[i];
        if (c == '"') { if (prev == '{' || prev == '[' || prev == ',') o.push_back(i); i++; while (i < d.size() && d[i] != '"') { if (d[i] == '\\') i++; i++; } prev = '"'; }
        else if (!strchr(" \t\r\n", c)) prev = c; }
    return o;
}
inline VS split(const string& d, const vector<size_t>& at) { VS o; size_t b = 0; for (size_t c : at) { o.push_back(d.substr(b, c - b)); b = c; } o.push_back(d.substr(b)); return o; }
inline string showcuts(const vector<size_t>& a) { string o; for (auto x : a) o += (o.empty() ? "" : ",") + std::to_string(x); return o.empty() ? "-" : o; }
struct Chunks { vector<char*> p; Chunks(const VS& v) { for (auto& s : v) p.push_back(strdup(s.c_str())); } ~Chunks() { for (auto c : p) free(c); } char** data() { return p.data(); } int n() { return p.size(); } };
// every subset of the cut positions with at most maxCuts elements
template <class F> void segmentations(const string& d, int maxCuts, const F& f) {
    auto c = cuts(d); vector<size_t> cur;
    std::function<void(size_t)> go = [&](size_t i) { f(cur); if ((int)cur.size() < maxCuts) for (size_t k = i; k < c.size(); k++) { cur.push_back(c[k]); go(k + 1); cur.pop_back(); } };
    go(0);
}
typedef std::function<VS(Proc&, const string&)> Oracle;
inline bool outside(Proc& p, const string& d) { return ref::expect(p.q, d).skip; }      // not in the domain: a known finding
inline Oracle byReference() { return [](Proc& p, const string& d) { return ref::expect(p.q, d).want; }; }
// the same query on the same document by one thread over the whole input
inline Oracle bySerial() { return [](Proc& p, const string& d) { MemFile f(d); return take(jps_serial(p.get(), f.p())); }; }
inline Body serial(Oracle o = byReference()) {
    return [=](W& w, Proc& p, const string& d) {
        if (outside(p, d) || !w.begin(Case{{"query", p.q}, {"doc", d}})) return;
        VS want = o(p, d);
        MemFile f(d); if (!want.empty()) w.nontrivial();
        same(w, "serialRun", want, take(jps_serial(p.get(), f.p())));
    };
}
// Runs the cases of known-findings.txt, which lie outside of the domain of the other stages; explores nothing itself.
inline Stage findings() {
    Stage s; s.name = "findings"; s.rule = "the cases of known-findings.txt, one by one"; s.ex.setup = perturb; s.ex.hang = 10;
    s.ex.unit = [](int, W&) {};
    s.ex.one = [](const Case& c, W& w) {
        if (!w.begin(c)) return; Proc p(c.get("query")); string d = c.get("doc");
        if (c.geti("depth") > 0) { d = ""; for (long i = 0; i < c.geti("depth"); i++) d += "[\"s\","; d += "1"; for (long i = 0; i < c.geti("depth"); i++) d += "]"; }
        MemFile f(d); ref::Query q = ref::parseQuery(p.q); ref::J j = ref::parseJson(d);
        same(w, "result", ref::evalQuery(q, j, d), take(c.geti("cores") > 0 ? jps_parallel(p.get(), f.p(), c.geti("cores")) : jps_serial(p.get(), f.p())));
    };
    return s;
}
inline Body parallel(const vector<int>& cores, Oracle o = bySerial()) {
    return [=](W& w, Proc& p, const string& d) {
        if (outside(p, d)) return; VS want; bool have = false; MemFile f(d);
        for (int c : cores) {
            if (!w.begin(Case{{"query", p.q}, {"doc", d}, {"cores", std::to_string(c)}})) continue;
            if (!have) { want = o(p, d); have = true; }
            if (!want.empty()) w.nontrivial();
            same(w, "parallelRun", want, take(jps_parallel(p.get(), f.p(), c)));
        }
    };
}
inline Body segmented(int maxCuts, Oracle o = bySerial()) {
    return [=](W& w, Proc& p, const string& d) {
        if (outside(p, d)) return; VS want; bool have = false;
        segmentations(d, maxCuts, [&](const vector<size_t>& at) {
            if (!w.begin(Case{{"query", p.q}, {"doc", d}, {"cuts", showcuts(at)}})) return;
            if (!have) { want = o(p, d); have = true; }
            if (!want.empty() && !at.empty()) w.nontrivial();
            Chunks c(split(d, at)); same(w, "parallel automata over these chunks", want, take(jps_stage_parallel(p.get(), c.data(), c.n(), nullptr)));
        });
    };
}
inline Body optimized(const VS& training, const vector<int>& cores, int maxCuts, Oracle o = bySerial()) {
    auto tr = make_shared<VS>(training);
    return [=](W& w, Proc& p, const string& d) {
        if (outside(p, d)) return; VS want; bool have = false; MemFile f(d);
        for (size_t t = 0; t <= tr->size(); t++) {
            string td = t < tr->size() ? (*tr)[t] : d; if (t < tr->size() && td == d) continue;
            void* ct = nullptr; 
            auto table = [&] { if (!have) { want = o(p, d); have = true; } if (!ct) { MemFile tf(td); ct = jps_learn(p.get(), tf.p()); } };
            for (int c : cores) {
                if (!w.begin(Case{{"query", p.q}, {"doc", d}, {"training", td}, {"cores", std::to_string(c)}})) continue;
                table(); if (!want.empty()) w.nontrivial();
                same(w, "parallelRunOpt", want, take(jps_parallel_opt(p.get(), f.p(), c, ct)));
            }
            if (maxCuts) segmentations(d, maxCuts, [&](const vector<size_t>& at) {
                if (at.empty() || !w.begin(Case{{"query", p.q}, {"doc", d}, {"training", td}, {"cuts", showcuts(at)}})) return;
                table(); if (!want.empty()) w.nontrivial();
                Chunks c(split(d, at)); same(w, "parallel automata over these chunks with a learned table", want, take(jps_stage_parallel(p.get(), c.data(), c.n(), ct)));
            });
            if (ct) jps_free_table(ct);
        }
    };
}
inline Body bounded(const vector<int>& cores, bool opt, Oracle o = bySerial(), const vector<int>& footprints = {}) {       // cores 0: serialRun
    return [=](W& w, Proc& p, const string& d) {
        if (outside(p, d)) return; VS want; bool have = false; MemFile f(d); void* ct = nullptr;
        vector<int> fps = footprints; if (fps.empty()) for (int fp = 1; fp <= (int)d.size(); fp++) fps.push_back(fp);
        for (int c : cores) for (int fp : fps) for (int o2 = 0; o2 <= (opt && c ? 1 : 0); o2++) {
            if (!w.begin(Case{{"query", p.q}, {"doc", d}, {"cores", std::to_string(c)}, {"footprint", std::to_string(fp)}, {"learned", std::to_string(o2)}})) continue;
            if (!have) { want = o(p, d); have = true; }
            if (o2 && !ct) ct = jps_learn(p.get(), f.p());
            if (!want.empty()) w.nontrivial();
            jps_verif_memory_footprint = fp;
            auto got = take(c == 0 ? jps_serial(p.get(), f.p()) : o2 ? jps_parallel_opt(p.get(), f.p(), c, ct) : jps_parallel(p.get(), f.p(), c));
            jps_verif_memory_footprint = 250000000;
            same(w, c == 0 ? "serialRun with a bounded footprint" : o2 ? "parallelRunOpt with a bounded footprint" : "parallelRun with a bounded footprint", want, got);
        }
        if (ct) jps_free_table(ct);
    };
}
inline Body partial(int maxCuts, const vector<int>& cores, Oracle o = bySerial()) {
    return [=](W& w, Proc& p, const string& d) {
        if (outside(p, d)) return; VS want; bool have = false;
        for (int n : cores) segmentations(d, maxCuts, [&](const vector<size_t>& at) {
            if (!w.begin(Case{{"query", p.q}, {"doc", d}, {"cores", std::to_string(n)}, {"inputs", showcuts(at)}})) return;
            if (!have) { want = o(p, d); have = true; }
            if (!want.empty() && !at.empty()) w.nontrivial();
            Chunks c(split(d, at)); same(w, n ? "parallelPartialRun over these inputs" : "serialPartialRun over these inputs", want, take(jps_partial(p.get(), c.data(), c.n(), n, nullptr)));
        });
    };
}
// Every way to leave each legal cut alone, to cut a part into chunks there (c) or to end a part there (p), with at least one of both and at most maxCuts.
// training: documents tables are learned from; "" stands for no table
inline Body parts(const VS& training, int maxCuts, Oracle o = bySerial()) {
    auto tr = make_shared<VS>(training);
    return [=](W& w, Proc& p, const string& d) {
        if (outside(p, d)) return; VS want; bool have = false;
        for (auto& td : *tr) {
            void* ct = nullptr; bool learned = td.empty();
            segmentations(d, maxCuts, [&](const vector<size_t>& at) {
                for (unsigned m = 1; m + 1 < 1u << at.size(); m++) {          // bits: where parts end
                    string name, last(at.size() + 1, 1); for (size_t i = 0; i < at.size(); i++) { name += (i ? "," : "") + std::to_string(at[i]) + (m >> i & 1 ? "p" : "c"); last[i] = m >> i & 1; }
                    if (!w.begin(Case{{"query", p.q}, {"doc", d}, {"training", td}, {"cuts", name}})) continue;
                    if (!have) { want = o(p, d); have = true; }
                    if (!learned) { MemFile tf(td); ct = jps_learn(p.get(), tf.p()); learned = true; }
                    if (!want.empty()) w.nontrivial();
                    Chunks c(split(d, at)); same(w, "parallel execution over these parts and chunks", want, take(jps_stage_parts(p.get(), c.data(), c.n(), last.data(), ct)));
                } });
            if (ct) jps_free_table(ct);
        }
    };
}
}  // namespace md
