// Runs the stages of one check: exploration, confirmation of every violation in a fresh process, known findings,
// replay artefacts and the evidence file.
#pragma once
#include "common.hpp"
namespace run {
using std::string; using std::vector; using pool::Case; using pool::W; using pool::Explorer;
struct Stage {
    string name, rule; Explorer ex;         // the case format of ex.one is private to the stage
    vector<string> extra;                   // names of the W::count counters
};
struct Check {
    string id, level = "exploration", explanation; vector<string> assumptions; vector<Stage> stages;
    string states, transitions, traces;     // names of the counters (level model_checking)
};
inline string js(const string& s) {
    string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\"";
}
inline string slurp(const string& f) { string o; FILE* p = fopen(f.c_str(), "r"); if (!p) return o; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) o.append(b, n); fclose(p); return o; }
inline string verdict(Stage& s, const Case& c, const string& text) {
    double lim = s.ex.hang * 3;
    if (!c.get("history_unit").empty()) return pool::confirm(s.ex, "", c.geti("history_unit"), c.geti("history_case"), lim * 4);
    return pool::confirm(s.ex, text, -1, -1, lim);
}
// usage: CHECK [--replay FILE]; environment: VERIF_TIER, VERIF_SEED, JPS_ROOT (where evidence/, replays/ and known-findings.txt live)
inline int main_check(int argc, char** argv, const std::function<Check(const string& tier)>& make) {
    double t0 = pool::now();
    setvbuf(stdout, NULL, _IOLBF, 0);
    string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick"; string seed = getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1";
    string root = getenv("JPS_ROOT") ? getenv("JPS_ROOT") : "/verif";
    Check ck = make(tier);
    auto stage = [&](const string& n) -> Stage* { for (auto& s : ck.stages) if (s.name == n) return &s; return nullptr; };
    if (argc > 2 && string(argv[1]) == "--replay") {
        string text = slurp(argv[2]); Case c = Case::parse(text); Stage* s = stage(c.get("stage"));
        if (!s) { printf("no stage %s in %s\n", c.get("stage").c_str(), argv[2]); return 2; }
        string v = verdict(*s, c, text);
        if (v.empty()) { printf("the case holds\n"); return 0; }
        printf("%s\n%s\n", text.c_str(), v.c_str()); return 1;
    }
    // known findings: "KNOWN property=ID replay=FILE what fails"
    std::set<string> known; string kf = slurp(root + "/known-findings.txt"); size_t i = 0;
    while (i < kf.size()) {
        size_t e = kf.find('\n', i); if (e == string::npos) e = kf.size(); string l = kf.substr(i, e - i); i = e + 1;
        char id[32], file[512]; int used = 0;
        if (sscanf(l.c_str(), "KNOWN property=%31s replay=%511s %n", id, file, &used) < 2 || ck.id != id) continue;
        string text = slurp(root + "/" + file); Case c = Case::parse(text); Stage* s = stage(c.get("stage")); if (!s) continue;
        known.insert(c.text());
        string v = verdict(*s, c, text);
        if (!v.empty()) printf("KNOWN-FINDING: property=%s %s [%s]\n", id, l.substr(used).c_str(), v.substr(0, 200).c_str());
    }
    long cases = 0, nontrivial = 0, viol = 0, unconfirmed = 0; bool complete = true; string samples, stages; std::map<string, long> ctr;
    string rdir = root + "/replays/" + ck.id; bool first = true; int reported = 0; string rules;
    for (auto& s : ck.stages) {
        for (auto k : s.extra) if (ctr.find(k) == ctr.end()) ctr[k] = 0;
        auto r = pool::explore(s.ex);
        cases += r.cases; nontrivial += r.nontrivial; if (!r.complete) complete = false;
        for (size_t k = 0; k < s.extra.size(); k++) ctr[s.extra[k]] += r.extra[k];
        rules += (rules.empty() ? "" : " | ") + s.name + ": " + s.rule;
        for (size_t k = 0; k < r.samples.size() && k < 3; k++) samples += (samples.empty() ? "" : ", ") + js(s.name + ": " + r.samples[k].substr(0, 400));
        stages += (stages.empty() ? "" : ", ") + js(s.name + ": " + std::to_string(r.cases) + " cases, " + std::to_string(r.nontrivial) + " non-trivial, " + std::to_string(r.units_done) + "/" + std::to_string(s.ex.units) + " units, " + (r.complete ? "complete" : "stopped early") + ", " + std::to_string((int)r.wall) + " s");
        fprintf(stderr, "%s %s: %ld cases (%ld non-trivial) %zu failures %s %.1f s\n", ck.id.c_str(), s.name.c_str(), r.cases, r.nontrivial, r.fails.size(), r.complete ? "complete" : "STOPPED EARLY", r.wall);
        std::sort(r.fails.begin(), r.fails.end(), [](const pool::Fail& a, const pool::Fail& b) { return a.kase.size() != b.kase.size() ? a.kase.size() < b.kase.size() : a.kase < b.kase; });
        int tried = 0, here = 0; double c0 = pool::now();
        for (auto& f : r.fails) {
            if (here >= 3 || tried >= 40 || pool::now() - c0 > 120) break;
            Case c = Case::parse("stage=" + s.name + "\n" + f.kase);
            if (known.count(c.text())) continue;
            tried++; string v = verdict(s, c, c.text());
            if (v.empty()) { c.f.push_back({"history_unit", std::to_string(f.unit)}); c.f.push_back({"history_case", std::to_string(f.sub)}); c.f.push_back({"tier", tier}); v = verdict(s, c, ""); }
            if (v.empty()) { unconfirmed++; fprintf(stderr, "not reproduced, ignored: %s :: %s\n", Case::parse(f.kase).key().c_str(), f.msg.c_str()); continue; }
            mkdir((root + "/replays").c_str(), 0777); mkdir(rdir.c_str(), 0777);
            string file = rdir + "/" + s.name + "-" + std::to_string(++reported) + ".case"; here++;
            FILE* o = fopen(file.c_str(), "w"); if (o) { fprintf(o, "%s# %s\n", c.text().c_str(), pool::esc(v).c_str()); fclose(o); }
            printf("VIOLATION property=%s replay=%s\n  %s\n  %s\n", ck.id.c_str(), file.c_str(), c.key().substr(0, 1500).c_str(), v.substr(0, 1500).c_str());
        }
        viol += here;
        if (here) break;       // later stages are explored once this one holds
    }
    string ev = "{\n \"property\": " + js(ck.id) + ",\n \"tier\": " + js(tier) + ",\n \"seed\": " + std::to_string(atoi(seed.c_str())) + ",\n \"level\": " + js(ck.level) + ",\n \"coverage\": {\n";
    if (ck.level == "model_checking") {
        ev += "  \"states\": " + std::to_string(ctr[ck.states]) + ",\n  \"transitions\": " + std::to_string(ctr[ck.transitions]) + ",\n  \"traces_validated_against_impl\": " + std::to_string(ck.traces.empty() ? cases : ctr[ck.traces]) + ",\n";
    } else ev += "  \"evaluations\": " + std::to_string(cases) + ",\n  \"distinct_nontrivial\": " + std::to_string(nontrivial) + ",\n";
    ev += "  \"rule\": " + js(rules) + ",\n";
    for (auto& p : ctr) if (p.first != ck.states && p.first != ck.transitions && p.first != ck.traces) ev += "  " + js(p.first) + ": " + std::to_string(p.second) + ",\n";
    ev += "  \"explanation\": " + js(ck.explanation) + ",\n  \"stages\": [" + stages + "],\n  \"unconfirmed_reports\": " + std::to_string(unconfirmed) + ",\n  \"exhaustive\": " + (complete ? "true" : "false") + ",\n  \"samples\": [" + samples + "]\n },\n \"assumptions\": [";
    for (size_t k = 0; k < ck.assumptions.size(); k++) ev += (k ? ", " : "") + js(ck.assumptions[k]);
    char wb[32]; snprintf(wb, 32, "%.2f", pool::now() - t0);
    ev += string("],\n \"wall_s\": ") + wb + ",\n \"violations\": " + std::to_string(viol) + "\n}\n";
    mkdir((root + "/evidence").c_str(), 0777); FILE* o = fopen((root + "/evidence/" + ck.id + ".json").c_str(), "w"); if (!o) { perror("evidence"); return 2; } fputs(ev.c_str(), o); fclose(o);
    if (viol) return 1;
    if (!complete) { printf("exploration did not finish (%s)\n", ck.id.c_str()); return 3; }
    printf("%s holds: %ld cases, %ld non-trivial, %.1f s\n", ck.id.c_str(), cases, nontrivial, pool::now() - t0);
    return 0;
}
}  // namespace run
