// Bounded exhaustive generators of JSON documents.
#pragma once
#include <map>
#include <string>
#include <vector>
namespace gen {
using std::string; using std::vector;
// A shape: 'n','s','t','f','z' leaves; containers with children.
struct S { char k; vector<string> keys; vector<S> kids; };
struct Shapes {
    vector<string> keys; string leaves; int maxArr = 9, maxObj = 9; bool emptyArr = true, emptyObj = true;
    std::map<int, vector<S>> memo;
    const vector<S>& of(int n) {        // all values with exactly n nodes
        auto it = memo.find(n); if (it != memo.end()) return it->second;
        vector<S> out;
        if (n == 1) { for (char c : leaves) out.push_back({c, {}, {}}); if (emptyArr) out.push_back({'[', {}, {}}); if (emptyObj) out.push_back({'{', {}, {}}); }
        else if (n > 1) {
            S a{'[', {}, {}}; seqA(a, n - 1, out);
            S o{'{', {}, {}}; vector<bool> used(keys.size()); seqO(o, used, n - 1, out);
        }
        return memo[n] = out;
    }
    void seqA(S& cur, int left, vector<S>& out) {
        if (left == 0) { out.push_back(cur); return; }
        if ((int)cur.kids.size() >= maxArr) return;
        for (int m = 1; m <= left; m++) { vector<S> c = of(m); for (auto& x : c) { cur.kids.push_back(x); seqA(cur, left - m, out); cur.kids.pop_back(); } }
    }
    void seqO(S& cur, vector<bool>& used, int left, vector<S>& out) {
        if (left == 0) { out.push_back(cur); return; }
        if ((int)cur.kids.size() >= maxObj) return;
        for (size_t k = 0; k < keys.size(); k++) if (!used[k]) {
            used[k] = true; cur.keys.push_back(keys[k]);
            for (int m = 1; m <= left; m++) { vector<S> c = of(m); for (auto& x : c) { cur.kids.push_back(x); seqO(cur, used, left - m, out); cur.kids.pop_back(); } }
            used[k] = false; cur.keys.pop_back();
        }
    }
};
// Render a shape; leaves are numbered so that every selected value is distinguishable.
struct Render {
    int style = 0;       // 0 compact, 1 blanks, 2 newlines and indentation, 3 tabs and CRLF
    int ctr = 0; string out;
    void gap(int depth, bool) {
        if (style == 1) out += ' ';
        else if (style == 2) { out += '\n'; out.append(depth, ' '); }
        else if (style == 3) { out += "\r\n"; out.append(depth, '\t'); }
    }
    void val(const S& s, int d) {
        switch (s.k) {
            case 'n': out += std::to_string(++ctr); return;
            case 'm': out += "-" + std::to_string(++ctr) + ".5"; return;
            case 's': out += "\"s" + std::to_string(++ctr) + "\""; return;
            case 't': out += "true"; return; case 'f': out += "false"; return; case 'z': out += "null"; return;
        }
        bool obj = s.k == '{'; out += obj ? '{' : '[';
        for (size_t i = 0; i < s.kids.size(); i++) {
            if (i) { out += ','; }
            if (style) gap(d + 1, true);
            if (obj) { out += '"' + s.keys[i] + '"'; if (style) out += style == 3 ? "\t" : " "; out += ':'; if (style) out += ' '; }
            val(s.kids[i], d + 1);
        }
        if (style && !s.kids.empty()) gap(d, false);
        out += obj ? '}' : ']';
    }
};
inline string render(const S& s, int style = 0) { Render r; r.style = style; r.val(s, 0); return r.out; }
}  // namespace gen
