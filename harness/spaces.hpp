// Query and document spaces shared by several checks.
#pragma once
#include <set>
#include "stages.hpp"
namespace sp {
using namespace st;
static const VS kSteps = {".a", ".b", ".*", "..a", "..*", "[*]", "[0]", "[1]", "[0:2]", "[1:2]", "[1:]", "[:1]", "[0:0]"};
inline VS three(const VS& steps) { VS q = paths(steps, 3); q.erase(q.begin(), q.begin() + 1 + steps.size() + steps.size() * steps.size()); return q; }
inline VS cross(const VS& a, const VS& b) { VS o; for (auto& x : a) for (auto& y : b) o.push_back(x + y); return o; }
// {"r": [...]} with all arrays of the given sizes
inline VS arrays(const VS& keys, const string& leaves, int lo, int hi, bool empties = false) { VS o; for (auto& d : docs(keys, leaves, lo, hi, {0}, empties)) if (d[0] == '[') o.push_back("{\"r\":" + d + "}"); return o; }
// every array of lo..hi elements out of the given kinds; # in a kind is a running number
inline VS lists(const VS& kinds, int lo, int hi, const string& pre = "{\"r\":", const string& post = "}") {
    VS o; vector<int> c;
    std::function<void()> go = [&] {
        if ((int)c.size() >= lo) { string d; int n = 0; for (int k : c) { string e; for (char ch : kinds[k]) if (ch == '#') e += std::to_string(++n); else e += ch; d += (d.empty() ? "" : ",") + e; } o.push_back(pre + "[" + d + "]" + post); }
        if ((int)c.size() < hi) for (size_t k = 0; k < kinds.size(); k++) { c.push_back(k); go(); c.pop_back(); } };
    go(); return o;
}
// every way to put up to `gaps` blanks out of the alphabet between the tokens of a document
inline VS spaced(const string& d, int gaps) {
    VS toks; for (size_t i = 0; i < d.size();) { size_t b = i; if (d[i] == '"') { i++; while (d[i] != '"') { if (d[i] == '\\') i++; i++; } i++; } else if (strchr("{}[]:,", d[i])) i++; else while (i < d.size() && !strchr("{}[]:,", d[i])) i++; toks.push_back(d.substr(b, i - b)); }
    VS ws = {" ", "\n", "\t", "\r", "\r\n", "  ", " \n "}; VS out; vector<int> g(toks.size() + 1, -1);
    std::function<void(size_t, int)> go = [&](size_t i, int left) {
        if (i == g.size()) { string o; for (size_t k = 0; k < g.size(); k++) { if (g[k] >= 0) o += ws[g[k]]; if (k < toks.size()) o += toks[k]; } out.push_back(o); return; }
        g[i] = -1; go(i + 1, left); if (left) for (size_t k = 0; k < ws.size(); k++) { g[i] = k; go(i + 1, left - 1); } g[i] = -1; };
    go(0, gaps);
    for (size_t k = 0; k < ws.size(); k++) { string o = ws[k]; for (auto& t : toks) o += t + ws[k]; out.push_back(o); }
    return out;
}
inline VS words(const VS& alpha, int len) { VS o = {""}; size_t b = 0; for (int l = 0; l < len; l++) { size_t e = o.size(); for (size_t i = b; i < e; i++) for (auto& a : alpha) o.push_back(o[i] + a); b = e; } return o; }
// every character a string can hold, one after the other: ASCII, escapes, all two-byte and some longer UTF-8 sequences
inline VS characters() {
    VS o; for (int c = 0x20; c < 0x80; c++) if (c != '"' && c != '\\') o.push_back(string(1, c));
    for (char c : string("\"\\/bfnrt")) o.push_back(string("\\") + c);
    for (char c : string("0123456789abcdefABCDEF")) for (int i = 0; i < 4; i++) { string h = "0000"; h[i] = c; o.push_back("\\u" + h); }
    for (int c = 0x80; c < 0x800; c++) o.push_back(string(1, 0xc0 | c >> 6) + string(1, 0x80 | (c & 63)));
    for (int c = 0x800; c < 0x10000; c += 509) if (c < 0xd800 || c > 0xdfff) o.push_back(string(1, 0xe0 | c >> 12) + string(1, 0x80 | (c >> 6 & 63)) + string(1, 0x80 | (c & 63)));
    for (int c = 0x10000; c < 0x110000; c += 8191) o.push_back(string(1, 0xf0 | c >> 18) + string(1, 0x80 | (c >> 12 & 63)) + string(1, 0x80 | (c >> 6 & 63)) + string(1, 0x80 | (c & 63)));
    return o;
}
// documents that hold a text as a value and as a name
inline VS holding(const VS& xs) { VS o; for (auto& x : xs) { o.push_back("{\"a\":\"" + x + "\",\"b\":[\"" + x + "\",1,\"c\"]}"); if (x != "a" && x != "b" && x != "c" && x.size()) o.push_back("[{\"" + x + "\":{\"a\":1},\"a\":\"" + x + "\"},{\"b\":\"t\",\"" + x + "\":[2]}]"); } return o; }
// texts that repeat something, such as runs of backslashes
inline VS runs(int most, const vector<int>& more = {}) {
    VS o; vector<int> ns; for (int i = 1; i <= most; i++) ns.push_back(i); ns.insert(ns.end(), more.begin(), more.end());
    for (string u : {"\\\\", "\\\"", "\\\\\\\"", "a\\\\", "{", "\\\",", ":", "\\u005c", "\\n"}) for (int n : ns) { string r; for (int i = 0; i < n; i++) r += u; for (string pre : {"", "x", "\\\""}) for (string post : {"", "x", "\\\"", "\\\\"}) o.push_back(pre + r + post); }
    return o;
}
// numbers around powers of two and ten
inline vector<int> magnitudes(int most) { std::set<int> s; for (long p : {8L, 16L, 32L, 64L, 128L, 256L, 512L, 1024L, 2048L, 4096L, 8192L, 16384L, 32768L, 65536L, 131072L, 10L, 100L, 1000L, 10000L, 100000L}) for (long x = p - 1; x <= p + 1; x++) if (x <= most) s.insert(x); return vector<int>(s.begin(), s.end()); }
// arrays, and queries of one element or part of them at large positions
inline VS atPositions(const vector<int>& ns) { VS q; for (int n : ns) { string s = std::to_string(n), t = std::to_string(n + 1); for (string p : {"$", "$.a"}) { q.push_back(p + "[" + s + "]"); q.push_back(p + "[" + s + ":]"); q.push_back(p + "[" + s + ":" + t + "]"); } q.push_back("$[:" + s + "].a"); q.push_back("$[" + s + "].a"); } return q; }
inline VS longArrays(const vector<int>& ns) { VS o; for (int n : ns) { string a, b; for (int i = 0; i <= n; i++) { a += string(i ? "," : "") + (i % 3 ? "1" : "\"s\""); b += string(i ? "," : "") + (i % 2 ? "{\"a\":" + std::to_string(i) + "}" : "[]"); } o.push_back("[" + a + "]"); o.push_back("[" + b + "]"); o.push_back("{\"a\":[" + b + "],\"b\":1}"); } return o; }
static const VS kStringParts = {"a", "\\\"", "\\\\", "{", "}", "[", "]", ":", ",", " ", "\\n", "\\u0041", "\xc3\xa9", "'"};
static const VS kFilters = {"[?(@.a)]", "[?(@.b)]", "[?(!@.a)]", "[?(@.a&&@.b)]", "[?(@.a||@.b)]", "[?(@.a>1)]", "[?(@.a==@.b)]", "[?(@.a.b)]", "[?(@.a!=2)]", "[?(@.x)]"};
static const VS kSuffixes = {"", ".x", ".*", ".a", ".a.b", ".x[*]", ".x[1]", "..x", ".x.a"};
static const VS kRecords = {"{\"a\":#,\"x\":#}", "{\"x\":#,\"a\":#}", "{\"x\":#}", "{\"a\":#}", "{\"x\":[#,#],\"a\":true}", "{\"a\":{\"b\":#},\"x\":{\"a\":#}}", "{\"b\":2,\"x\":[{\"a\":#,\"x\":#},{\"x\":#}],\"a\":1}", "{}", "#", "[#,{\"a\":1,\"x\":#}]", "{\"a\":false,\"x\":#}", "{\"a\":\"s\",\"b\":\"s\",\"x\":\"v#\"}"};
static const VS kRecordQueries = {"$.r[?(@.a)].x", "$.r[?(@.a&&@.b)].x", "$.r[?(!@.a)].x", "$.r[?(@.a.b)].x", "$.r[?(@.a)].*", "$.r[*].x[?(@.a)].x", "$.r[?(@.b)].x[?(@.a)].x", "$.r[?(@.a)].x[*]", "$.r[?(@.a)].x[1]", "$.*[?(@.a)].x", "$.r[1:3][?(@.a)].x", "$.r[?(@.a)]", "$.r[?(@.a)].a", "$.r[?(@.a.b)].a", "$.r[?(@.b)]..x", "$.r[?(@.b)].x[?(@.a)]", "$.r[?(@.a>@.b)].x", "$.r[?(@.a||@.b==2)].x", "$.r[1][?(@.a)].x", "$.r[*][?(@.a)].x", "$.r[?(@.a==\"s\")].x"};
}  // namespace sp
