// Helpers shared by the explorers.
#pragma once
#include "gen.hpp"
#include "pool.hpp"
#include "ref.hpp"
#include "shim.h"
#include <pthread.h>
namespace jp {
using std::string; using std::vector; using pool::Case; using pool::W;
// A document handed to the file-based API through an anonymous in-memory file.
struct MemFile {
    int fd; string path;
    MemFile(const string& s) { fd = memfd_create("doc", 0); size_t o = 0; while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) _exit(97); o += n; } path = "/proc/self/fd/" + std::to_string(fd); }
    ~MemFile() { close(fd); }
    const char* p() const { return path.c_str(); }
};
inline vector<string> take(JRes r) { vector<string> v; if (r.n < 0) return v; for (int i = 0; i < r.n; i++) v.push_back(r.v[i] ? r.v[i] : "(null)"); jres_free(&r); return v; }
inline string show(const vector<string>& v) { string o = "["; for (size_t i = 0; i < v.size(); i++) { if (i) o += " | "; if (i >= 12) { o += "... " + std::to_string(v.size()) + " in all"; break; } o += v[i].size() > 200 ? v[i].substr(0, 200) + "..." : v[i]; } return o + "]"; }
inline bool& compare() { static bool b = true; return b; }      // false: only crashes and reports of instrumentation count
inline bool same(W& w, const char* what, const vector<string>& want, const vector<string>& got) {
    if (want == got || !compare()) return true;
    w.fail(string(what) + ": expected " + show(want) + " got " + show(got)); return false;
}
}  // namespace jp
