#!/usr/bin/env python3
"""Tries one patch in a scratch copy of /repo: does it build, do the stable tests pass, does the demonstration fail, which checks catch it?
usage: trial.py SEED_DIR|PATCH [--checks C01,C02|all|none] [--slot N] [--keep-going]"""
import json, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd=None, env=None, timeout=900):
    try: p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as e: return 124, str(e.stdout)[-2000:]
    return p.returncode, p.stdout
def stable(): return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
class Scratch:
    def __init__(self, slot=0):
        self.dir = "/tmp/trial/%s/repo" % slot; self.slot = slot; self.build = "/tmp/trial/%s/build" % slot; self.root = "/tmp/trial/%s/root" % slot
        os.makedirs(self.dir, exist_ok=True); os.makedirs(self.build, exist_ok=True); os.makedirs(self.root, exist_ok=True)
        subprocess.run(["cp", "-r", ROOT + "/known", ROOT + "/known-findings.txt", self.root])
        self.reset()
    def reset(self):       # contents of HEAD; times of unchanged files are kept so that builds are incremental
        subprocess.run(["rsync", "-rlc", "--delete", "--exclude=_build", "--exclude=.git", "/repo/", self.dir + "/"], check=True)
    def apply(self, patch): return sh(["patch", "-p1", "-s", "--no-backup-if-mismatch", "-i", patch], cwd=self.dir)
    def compile(self):
        e = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++"); b = self.dir + "/_build"
        if not os.path.exists(b + "/build.ninja"):
            r = sh(["cmake", "-S", self.dir, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_C_FLAGS=-D_GNU_SOURCE -Wno-error", "-DCMAKE_CXX_FLAGS=-Wno-error", "-DCMAKE_PROJECT_JSONPath_INCLUDE=/opt/vp/support/enable_testing.cmake", "-Wno-dev"], env=e)
            if r[0]: return r
        return sh(["ninja", "-C", b, "DFABuilder", "JSONPathParser", "JSONQueryEngine", "dfa_test", "jsonpath_test", "query_test"], env=e)
    def tests(self):
        b = self.dir + "/_build"; os.makedirs(b + "/reports", exist_ok=True)
        src = open("/opt/vp/support/cases.py").read().replace('REPO = "/repo"', 'REPO = "%s"' % self.dir)
        open("/tmp/trial/%s/cases.py" % self.slot, "w").write(src)
        sh(["ctest", "--test-dir", b, "--timeout", "120", "--output-junit", b + "/reports/ctest.xml"])
        sh([sys.executable, "/tmp/trial/%s/cases.py" % self.slot, b, b + "/reports/cases.txt"])
        out = "/tmp/trial/%s/out.json" % self.slot
        sh([sys.executable, "/opt/vp/results.py", out, "junit:" + b + "/reports/ctest.xml", "lines:" + b + "/reports/cases.txt"])
        return sorted(stable() - set(json.load(open(out))["passed"]))
    def check(self, cid, timeout=900):
        e = dict(os.environ, JPS_REPO=self.dir, JPS_BUILD=self.build, JPS_ROOT=self.root, VERIF_TIER="quick", VERIF_SEED="1", JPS_BIN=self.build + "/bin")
        t = time.time(); rc, out = sh([sys.executable, ROOT + "/run.py", cid], env=e, timeout=timeout)
        return rc, out, time.time() - t
def main():
    a = sys.argv[1:]; slot = "0"; checks = "own"
    if "--slot" in a: i = a.index("--slot"); slot = a[i + 1]; del a[i:i + 2]
    if "--checks" in a: i = a.index("--checks"); checks = a[i + 1]; del a[i:i + 2]
    d = a[0]; patch = d if os.path.isfile(d) else d + "/patch.diff"
    s = Scratch(slot); s.compile()
    demo = os.path.abspath(d) + "/demo.sh" if os.path.isdir(d) else None
    if demo: print("demo on the unchanged tree:", sh(["bash", demo], cwd=s.dir, timeout=300)[0])
    rc, out = s.apply(os.path.abspath(patch))
    if rc: print("does not apply:", out); return 2
    rc, out = s.compile()
    if rc: print("does not build:", out[-3000:]); return 2
    print("stable tests broken:", s.tests())
    if demo: r = sh(["bash", demo], cwd=s.dir, timeout=300); print("demo with the patch:", r[0], r[1][-400:])
    ids = json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]; ids = [c["property"] for c in ids]
    if checks == "own" and os.path.isdir(d): ids = [json.load(open(d + "/meta.json"))["property"]]
    elif checks == "none": ids = []
    elif checks not in ("all", "own"): ids = checks.split(",")
    for c in ids:
        rc, out, t = s.check(c); v = [l for l in out.splitlines() if "VIOLATION" in l]
        print("%s exit %d %.0f s  %s" % (c, rc, t, v[0][:300] if v else out[-300:] if rc else ""), flush=True)
if __name__ == "__main__": main()
