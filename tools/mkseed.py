#!/usr/bin/env python3
"""Creates seeded/<id> from a description. usage: mkseed.py FILE.py   where FILE.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, what, demo)]"""
import difflib, json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    d = ROOT + "/seeded/" + s["id"]; os.makedirs(d, exist_ok=True); patch = ""
    files = {}
    for f, old, new in s["edits"]:
        t = files.setdefault(f, [open("/repo/" + f, newline="").read()] * 2); cur = t[1]
        assert cur.count(old) == 1, (s["id"], f, cur.count(old), old)
        files[f] = [t[0], cur.replace(old, new)]
    for f, (a, b) in files.items():
        patch += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w", newline="").write(patch)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.c", "w").write(s["demo"].lstrip("\n")); shutil.copy(ROOT + "/tools/demo/demo.h", d)
    open(d + "/demo.sh", "w").write(s.get("sh") or open(ROOT + "/tools/demo/demo.sh").read()); os.chmod(d + "/demo.sh", 0o755)
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], capture_output=True, text=True); print(s["id"], r.returncode, r.stderr)
