#!/usr/bin/env python3
"""Builds JPStream's sources (from /repo's working tree) in a chosen variant and links an explorer with them.
usage: build.py VARIANT OUT_BINARY HARNESS.cpp...      VARIANT: asan | fast | native | sched
Object files are cached under /verif/build/VARIANT by a hash of the sources' contents and the flags."""
import glob, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get("JPS_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get("JPS_BUILD", os.path.join(os.path.dirname(HERE), "build"))
HOOK = ["-DJPS_VERIF", "-DJPS_VERIF_MAX_OUTPUT=160", "-DJPS_VERIF_MAX_TUPLE_LIST=400"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=shift,alignment,float-cast-overflow,vptr", "-fno-sanitize-recover=undefined",
        "-fno-omit-frame-pointer"]
VARIANTS = {
    "asan":   dict(c=["-O1", "-g"] + ASAN + HOOK, link=ASAN),
    "fast":   dict(c=["-O2", "-g"] + HOOK, link=[]),
    "native": dict(c=["-O2", "-g"], link=[]),
    # instrumented for the runtime of sched.hpp, which is linked instead of libtsan; calls into libc go through it as well
    "sched":  dict(c=["-O1", "-g", "-fsanitize=thread", "-fno-builtin", "-fno-inline", "-fno-optimize-sibling-calls"] + HOOK, link=[]),
}
def redirected():
    return sorted(set(re.findall(r"\bjv_(\w+)\(", open(os.path.join(HERE, "sched.hpp")).read())))
def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(" ".join(cmd) + "\n" + p.stdout); raise SystemExit(2)
def main():
    variant, out, harness = sys.argv[1], sys.argv[2], sys.argv[3:]
    v = VARIANTS[variant]
    work = os.path.join(ROOT, variant); os.makedirs(work, exist_ok=True)
    inc = ["-I" + os.path.join(REPO, d) for d in ("DFABuilder/include", "DFABuilder/interface", "JSONPathParser", "JSONQuery")]
    h = hashlib.sha256()
    srcs = []
    for d in ("DFABuilder", "JSONPathParser", "JSONQuery"):
        for base, _, fs in sorted(os.walk(os.path.join(REPO, d))):
            for f in sorted(fs):
                if f.endswith((".c", ".cpp", ".h", ".hpp", ".y", ".l")):
                    srcs.append(os.path.join(base, f))
    for f in srcs: h.update(f.encode()); h.update(open(f, "rb").read())
    lib = h.hexdigest()[:16]
    gen = os.path.join(ROOT, "gen-" + lib); os.makedirs(gen, exist_ok=True)
    if not os.path.exists(gen + "/ok"):
        run(["flex", "--header-file=" + gen + "/scanner_j.h", "-o", gen + "/scanner_j.c", REPO + "/JSONPathParser/scanner_j.l"])
        run(["bison", "-d", "-o", gen + "/parser_j.c", REPO + "/JSONPathParser/parser_j.y"])
        open(gen + "/ok", "w").close()
    inc.append("-I" + gen)
    cxx = sorted(glob.glob(REPO + "/DFABuilder/src/*.cpp") + glob.glob(REPO + "/DFABuilder/src/Lexer/*.cpp"))
    cc = sorted(glob.glob(REPO + "/JSONQuery/*.c")) + [gen + "/parser_j.c", gen + "/scanner_j.c"]
    jobs, objs = [], []
    def add(src, compiler, std, extra, key):
        k = hashlib.sha256((key + src + str(v["c"]) + str(extra) + ("".join(redirected()) if variant == "sched" else "")).encode()).hexdigest()[:16]
        o = os.path.join(work, os.path.basename(src) + "." + k + ".o"); objs.append(o)
        if not os.path.exists(o):
            tmp = o + ".tmp%d" % os.getpid()
            jobs.append(([compiler, std, "-w", "-mcmodel=medium", "-D_GNU_SOURCE"] + v["c"] + extra + inc + ["-I" + HERE, "-c", src, "-o", tmp], tmp, o))
    for s in cxx: add(s, "g++", "-std=c++11", [], lib)
    for s in cc: add(s, "gcc", "-std=c99", [], lib)
    hh = hashlib.sha256(lib.encode())
    for f in sorted(glob.glob(HERE + "/*")):
        if os.path.isfile(f) and f.endswith((".h", ".hpp", ".c", ".cpp")): hh.update(open(f, "rb").read())
    for s in harness: hh.update(open(s, "rb").read())
    for s in harness:
        if s.endswith(".nosan.cpp") or s.endswith(".nosan.c"):
            k = hashlib.sha256((hh.hexdigest() + s).encode()).hexdigest()[:16]
            o = os.path.join(work, os.path.basename(s) + "." + k + ".o"); objs.append(o)
            if not os.path.exists(o):
                tmp = o + ".tmp%d" % os.getpid()
                jobs.append((["g++", "-std=c++17", "-w", "-mcmodel=medium", "-D_GNU_SOURCE", "-O2", "-g"] + inc + ["-I" + HERE, "-c", s, "-o", tmp], tmp, o))
        elif s.endswith(".c"): add(s, "gcc", "-std=c99", [], hh.hexdigest())
        else: add(s, "g++", "-std=c++17", [], hh.hexdigest())
    syms = os.path.join(work, "redirect.%d" % os.getpid())
    if variant == "sched": open(syms, "w").write("".join("%s jv_%s\n" % (x, x) for x in redirected()))
    def one(j):
        run(j[0])
        if variant == "sched" and ".nosan." not in j[2]: run(["objcopy", "--redefine-syms=" + syms, j[1]])
        os.rename(j[1], j[2])
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))
    if variant == "sched": os.unlink(syms)
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(os.path.dirname(os.path.abspath(out)), exist_ok=True)
    run(["g++", "-mcmodel=medium"] + objs + v["link"] + ["-lpthread", "-o", tmp]); os.rename(tmp, out)
main()
