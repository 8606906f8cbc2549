#!/usr/bin/env python3
"""usage: run.py C01 [--replay FILE]   Builds the check from /repo's working tree and the committed harness, and runs it.
VERIF_TIER=quick|thorough selects the bounds. Exit 0: holds; 1: VIOLATION printed; anything else: the check itself failed."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
CHECKS = {   # id: (variant, sources)
    "C01": ("fast", ["checks/c01.cpp", "harness/shim.c"]),
    "C02": ("fast", ["checks/c02.cpp", "harness/shim.c"]),
    "C03": ("fast", ["checks/c03.cpp", "harness/shim.c", "harness/shim_expr.c"]),
    "C04": ("fast", ["checks/c04.cpp", "harness/shim.c", "harness/shim_expr.c"]),
    "C05": ("fast", ["checks/c05.cpp", "harness/shim.c", "harness/shim_dfa.c"]),
    "C06": ("fast", ["checks/c06.cpp"]),
    "C07": ("fast", ["checks/c07.cpp", "harness/shim.c", "harness/shim_lex.c"]),
    "C08": ("fast", ["checks/c08.cpp", "harness/shim.c"]),
    "C09": ("fast", ["checks/c09.cpp", "harness/shim.c"]),
    "C10": ("fast", ["checks/c10.cpp", "harness/shim.c"]),
    "C11": ("sched", ["checks/c11.nosan.cpp", "harness/shim.c"]),
    "C12": ("fast", ["checks/c12.cpp", "harness/shim.c"]),
    "C13": ("fast", ["checks/c13.cpp", "harness/shim.c", "harness/shim_dfa.c", "harness/shim_table.c"]),
    "C14": ("fast", ["checks/c14.cpp", "harness/shim.c"]),
    "C15": ("asan", ["checks/c15.cpp", "harness/shim.c"]),
    "C16": ("fast", ["checks/c16.cpp", "harness/shim.c"]),
    "C18": ("fast", ["checks/c18.cpp", "harness/shim.c"]),
}
def binary(cid):
    variant, srcs = CHECKS[cid]
    out = os.path.join(os.environ.get("JPS_BIN", os.path.join(HERE, "build", "bin")), cid.lower())
    p = subprocess.run([sys.executable, os.path.join(HERE, "harness", "build.py"), variant, out] + [os.path.join(HERE, s) for s in srcs])
    if p.returncode != 0: sys.exit(2)
    return out
def main():
    cid = sys.argv[1]
    if cid == "--setup":
        for c in CHECKS: binary(c)
        return 0
    os.environ.setdefault("JPS_ROOT", HERE)
    sys.stdout.flush()
    b = binary(cid)
    os.chdir(HERE)
    os.execv(b, [b] + sys.argv[2:])
sys.exit(main())
