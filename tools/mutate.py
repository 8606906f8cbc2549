#!/usr/bin/env python3
"""Mutation campaign: small mechanical changes to /repo's code, each tried against the quick checks until one reports it.
usage: mutate.py list [FILE...]                    number and print the mutants
       mutate.py run SLOT SLOTS COUNT SEED [FILE...]     try every SLOTS-th of COUNT mutants drawn with SEED (results in /tmp/trial/mutants.log)
       mutate.py show ID                           print one mutant
Results are a development aid: nothing that decides a property reads them."""
import os, random, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import trial
Q = "JSONQuery/"; P = "JSONPathParser/"; D = "DFABuilder/"
ORDER = {Q + "streaming_automaton.c": "C01 C02 C13 C12 C16 C18 C14 C15 C09", Q + "streaming_automaton.h": "C01 C12 C14 C15 C18", Q + "predicate.c": "C02 C16 C12 C14 C15 C18", Q + "predicate.h": "C02 C16 C12 C14 C15 C18",
 Q + "multi_stack.h": "C09 C10 C12 C18 C15 C14", Q + "worker_automaton.c": "C09 C10 C12 C18 C15 C14", Q + "worker_automaton.h": "C09 C10 C12 C14 C15 C18", Q + "unit.h": "C09 C10 C12 C18 C15",
 Q + "parallel_automata_execution.h": "C09 C10 C12 C14 C15 C18", Q + "path_processor.h": "C08 C12 C14 C09 C10 C15 C01", Q + "file_partition.c": "C08 C14 C09 C15", Q + "file_partition.h": "C08 C12 C14 C15",
 Q + "lexing.c": "C07 C01 C09 C15 C14 C18", Q + "lexing.h": "C07 C01 C12 C14 C15 C18", Q + "constraint.h": "C13 C10 C14 C15 C18", Q + "stack.h": "C01 C09 C18 C15", Q + "tuple_list.h": "C01 C09 C14 C15 C18 C16", Q + "output.h": "C01 C16 C14 C15 C18", Q + "utility.c": "C01 C08 C09 C14 C15",
 D + "src/dfa_builder.cpp": "C05 C01 C02 C15 C14", D + "include/dfa.h": "C05 C01 C14 C15", D + "include/dfa_builder.h": "C05 C02 C15",
 P + "jsonpath_evaluator.h": "C03 C02 C15 C14", P + "jsonpath_model.h": "C04 C03 C15", P + "parser_j.y": "C04 C03", P + "scanner_j.l": "C04 C03 C15"}
for f in "charset dfa_compressed dfa_mixer dfa_simple ecset_converter equivalence_class regex_builder regex_model set_converter".split(): ORDER[D + "src/Lexer/" + f + ".cpp"] = "C06 C05 C15"
for f in "charset dfa dfa_compressed regex_model model_core utility ecset_converter set_converter equivalence_class".split(): ORDER[D + "include/Lexer/" + f + ".hpp"] = "C06 C05 C15"
def mutations(code):
    """(column, length, replacement) of every change to one line"""
    out = []
    for m in re.finditer(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])+\'|<=|>=|==|!=|&&|\|\||\+\+|--|->|<<|>>|[+\-*]=|[<>+\-*/%!]|\b\d+\b|\b(?:true|false|break|continue)\b', code):
        t = m.group(); s = m.start(); n = len(t); alts = []
        if t[0] in "\"'" : continue
        if t == "<" or t == ">":
            if re.search(r"(include|vector|map|set|template|_cast|unique_ptr|pair|list|function)\s*$", code[:s]) or "#include" in code or re.search(r"<[\w:,\s*<>]*>", code) and "if" not in code and "for" not in code and "while" not in code: continue
            alts = [t + "="]
        elif t in ("<=", ">="): alts = [t[0]]
        elif t == "==": alts = ["!="]
        elif t == "!=": alts = ["=="]
        elif t == "&&": alts = ["||"]
        elif t == "||": alts = ["&&"]
        elif t in "+-" and s and re.search(r"[\w)\]]\s*$", code[:s]): alts = ["-" if t == "+" else "+"]
        elif re.fullmatch(r"\d+", t): alts = [str(int(t) + 1)] + ([str(int(t) - 1)] if int(t) else [])
        elif t in ("true", "false"): alts = ["false" if t == "true" else "true"]
        elif t in ("break", "continue") and code.strip() == t + ";" : alts = [""]
        elif t == "!" and code[s + 1:s + 2] not in "=": alts = [""]
        out += [(s, n, a) for a in alts]
    # narrower types, one operand less, a neighbour's name
    for m in re.finditer(r"(?:^\s*|[(,{]\s*)(?:const |static )?(unsigned int|unsigned long|unsigned|size_t|int|long|double)\s+(?=\w+\s*(?:[;=,)\[]))", code): s = m.start(1); n = len(m.group(1)); out += [(s, n, a) for a in (("float",) if m.group(1) == "double" else ("short", "signed char"))]
    for m in re.finditer(r"(?<=[(&|])\s*([^()&|]+|[^()&|]*\([^()]*\)[^()&|]*)(&&|\|\|)\s*([^()&|]+|[^()&|]*\([^()]*\)[^()&|]*)(?=[)&|])", code): out += [(m.start(), len(m.group()), m.group(1)), (m.start(), len(m.group()), m.group(3))]
    for m in re.finditer(r"\b(?:lower|upper|start|end|first|last|LB|LCB|RB|RCB|KY|PRI|STR|VAL_STR|VAL_PRI|KEY|OBJECT|ARRAY|left|right|parent|root|next|current|low|high|DFA_CONDITION|DFA_OUTPUT_CANDIDATE|DFA_PREDICATE|DFA_OUTPUT_PREDICATE|i|j|k)\b", code):
        pairs = dict(lower="upper", upper="lower", start="end", end="start", first="last", last="first", LB="LCB", LCB="LB", RB="RCB", RCB="RB", KY="LB", OBJECT="ARRAY", ARRAY="OBJECT", left="right", right="left", parent="root", root="parent", next="current", current="next", low="high", high="low", DFA_CONDITION="DFA_OUTPUT_CANDIDATE", DFA_OUTPUT_CANDIDATE="DFA_CONDITION", DFA_PREDICATE="DFA_OUTPUT_PREDICATE", DFA_OUTPUT_PREDICATE="DFA_PREDICATE", i="j", j="i")
        if m.group() in pairs and not re.match(r"\s*case\b", code): out.append((m.start(), len(m.group()), pairs[m.group()]))
    b = code.strip()
    if b.endswith(";") and not re.match(r"(const |static |struct |unsigned |int|char|long|double|float|bool|auto|return|Token|Lexer|Tuple|Output|TreeNode|QueryStack|JSONQuery|ASTNode|std::|vector|set<|map<|Unit|PredicateS|JSONPath|regex_char|Regex|DFA|#|typedef|using|break|continue|SyntaxStack|[A-Z]\w+\*? \w+)\b[^=(]*", b) and not b.startswith(("printf", "}", "//", "/*", "cout", "gettimeofday", "exe_timestamp")): out.append((len(code) - len(code.lstrip()), len(code.strip()), ";"))
    return out
NEW = os.environ.get("MUTATE_NEW")      # only narrower types, dropped operands and exchanged names
def mutants(files=None):
    r = []
    for f in sorted(ORDER):
        if files and not any(x in f for x in files): continue
        text = open("/repo/" + f, newline="").read().split("\n"); comment = False; skip = 0; prose = False
        for i, l in enumerate(text):
            code = re.sub(r"//.*", lambda m: " " * len(m.group()), l.rstrip("\r"))
            if "/*" in code: comment = True
            if comment:
                if "*/" in code: comment = False
                continue
            if re.match(r"\s*#", code) and not re.match(r"\s*#define \w+ \d+", code): continue
            if re.search(r"\b(print\w*|printf|fprintf|cout|cerr)\b", code): 
                if re.match(r"(static inline )?void .*print\w*\(.*\)\s*\{?\s*$", code.strip()): skip = 1
                continue
            if skip:                                             # the body of a printing function
                if re.match(r"\}", code): skip = 0
                continue
            for m in mutations(code):
                if not NEW or re.match(r'short|signed char|float', m[2]) or not re.search(r'[-+<>=!*/%0-9;]|^$', m[2]): r.append((f, i, m))
    return r
def text_of(m):
    f, i, (s, n, a) = m; t = open("/repo/" + f, newline="").read().split("\n"); old = t[i]; t[i] = old[:s] + a + old[s + n:]
    return "\n".join(t), old, t[i]
def main():
    a = sys.argv[1:]
    if a[0] == "list":
        ms = mutants(a[1:])
        for k, m in enumerate(ms): o = text_of(m); print(k, m[0], m[1] + 1, o[1].strip(), " => ", o[2].strip())
        return
    slot, slots, count, seed = map(int, a[1:5]); ms = mutants(a[5:]); random.Random(seed).shuffle(ms); ms = ms[:count][slot::slots]
    s = trial.Scratch("m%d" % slot); log = open("/tmp/trial/mutants.log", "a")
    for m in ms:
        f = m[0]; new, old, nl = text_of(m); s.reset(); open(s.dir + "/" + f, "w", newline="").write(new); t = time.time()
        rc, out = s.compile(); where = "%s:%d  %s  =>  %s" % (f, m[1] + 1, old.strip(), nl.strip())
        if rc: log.write("BUILD   %s\n" % where); log.flush(); continue
        hit = None
        for c in ORDER[f].split():
            rc, out, _ = s.check(c, 600); v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            if rc == 1 and v: hit = c; break
            if rc: hit = c + "?rc=%d %s" % (rc, out[-200:].replace("\n", " ")); break
        if hit: log.write("caught  %s  %s  %.0f s\n" % (hit, where, time.time() - t))
        else: log.write("MISSED  %s  stable tests broken: %s  %.0f s\n" % (where, s.tests(), time.time() - t))
        log.flush()
if __name__ == "__main__": main()
