#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table. usage: tools/meta.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))
Q = "JSONQuery/"; B = "DFABuilder/"; J = "JSONPathParser/"
prop("C01", "Structural queries select exactly what JSONPath denotes",
 "For every query made of child, wildcard, descendant, index and slice steps and every well-formed JSON document, the serial run returns exactly the values the query denotes. Each is returned once, as the verbatim text of the document, in the order in which the values end.",
 ["inputs", "programs"], "all queries x all documents; explored: all short queries over the full step alphabet x all small documents, all placements of blanks, all short strings with escapes and punctuation, all primitive forms",
 "The tests run six fixed queries and mostly check that something is printed; they never compare a full result with an independent evaluation.",
 [Q+"streaming_automaton.c", Q+"lexing.c", Q+"path_processor.h", B+"src/dfa_builder.cpp"],
 [("transition rules over tokens, syntax stack and query stack", Q+"streaming_automaton.c executeAutomaton"), ("tokenizer", Q+"lexing.c nextToken"), ("query automaton", B+"src/dfa_builder.cpp buildJSONQueryDFA")],
 ["serialRun", "getOutputSize, getOutputElement"], [("query stack", "automaton state, element counter and start of a candidate per nesting level", Q+"stack.h")])
prop("C02", "Filter queries select exactly the values whose filters hold",
 "For every query with one or more filter steps and every well-formed document, the serial run returns exactly the values below those array elements for which every filter on the way holds, wherever in an element the filter's inputs stand. Values of elements that fail are never returned and no passing element loses a value.",
 ["inputs", "programs"], "all filter queries x all documents; explored: prefix x filter x suffix with all small arrays, all lists of record kinds, all pairs of condition values, all subsets of passing elements, nested filters",
 "The tests contain three filter queries on one data set with one outcome each; order of members, missing members and nested filters are not reached.",
 [Q+"predicate.c", Q+"predicate.h", Q+"streaming_automaton.c", J+"jsonpath_evaluator.h"],
 [("element brackets and condition tuples", Q+"streaming_automaton.c"), ("filtering of the tuple list", Q+"predicate.c generateFinalOutput")], ["serialRun"],
 [("predicate stack", "elements under examination, their conditions and their pending outputs", Q+"predicate.h")])
prop("C03", "A filter condition evaluates by its operators on the values found",
 "For every condition built from variables, literals, comparison, arithmetic and logical operators and every assignment of JSON values (or absence) to its variables, evaluation yields the value given by the operators' meaning and usual precedence. It never depends on anything but those values.",
 ["inputs", "programs"], "all condition texts x all assignments; explored: up to three (thorough four) operators over all 13 operators and negation x all combinations of up to 20 value kinds",
 "The tests evaluate a handful of conditions, never an absent, null, boolean, string-versus-number or container value.",
 [J+"jsonpath_evaluator.h", J+"parser_j.y", J+"scanner_j.l"], [("recursive evaluation with dynamic types", J+"jsonpath_evaluator.h evaluateExpression"), ("grammar precedences", J+"parser_j.y")], ["evaluateExpression"])
prop("C04", "A query text is parsed into the steps and conditions it denotes",
 "Every query text in the supported syntax is parsed into the sequence of its steps and the expression trees of its conditions, independently of blanks and of what was parsed before. No step, name, bound or literal is lost or altered.",
 ["inputs", "programs", "histories"], "all query texts; explored: all step sequences up to a length, all operator sequences, all bracketings, number and name forms, blank placements, parse histories",
 "The tests print the tree of a few texts without comparing it.",
 [J+"scanner_j.l", J+"parser_j.y", J+"jsonpath_model.h"], [("generated scanner and parser", J+"scanner_j.l, "+J+"parser_j.y"), ("syntax tree", J+"jsonpath_model.h")], ["analysisJSONPath"])
prop("C05", "The automaton of a query accepts exactly the paths the query denotes",
 "The automaton compiled from a query follows a path of names and array entries to a state whose role (output, filter, filter variable, none) and index range are those the query gives to that path. A state from which nothing can be selected any more is exactly one that no continuation of the path can turn into a selection.",
 ["programs", "inputs"], "all queries x all paths; explored: all queries up to a length x every state of the product of automaton and reference automaton, hence paths of every length",
 "The tests build automata for a few queries and print them; no path is checked against the query.",
 [B+"src/dfa_builder.cpp", B+"include/dfa.h", B+"include/dfa_builder.h"], [("regular expression per step, subset construction, minimisation", B+"src/dfa_builder.cpp"), ("tables used at run time", B+"include/dfa.h")], ["dfaNextStateByStr", "getDFAAcceptType", "getDFAArrayIndex", "getDFAStopState"])
prop("C06", "The regular-expression compiler preserves every rule's language",
 "The automaton that the regular-expression compiler produces from a set of rules accepts exactly the non-empty words that match some rule. For each such word it lists all rules that match and reports the last of them. Repetition, alternatives, sets and ranges, references, start conditions, the mixing of several rules, the compression of the tables and the mapping of symbols to equivalence classes never change what is accepted.",
 ["programs", "inputs"], "all rule sets x all words; explored: all expressions up to a size over a small alphabet, alone, in pairs, triples and quadruples, all set texts up to three items, wide rule sets over up to 45 symbols, each x the full product automaton, hence words of every length",
 "The tests build two fixed rule sets and look at a few words.",
 [B+"src/Lexer", B+"include/Lexer", B+"interface/dragontooth.h"], [("expression to DFA by follow positions", B+"src/Lexer/regex_builder.cpp, "+B+"src/Lexer/regex_model.cpp"), ("sets", B+"src/Lexer/charset.cpp, "+B+"src/Lexer/set_converter.cpp, "+B+"src/Lexer/equivalence_class.cpp"), ("mixing of several automata", B+"src/Lexer/dfa_mixer.cpp"), ("compressed tables", B+"src/Lexer/dfa_compressed.cpp")], ["DFACompressed nextState, isStopState; RegexModel stop_rules; dtl_nextState"])
prop("C07", "Every well-formed input is cut into its tokens, with their texts and positions",
 "For every sequence of JSON tokens separated by any blanks, reading tokens yields exactly that sequence: names, strings and primitives with their verbatim text, brackets with their kind. The reading position after each token is where the next token may begin, so that concatenating what was consumed gives back the input.",
 ["inputs"], "all token sequences x all blank placements; explored: all sequences up to a length over a token alphabet with every blank sequence between them, from every token boundary",
 "The tests see tokens only through whole queries on two data sets with one layout.",
 [Q+"lexing.c", Q+"lexing.h"], [("state machine per token", Q+"lexing.c nextToken")], ["initLexer, nextToken, destroyLexer"])
prop("C08", "Partitioning and bounded loading only cut, and only where a token begins",
 "For every input and every number of cores or footprint, the pieces handed to the engines concatenate to the input, there are at most as many as asked for, and every piece after the first begins at a token outside of strings. Cutting a file and cutting a stream give the same pieces and leave the input unchanged.",
 ["inputs", "configurations"], "all inputs x cores x footprints; explored: all small documents, strings with quotes, escapes and brackets, layouts, 1-99 cores, every footprint",
 "The tests use one footprint and two core counts on two data sets.",
 [Q+"file_partition.c", Q+"file_partition.h"], [("scan for the next safe cut", Q+"file_partition.h"), ("bounded loader", Q+"file_partition.c")], ["partitionFile, partitionInputStream, loadBoundedInputStream, loadInputStream"],
 hook="jps_verif_memory_footprint (JPS_VERIF) makes the footprint settable")
prop("C09", "Parallel execution returns exactly the serial result",
 "For every query, document and number of cores, parallel execution returns the same values in the same order as serial execution. This holds wherever the input was cut.",
 ["inputs", "programs", "configurations"], "all queries x documents x cores x legal cuts; explored: all small queries and documents with every set of legal cuts, and 1-24 (64) cores on larger arrays",
 "The tests compare parallel with serial only by the number of results on two data sets, at one cut each.",
 [Q+"worker_automaton.c", Q+"multi_stack.h", Q+"parallel_automata_execution.h", Q+"unit.h"],
 [("speculative execution from every state", Q+"worker_automaton.c"), ("multi-path query stacks", Q+"multi_stack.h"), ("merge with reprocessing", Q+"parallel_automata_execution.h combine")], ["parallelRun", "executeParallelAutomata"])
prop("C10", "Learned constraints never change a parallel result",
 "For every query and document, parallel execution with constraints learned from any document returns the result of serial execution. A training document that does not resemble the input costs time only.",
 ["inputs", "programs", "configurations"], "all queries x documents x training documents x cuts; explored: all small ones, including foreign, empty and misleading training documents",
 "The tests train and run on the same data.",
 [Q+"constraint.h", Q+"worker_automaton.c", Q+"parallel_automata_execution.h"], [("pruning of start states", Q+"worker_automaton.c, "+Q+"multi_stack.h pruneQueryPaths"), ("verification and reprocessing", Q+"parallel_automata_execution.h combine")], ["collectDataConstraints", "parallelRunOpt"])
prop("C11", "Parallel execution is race-free and independent of the thread schedule",
 "Under every interleaving of its threads, parallel execution performs no unsynchronised conflicting accesses, terminates, and returns the same result. This also holds for several runs, of the same or of different queries created beforehand, at the same time in one process.",
 ["schedules", "inputs"], "all thread interleavings; explored: every schedule up to a number of preemptions at every visible operation of the worker threads and of concurrent runs, on inputs that take every transition rule",
 "A test run sees one schedule; the threads of the tests run long enough never to meet.",
 [Q+"parallel_automata_execution.h", Q+"worker_automaton.c", Q+"constraint.h", Q+"lexing.c", J+"parser_j.y"], [("private state per worker, shared read-only automaton and table, join before merge", Q+"parallel_automata_execution.h executeParallelAutomata")], ["parallelRun, parallelRunOpt, executeParallelAutomata"])
prop("C12", "A bounded memory footprint does not change any result",
 "For every query and document, loading and processing the input in consecutive parts, serially or in parallel, returns what processing it in one piece returns. This holds for every footprint, in particular when values, objects and arrays span parts.",
 ["inputs", "programs", "configurations"], "all queries x documents x footprints; explored: every footprint of every small document, every set of legal cuts for the partial runs",
 "The tests' data sets are smaller than the footprint or use one cut.",
 [Q+"path_processor.h", Q+"streaming_automaton.c", Q+"predicate.c"], [("state kept between parts", Q+"path_processor.h serialPartialRun, parallelPartialRun"), ("text of unfinished candidates", Q+"streaming_automaton.c")], ["serialRun, parallelRun", "serialPartialRun, parallelPartialRun"],
 hook="jps_verif_memory_footprint (JPS_VERIF) makes the footprint settable")
prop("C13", "The learned table holds exactly the states met at each name and array",
 "Learning from a document records, for every name and for arrays, exactly the automaton states in which that document presents it, each once, and answers lookups with that set, and with nothing for a name never met. What is recorded does not depend on the order, number or length of the names.",
 ["inputs", "programs"], "all queries x training documents x lookups; explored: all small documents x queries, many and long names",
 "No test looks at the table.",
 [Q+"constraint.h", Q+"streaming_automaton.c"], [("recording during a serial run", Q+"streaming_automaton.c executeAutomaton"), ("table of names and state sets", Q+"constraint.h")], ["collectDataConstraints, updateStateInfo"])
prop("C14", "Runs are independent of each other and leave nothing behind",
 "A run's result does not depend on the runs, queries, failed runs and releases before it in the same process, and running again yields the same result. Every run releases its files, memory and threads, also when an input is missing or empty.",
 ["histories", "inputs", "fault_sequences"], "all histories of creating, running, learning, partial running, failing and releasing; explored: every history up to a depth over two queries and four inputs",
 "Each test runs one query once.",
 [Q+"path_processor.h", Q+"parallel_automata_execution.h", Q+"output.h", Q+"tuple_list.h", J+"parser_j.y"], [("create and release per run", Q+"path_processor.h"), ("process-wide parser state", J+"parser_j.y")], ["all public calls; /proc/self/fd, allocator statistics, thread count"])
prop("C15", "No well-formed input makes any engine touch memory it does not own",
 "For every supported query and every well-formed document, in every way to run it, no access leaves the object it is made to, touches released memory or has undefined arithmetic. Sizes of values, names, arrays, results and numbers of cores within the documented limits do not matter.",
 ["inputs", "programs", "configurations"], "all queries x documents x ways to run; explored: reduced spaces of C01-C18 under address and undefined-behaviour instrumentation, every size around each capacity",
 "The tests run uninstrumented on two data sets whose sizes stay below the capacities.",
 [Q+"lexing.c", Q+"tuple_list.h", Q+"output.h", Q+"utility.c", Q+"constraint.h", Q+"multi_stack.h", Q+"predicate.h"], [("growing buffers and capacity checks", Q+"tuple_list.h, "+Q+"output.h, "+Q+"lexing.c")], ["any engine; reports of the instrumentation"])
prop("C16", "Filtering in several steps equals filtering at once",
 "For every list of matches, producing the output from consecutive parts of the list yields what producing it from the whole list yields, wherever the list is cut. The output of an element is emitted exactly when its filters hold, and elements still open at a cut are decided later, not dropped or emitted early.",
 ["inputs", "histories"], "all lists of matches x all cuts; explored: all well-nested lists up to a length over the roles and condition values, every set of cuts",
 "The tests filter one complete list per query.",
 [Q+"predicate.c", Q+"predicate.h", Q+"tuple_list.h"], [("predicate stack kept between calls", Q+"predicate.h")], ["initPredicateFilter, generateFinalOutput"])
prop("C18", "Results do not depend on the size of values, names, lists or nesting",
 "For documents and queries of any size within the documented limits (100 nested containers and names, 100 automaton states, 100 threads), every engine returns the values the query denotes. Capacities of internal buffers are never observable.",
 ["inputs", "programs", "configurations"], "all sizes; explored: every size around each power of two and capacity, up to several thousand, for 18 families of documents x all ways to run",
 "The tests' documents keep every buffer within its initial capacity.",
 [Q+"lexing.c", Q+"tuple_list.h", Q+"output.h", Q+"constraint.h", Q+"utility.c"], [("growing buffers", Q+"tuple_list.h, "+Q+"output.h, "+Q+"lexing.c reserveContent")], ["serialRun, parallelRun, parallelRunOpt"])
TECH = {
 "C01": ("bounded exhaustive enumeration of queries x documents on the real engine against a reference evaluator", "exploration"),
 "C02": ("bounded exhaustive enumeration of filter queries x documents on the real engine against a reference evaluator", "exploration"),
 "C03": ("bounded exhaustive enumeration of conditions x value assignments on the real evaluator", "exploration"),
 "C04": ("bounded exhaustive enumeration of query texts and parse histories on the real parser", "exploration"),
 "C05": ("explicit-state search of the product of the real automaton with a reference automaton; every state's path replayed through the engine", "model_checking"),
 "C06": ("explicit-state search of the product of the real automaton with a derivative automaton of the rules", "model_checking"),
 "C07": ("bounded exhaustive enumeration of token sequences and blanks on the real lexer", "exploration"),
 "C08": ("bounded exhaustive enumeration of inputs x cores x footprints on the real partitioner and loader", "exploration"),
 "C09": ("bounded exhaustive enumeration of queries x documents x cut sets on the real parallel engine against the serial engine", "exploration"),
 "C10": ("bounded exhaustive enumeration of queries x training documents x documents x cut sets on the real parallel engine", "exploration"),
 "C11": ("stateless model checking of the real threads: all schedules up to a preemption bound, with happens-before race detection", "model_checking"),
 "C12": ("bounded exhaustive enumeration of queries x documents x footprints and input cuts on the real engines", "exploration"),
 "C13": ("bounded exhaustive enumeration of queries x training documents on the real learner against a reference walk", "exploration"),
 "C14": ("exhaustive enumeration of operation histories up to a depth on the real API, with injected missing and empty inputs", "exploration"),
 "C15": ("bounded exhaustive enumeration of queries x documents x ways to run under address and undefined-behaviour instrumentation", "exploration"),
 "C16": ("bounded exhaustive enumeration of tuple lists and cut sets on the real filter", "exploration"),
 "C18": ("exhaustive enumeration of sizes around every capacity on the real engines", "exploration"),
}
NOTE = "Every case inside the stated bounds is executed on the code built from /repo; nothing is sampled. Assumes well-formed inputs, the small-scope bounds in the evidence file and the correctness of the reference in harness/."
import run_checks_list
def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as o:
        for p in P: o.write(json.dumps(p, ensure_ascii=True) + "\n")
    have = run_checks_list.ids()
    man = dict(version=1, setup_cmd="python3 run.py --setup",
        hooks=dict(guard="JPS_VERIF", enable="harness/build.py compiles every source with -DJPS_VERIF", source_commits=["c89bb6abc928fc7f5da899a352d4717ff0daa5fd"]),
        checks=[dict(property=p["id"], quick_cmd="python3 run.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 run.py " + p["id"], technique=TECH[p["id"]][0], level=TECH[p["id"]][1], level_note=NOTES.get(p["id"], NOTE)) for p in P if p["id"] in have],
        not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")) for p in P if p["id"] not in have])
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1); open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
NA = {}
NOTES = {}
main()
