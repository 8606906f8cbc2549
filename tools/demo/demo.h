/* What a demonstration needs: run a query on a text in one of the ways the engine offers and compare the complete result. */
#include <stdbool.h>
#include <ctype.h>
#include "path_processor.h"
#ifdef JPS_VERIF
int jps_verif_memory_footprint = 250000000;
#endif
static int failures = 0;
static const char* put_text(const char* name, const char* text) { FILE* f = fopen(name, "w"); fputs(text, f); fclose(f); return name; }
static void compare(const char* what, Output* o, int n, const char** want) {
    int ok = o != NULL ? getOutputSize(o) == n : n == 0;
    for (int i = 0; ok && i < n; i++) ok = strcmp(getOutputElement(o, i), want[i]) == 0;
    if (ok) return;
    failures++; fprintf(stderr, "%s: expected", what); for (int i = 0; i < n; i++) fprintf(stderr, " <%s>", want[i]);
    fprintf(stderr, ", got"); for (int i = 0; o && i < getOutputSize(o); i++) fprintf(stderr, " <%s>", getOutputElement(o, i)); fprintf(stderr, "\n");
}
#define WANT(...) (const char*[]){__VA_ARGS__}
#define COUNT(...) ((int)(sizeof((const char*[]){__VA_ARGS__}) / sizeof(char*)))
static PathProcessor* query(const char* q) { return createPathProcessor((char*)q); }
#define SERIAL(q, doc, ...) compare("serial " q, serialRun(query(q), (char*)put_text("in.json", doc)), COUNT(__VA_ARGS__), WANT(__VA_ARGS__))
#define SERIAL0(q, doc) compare("serial " q, serialRun(query(q), (char*)put_text("in.json", doc)), 0, NULL)
#define PARALLEL(q, n, doc, ...) compare("parallel " q, parallelRun(query(q), (char*)put_text("in.json", doc), n), COUNT(__VA_ARGS__), WANT(__VA_ARGS__))
static Output* with_constraints(const char* q, const char* training, int cores, const char* doc) {
    PathProcessor* p = query(q); ConstraintTable* ct = collectDataConstraints(p, (char*)put_text("train.json", training));
    return parallelRunOpt(p, (char*)put_text("in.json", doc), cores, ct);
}
static Output* in_parts(const char* q, int n, const char** parts) {          /* serialPartialRun over consecutive parts */
    PathProcessor* p = query(q); StreamingContext ci; initStreamingContext(&ci); Output* o = NULL;
    for (int i = 0; i < n; i++) { char* s = strdup(parts[i]); o = serialPartialRun(p, s, &ci); free(s); }
    return o;
}
static Output* over_chunks(const char* q, int n, const char** parts) {        /* the parallel automata over these chunks */
    PathProcessor* p = query(q); PartitionInfo pi; pi.num_chunk = n; pi.stream = (char**)malloc(n * sizeof(char*)); for (int i = 0; i < n; i++) pi.stream[i] = strdup(parts[i]);
    ParallelAutomata pa; initParallelAutomata(&pa, p->query_automaton); executeParallelAutomata(&pa, pi, NULL);
    PredicateFilter pf; initPredicateFilter(&pf, pa.tuple_list, p->query_context); return generateFinalOutput(&pf);
}
