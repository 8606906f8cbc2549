#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <ctype.h>
#include "path_processor.h"
#include "shim.h"
int jps_verif_memory_footprint = 250000000;

void jres_free(JRes* r) { for (int i = 0; i < r->n; i++) free(r->v[i]); if (r->n >= 0) free(r->v); r->n = -1; r->v = NULL; }
JRes jps_take(Output* o) {
    JRes r; r.n = -1; r.v = NULL;
    if (o == NULL) return r;
    r.n = getOutputSize(o);
    r.v = (char**)malloc(sizeof(char*) * (r.n + 1));
    for (int i = 0; i < r.n; i++) r.v[i] = strdup(getOutputElement(o, i));
    freeOutput(o);
    return r;
}
void* jps_create(const char* q) { return createPathProcessor((char*)q); }
void jps_destroy(void* pp) { freePathProcessor((PathProcessor*)pp); }
JRes jps_serial(void* pp, const char* f) { return jps_take(serialRun((PathProcessor*)pp, (char*)f)); }
JRes jps_parallel(void* pp, const char* f, int c) { return jps_take(parallelRun((PathProcessor*)pp, (char*)f, c)); }
JRes jps_parallel_opt(void* pp, const char* f, int c, void* ct) { return jps_take(parallelRunOpt((PathProcessor*)pp, (char*)f, c, (ConstraintTable*)ct)); }
void* jps_learn(void* pp, const char* f) { return collectDataConstraints((PathProcessor*)pp, (char*)f); }
void jps_free_table(void* ct) { freeConstraintTable((ConstraintTable*)ct); }
static JRes parts(PartitionInfo p) {
    JRes r; r.n = p.num_chunk; r.v = (char**)malloc(sizeof(char*) * (r.n + 1));
    for (int i = 0; i < r.n; i++) r.v[i] = p.stream[i] ? strdup(p.stream[i]) : NULL;
    freeInputChunks(p);
    return r;
}
JRes jps_partition_stream(char* t, int c) { return parts(partitionInputStream(t, c)); }
JRes jps_partition_file(const char* f, int c) { return parts(partitionFile((char*)f, c)); }
char* jps_load_bounded(const char* f, int* pos) { return loadBoundedInputStream((char*)f, pos); }
char* jps_load(const char* f) { return loadInputStream((char*)f); }
/* the partial runs behind serialRun and parallelRun, over a given list of input chunks; cores 0: serial */
JRes jps_partial(void* vp, char** chunks, int n, int cores, void* ct) {
    PathProcessor* pp = (PathProcessor*)vp; StreamingContext ci; Output* o = NULL;
    initStreamingContext(&ci);
    for (int i = 0; i < n; i++)
        o = cores == 0 ? serialPartialRun(pp, chunks[i], &ci) : ct ? parallelPartialRunOpt(pp, chunks[i], cores, (ConstraintTable*)ct, &ci) : parallelPartialRun(pp, chunks[i], cores, &ci);
    destroyStreamingContext(&ci);
    return jps_take(o);
}
JRes jps_stage_parallel(void* vp, char** chunks, int n, void* ct) {
    PathProcessor* pp = (PathProcessor*)vp;
    PartitionInfo info; info.stream = chunks; info.num_chunk = n;
    ParallelAutomata pa; initParallelAutomata(&pa, pp->query_automaton);
    executeParallelAutomata(&pa, info, (ConstraintTable*)ct);
    PredicateFilter pf; initPredicateFilter(&pf, pa.tuple_list, pp->query_context);
    JRes r = jps_take(generateFinalOutput(&pf));
    destroyParallelAutomata(&pa);
    destroyPredicateFilter(&pf);
    return r;
}
/* parallel execution over parts of the input that are cut into chunks each; last[i]: the ith chunk ends a part. A part is overwritten once it has been processed. */
JRes jps_stage_parts(void* vp, char** chunks, int n, const char* last, void* ct) {
    PathProcessor* pp = (PathProcessor*)vp; ParallelAutomata pa; initParallelAutomata(&pa, pp->query_automaton);
    PredicateFilter pf; Output* o = NULL; int from = 0;
    for (int i = 0; i < n; i++) {
        if (i + 1 < n && !last[i]) continue;
        PartitionInfo info; info.stream = chunks + from; info.num_chunk = i + 1 - from;
        executeParallelAutomata(&pa, info, (ConstraintTable*)ct);
        if (from == 0) initPredicateFilter(&pf, pa.tuple_list, pp->query_context); else pf.tuple_list = pa.tuple_list;
        o = generateFinalOutput(&pf); clearTupleList(pa.tuple_list);
        for (; from <= i; from++) memset(chunks[from], '#', strlen(chunks[from]));
    }
    JRes r = jps_take(o);
    destroyParallelAutomata(&pa); destroyPredicateFilter(&pf);
    return r;
}
JRes jps_stage_serial(void* vp, char* text) {
    PathProcessor* pp = (PathProcessor*)vp;
    StreamingAutomaton sa; initStreamingAutomaton(&sa, pp->query_automaton);
    executeAutomaton(&sa, text, CLOSE);
    PredicateFilter pf; initPredicateFilter(&pf, sa.tuple_list, pp->query_context);
    JRes r = jps_take(generateFinalOutput(&pf));
    destroyStreamingAutomaton(&sa);
    destroyPredicateFilter(&pf);
    return r;
}
void* jps_ctx_new(void) { StreamingContext* c = (StreamingContext*)malloc(sizeof(StreamingContext)); initStreamingContext(c); return c; }
void* jps_ctx_step(void* vp, void* c, char* chunk, int cores, void* ct) {
    PathProcessor* pp = (PathProcessor*)vp; StreamingContext* ci = (StreamingContext*)c;
    return cores == 0 ? serialPartialRun(pp, chunk, ci) : ct ? parallelPartialRunOpt(pp, chunk, cores, (ConstraintTable*)ct, ci) : parallelPartialRun(pp, chunk, cores, ci);
}
JRes jps_ctx_end(void* c, void* o) { destroyStreamingContext((StreamingContext*)c); free(c); return jps_take((Output*)o); }
/* generateFinalOutput over a list of matches handed over in parts; after[i]: number of results after the ith tuple, where a part ends */
JRes jps_filter_run(void* vp, const int* states, const char** texts, int n, const char* ends, int* after) {
    PathProcessor* pp = (PathProcessor*)vp; TupleList* tl = createTupleList(); PredicateFilter pf; Output* o = NULL;
    initPredicateFilter(&pf, tl, pp->query_context);
    for (int i = 0; i < n; i++) {
        addTuple(tl, states[i], (char*)texts[i]);
        if (i + 1 == n || ends[i]) { o = generateFinalOutput(&pf); after[i] = getOutputSize(o); clearTupleList(tl); }
    }
    if (n == 0) o = generateFinalOutput(&pf);
    JRes r = jps_take(o); destroyPredicateFilter(&pf); freeTupleList(tl); return r;
}
int jps_pp_next(void* pp, int s, const char* key) { return dfaNextStateByStr(((PathProcessor*)pp)->query_automaton, s, key); }
