#include <stdio.h>
#include <stdlib.h>
#include "dfa_builder.h"
#include "shim.h"
void* jps_dfa_build(const char* q) {
    JSONQueryDFAContext* ctx = (JSONQueryDFAContext*)malloc(sizeof(JSONQueryDFAContext));
    return buildJSONQueryDFA(q, ctx);
}
void jps_dfa_free(void* d) { destoryJSONQueryDFA((JSONQueryDFA*)d); }
unsigned jps_dfa_states(void* d) { return getDFAStatesNumber((JSONQueryDFA*)d); }
int jps_dfa_next(void* d, int s, const char* k) { return dfaNextStateByStr((JSONQueryDFA*)d, s, k); }
int jps_dfa_accept(void* d, int s) { return getDFAAcceptType((JSONQueryDFA*)d, s); }
int jps_dfa_stop(void* d, int s) { return getDFAStopState((JSONQueryDFA*)d, s); }
void jps_dfa_range(void* d, int s, int* lo, int* hi) { JSONQueryIndexPair p = getDFAArrayIndex((JSONQueryDFA*)d, s); *lo = p.lower; *hi = p.upper; }
