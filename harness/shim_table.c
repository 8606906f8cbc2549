/* Lookups in a learned constraint table, as the worker threads make them. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <string.h>
#include "constraint.h"
#include "shim.h"
/* the states recorded for a name or for arrays; -1: nothing is recorded */
int jps_table_lookup(void* v, int is_key, const char* name, int* out, int max) {
    ConstraintInfo ci; memset(&ci, 0x5a, sizeof ci);
    ci.type = is_key ? KY : LB; ci.token_name = (char*)name;
    updateStateInfo((ConstraintTable*)v, &ci);
    for (int i = 0; i < ci.num_state && i < max; i++) out[i] = ci.state_set[i];
    return ci.num_state <= 0 ? -1 : ci.num_state;
}
