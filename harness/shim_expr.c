/* The documented parser call and the filter evaluator. */
#include <ctype.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "jsonpath_evaluator.h"
#include "jsonpath_parser.h"
#include "shim.h"
void* jps_parse(const char* text) { return analysisJSONPath(text); }
/* filter expression of "$[?(...)]" with its references turned into variables */
void* jps_filter(const char* text) { ASTNode* r = analysisJSONPath(text); evaluatorModifyReference(r); return r->right->left; }
int jps_eval(void* expr, const char** names, const char** texts, int n) {
    PredicateCondition* c = (PredicateCondition*)malloc(sizeof(PredicateCondition) * (n + 1));
    for (int i = 0; i < n; i++) { c[i].name = (char*)names[i]; c[i].text = (char*)texts[i]; }
    c[n].name = NULL; c[n].text = NULL;
    int r = evaluateExpression((ASTNode*)expr, c); free(c); return r;
}
static void put(FILE* o, ASTNode* n) {
    if (!n) { fputs("-", o); return; }
    switch (n->node_type) {
        case jnt_root: fputs("$", o); return;
        case jnt_reference: fputs("@", o); return;
        case jnt_wildcard: fputs("*", o); return;
        case jnt_id: fprintf(o, "id:%s", n->string); return;
        case jnt_string: fprintf(o, "str:%s", n->string); return;
        case jnt_number: fprintf(o, "num:%.17g", n->number); return;
        case jnt_variable: fprintf(o, "var:%s", n->string); return;
        case jnt_operator: fprintf(o, "(op%d ", (int)n->opt); break;
        case jnt_concat: fputs("(. ", o); break;
        case jnt_parent_concat: fputs("(.. ", o); break;
        case jnt_predicate: fputs("([] ", o); break;
        case jnt_range: fputs("(: ", o); break;
        case jnt_fliter: fputs("(? ", o); break;
        default: fprintf(o, "(node%d ", (int)n->node_type); break;
    }
    put(o, n->left); fputs(" ", o); put(o, n->right); fputs(")", o);
}
char* jps_tree(void* ast) { char* b = NULL; size_t n = 0; FILE* o = open_memstream(&b, &n); put(o, (ASTNode*)ast); fclose(o); return b; }
