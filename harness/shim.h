/* Narrow C interface between the C++ explorers and JPStream's public C API. */
#ifndef SHIM_H
#define SHIM_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct JRes { int n; char** v; } JRes;   /* n = -1: no result object */
void  jres_free(JRes* r);
void* jps_create(const char* query);             /* createPathProcessor */
void  jps_destroy(void* pp);                     /* freePathProcessor */
JRes  jps_serial(void* pp, const char* file);
JRes  jps_parallel(void* pp, const char* file, int cores);
JRes  jps_parallel_opt(void* pp, const char* file, int cores, void* ct);
void* jps_learn(void* pp, const char* file);     /* collectDataConstraints */
void  jps_free_table(void* ct);
extern int jps_verif_memory_footprint;
/* partitioners: number of chunks and malloc'd copies of every chunk */
JRes  jps_partition_stream(char* text, int cores);
JRes  jps_partition_file(const char* file, int cores);
/* bounded loader */
char* jps_load_bounded(const char* file, int* pos);
char* jps_load(const char* file);
/* documented stage API driven by hand over a given list of chunks */
JRes  jps_stage_parallel(void* pp, char** chunks, int n, void* ct);
JRes  jps_stage_parts(void* pp, char** chunks, int n, const char* last, void* ct);
JRes  jps_partial(void* pp, char** chunks, int n, int cores, void* ct);
JRes  jps_stage_serial(void* pp, char* text);
/* one StreamingContext, fed part by part (cores 0: serial, otherwise parallel, with a table if ct is given) */
void* jps_ctx_new(void);
void* jps_ctx_step(void* pp, void* ctx, char* chunk, int cores, void* ct);   /* the Output object, or NULL */
JRes  jps_ctx_end(void* ctx, void* output);
JRes  jps_filter_run(void* pp, const int* states, const char** texts, int n, const char* ends, int* after);
int   jps_pp_next(void* pp, int s, const char* key);
/* lexer: kind (1 { 2 } 3 [ 4 ] 5 , 6 name 7 primitive -1 end), text, position where the next token may begin */
void* jps_lex_new(char* stream, int skip);
int   jps_lex_next(void* lexer, const char** content, long* next);
void  jps_lex_free(void* lexer);
/* automaton */
void* jps_dfa_build(const char* query);           /* buildJSONQueryDFA */
void  jps_dfa_free(void* d);
unsigned jps_dfa_states(void* pp);
int   jps_dfa_next(void* pp, int s, const char* key); /* key NULL: array */
int   jps_dfa_accept(void* pp, int s);
int   jps_dfa_stop(void* pp, int s);
void  jps_dfa_range(void* pp, int s, int* lo, int* hi);
/* parser and filter evaluator */
void* jps_parse(const char* text);
void* jps_filter(const char* text);
int   jps_eval(void* expr, const char** names, const char** texts, int n);
char* jps_tree(void* ast);
/* learned table: the states recorded for a name or for arrays; -1: none */
int   jps_table_lookup(void* ct, int is_key, const char* name, int* out, int max);
#ifdef __cplusplus
}
#endif
#endif
