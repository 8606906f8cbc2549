#include "lexing.h"
#include "shim.h"
#include <stdlib.h>
void* jps_lex_new(char* s, int skip) { Lexer* l = createLexer(s); if (skip) skipStream(l, skip); return l; }
int jps_lex_next(void* v, const char** content, long* next) { Lexer* l = (Lexer*)v; Token t; t.content = NULL; t = nextToken(l); *content = t.token_type == KY || t.token_type == PRI ? t.content : NULL; *next = l->next_start - l->begin_stream; return t.token_type; }
void jps_lex_free(void* l) { freeLexer((Lexer*)l); }
