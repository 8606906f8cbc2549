From c89bb6abc928fc7f5da899a352d4717ff0daa5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 01/35] verif hooks: capacity and memory-footprint bounds
 settable under JPS_VERIF

---
 JSONQuery/output.h         | 4 ++++
 JSONQuery/path_processor.h | 5 +++++
 JSONQuery/tuple_list.h     | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/JSONQuery/output.h b/JSONQuery/output.h
index d2bed6a..906d1e2 100644
--- a/JSONQuery/output.h
+++ b/JSONQuery/output.h
@@ -3,7 +3,11 @@
 
 #include "utility.h"
 
+#ifdef JPS_VERIF
+#define MAX_OUTPUT JPS_VERIF_MAX_OUTPUT
+#else
 #define MAX_OUTPUT 800000 //290000
+#endif
 #define MAX_STRING 1000
 
 typedef struct Output{
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 4da0a57..11aade3 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -20,7 +20,12 @@
 #define NOCONTEXT 0
 #define FINISH 1
 #define INPROGRESS 0
+#ifdef JPS_VERIF
+extern int jps_verif_memory_footprint;
+#define MEMORY_FOOTPRINT jps_verif_memory_footprint
+#else
 #define MEMORY_FOOTPRINT 250000000
+#endif
 
 char* loadInputStream(char* file_name)
 {
diff --git a/JSONQuery/tuple_list.h b/JSONQuery/tuple_list.h
index 4eab925..797db76 100644
--- a/JSONQuery/tuple_list.h
+++ b/JSONQuery/tuple_list.h
@@ -3,7 +3,11 @@
 
 #include "utility.h"
 
+#ifdef JPS_VERIF
+#define MAX_TUPLE_LIST JPS_VERIF_MAX_TUPLE_LIST
+#else
 #define MAX_TUPLE_LIST 5000000
+#endif
 #define MAX_TEXT 1000
 
 typedef struct Tuple{
-- 
2.43.0


From 2de98b1cf8eb3f5cfafcaef4ef9b3d5d0b8ad4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 02/35] fix: lexer: a line break between a key and its colon
 does not turn the key into a value

---
 JSONQuery/lexing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index ee95f2e..4e21b7e 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -120,7 +120,7 @@ Token nextToken(Lexer* lexer)
                         token_pointer = start + token_len;
                         start = token_pointer;
 
-                        while(*(p+1)==' '||*(p+1)=='\t') //ignore space
+                        while(*(p+1)==' '||*(p+1)=='\t'||*(p+1)=='\n'||*(p+1)=='\r') //ignore space
                         {
                             p++;
                             token_len = p - start + 1;
-- 
2.43.0


From fd5091573880747fbcf82d7a370a5af23f8ae216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 03/35] fix: lexer: primitives keep their sign and end at any
 JSON whitespace, a bracket or the end of the stream

---
 JSONQuery/lexing.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index 4e21b7e..a38b4f8 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -86,7 +86,11 @@ Token nextToken(Lexer* lexer)
                         state = 0;
                         break;
                     default: //it might be a single primitive
-                        if((*p>='0'&&*p<='9')||(*p>='a'&&*p<='z')||(*p>='A'&&*p<='Z')) state=2;
+                        if(*p=='-'||(*p>='0'&&*p<='9')||(*p>='a'&&*p<='z')||(*p>='A'&&*p<='Z'))
+                        {
+                            start = p;
+                            state = 2;
+                        }
                         else
                         {
                             token_len = p - start + 1;
@@ -171,14 +175,12 @@ Token nextToken(Lexer* lexer)
                     case ',':
                     case ' ':
                     case '\t':
+                    case '\n':
+                    case '\r':
                    	{
                         int tempcount = p-start;
                         templen = tempcount; 
-                        if(p[0]=='"')
-                            substring_in_place(sub1, start, 1 ,tempcount); 
-                        else if(token_pointer[tempcount-1]==',') 
-                            substring_in_place(sub1, token_pointer, 0, tempcount-1);
-                        else substring_in_place(sub1, token_pointer, 0, tempcount);
+                        substring_in_place(sub1, start, 0, tempcount);
                         strcopy(sub1,lexer->content);
                         token_len = p - start + 1;
                         token_pointer = start + token_len;
@@ -203,6 +205,18 @@ Token nextToken(Lexer* lexer)
         }
         
     }
+    //a primitive that ends with the stream
+    if(state==2)
+    {
+        substring_in_place(lexer->content, start, 0, end-start);
+        lexer->current_pointer = end;
+        lexer->current_start = end;
+        lexer->lex_state = 0;
+        lexer->next_start = end;
+        token.token_type = PRI;
+        token.content = lexer->content;
+        return token;
+    }
     token.token_type = END;
     return token;
 }
-- 
2.43.0


From c39323d466e3088f03cf9e06ee4f6b78b4c4a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 04/35] fix: dfa builder: initialise the pending-path flag, '$'
 alone built no automaton

---
 DFABuilder/src/dfa_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index ffa8f92..da0ecc4 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -89,7 +89,7 @@ struct StackContext {
     vector<ASTNode*> tree_mapping;
     set<int> output_states;
 
-    StackContext(RegexModel* model, ASTNode* root) : model(model), root(root), st(0), input_mapping(3), array_range(0) {}
+    StackContext(RegexModel* model, ASTNode* root) : model(model), root(root), st(0), last_st_generated(false), input_mapping(3), array_range(0) {}
     ~StackContext() {}
 
     void push(StackElement&& s) {
-- 
2.43.0


From 067752cd11e72d9bb94dbe916f285ab970c393c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 05/35] fix: dfa builder: [index] steps were dropped from the
 query

---
 DFABuilder/src/dfa_builder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index da0ecc4..a26083d 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -246,6 +246,14 @@ struct StackContext {
                     array_range[model->size()-1] = {begin, end};
                     break;
                 }
+                // [index]
+                case jnt_number: {
+                    int begin = p->number;
+                    push({set_array_index, begin, begin + 1});
+                    create_dfa();
+                    array_range[model->size()-1] = {begin, begin + 1};
+                    break;
+                }
                 // [*]
                 case jnt_wildcard: {
                     push({set_array_all});
-- 
2.43.0


From caad58b8b48281f5134b281b95cde76ec001fe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:54 +0000
Subject: [PATCH 06/35] fix: streaming context: run contexts were freed
 uninitialised and kept dangling tuple lists between input chunks

---
 JSONQuery/parallel_automata_execution.h | 16 ++++------------
 JSONQuery/path_processor.h              | 15 +++++++--------
 JSONQuery/streaming_automaton.h         |  9 +--------
 3 files changed, 12 insertions(+), 28 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 0419465..90e223e 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -19,8 +19,6 @@
 #include <pthread.h>
 
 #define MAX_THREAD 100
-#define INPROGRESS 0
-#define FINISH 1
 
 //data structure for each thread
 typedef struct ThreadInfo{
@@ -38,7 +36,6 @@ typedef struct ParallelAutomata{
     QueryStacks query_stacks; 
     TupleList* tuple_list;
     WorkerAutomaton* major_automaton;
-    int finish_flag;
 }ParallelAutomata;
 
 static inline void initParallelAutomata(ParallelAutomata* pa, JSONQueryDFA* qa)
@@ -50,21 +47,16 @@ static inline void initParallelAutomata(ParallelAutomata* pa, JSONQueryDFA* qa)
 
 static inline void destroyParallelAutomata(ParallelAutomata* pa)
 {
-    if(pa->tuple_list != NULL&&pa->finish_flag==INPROGRESS)
+    //the tuple list is shared with the major automaton
+    if(pa->tuple_list != NULL)
     {   
         freeTupleList(pa->tuple_list); 
         pa->tuple_list = NULL;
     }
     if(pa->major_automaton != NULL)
     {  
-        if(pa->finish_flag==INPROGRESS)
-        {
-            pa->major_automaton->tuple_list = createTupleList();
-        }
-        else if(pa->finish_flag==FINISH)
-        {   
-            destroyWorkerAutomaton(pa->major_automaton);  
-        }
+        freeWorkerAutomaton(pa->major_automaton);
+        pa->major_automaton = NULL;
     }
 }
 
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 11aade3..2e0238b 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -185,15 +185,14 @@ typedef struct StreamingContext{
 
 static inline void initStreamingContext(StreamingContext* ci)
 {
+    memset(ci, 0, sizeof(StreamingContext));
     ci->context_flag = NOCONTEXT;
     ci->finish_flag = INPROGRESS;
 }
 
 static inline void destroyStreamingContext(StreamingContext* ci)
 {
-    ci->pa.finish_flag = FINISH;
     destroyParallelAutomata(&(ci->pa));
-    ci->sa.finish_flag = FINISH; 
     destroyStreamingAutomaton(&(ci->sa)); 
     destroyPredicateFilter(&(ci->pf));
 }
@@ -221,8 +220,8 @@ static inline Output* serialPartialRun(PathProcessor* path_processor, char* inpu
     Output* output = generateFinalOutput(&pf);
     ci->pf = pf;
 
-    //free up dynamic memories
-    destroyStreamingAutomaton(&streaming_automaton);
+    //the tuples of this input chunk have been consumed
+    initTupleList(streaming_automaton.tuple_list);
 
     //set context flag
     ci->context_flag = CONTEXT;
@@ -294,9 +293,9 @@ static inline Output* parallelPartialRun(PathProcessor* path_processor, char* in
     Output* output = generateFinalOutput(&pf);
     ci->pf = pf;
    
-    //free up dynamic memories
+    //the tuples of this input chunk have been consumed
     freeInputChunks(pInfo);
-    destroyParallelAutomata(&pa);
+    initTupleList(pa.tuple_list);
     ci->context_flag = CONTEXT;
     return output;
 }
@@ -346,9 +345,9 @@ static inline Output* parallelPartialRunOpt(PathProcessor* path_processor, char*
     Output* output = generateFinalOutput(&pf);
     ci->pf = pf;
 
-    //free up dynamic memories
+    //the tuples of this input chunk have been consumed
     freeInputChunks(pInfo);     
-    destroyParallelAutomata(&pa); 
+    initTupleList(pa.tuple_list);
     ci->context_flag = CONTEXT;
     return output;
 }
diff --git a/JSONQuery/streaming_automaton.h b/JSONQuery/streaming_automaton.h
index 58eac63..2c8fa4c 100644
--- a/JSONQuery/streaming_automaton.h
+++ b/JSONQuery/streaming_automaton.h
@@ -9,8 +9,6 @@
 
 #define OPEN 1
 #define CLOSE 0
-#define INPROGRESS 0
-#define FINISH 1
 
 typedef struct StreamingAutomaton{
     JSONQueryDFA* query_automaton;
@@ -27,7 +25,6 @@ typedef struct StreamingAutomaton{
     int constraint_flag;
     // saves data constraint table
     ConstraintTable* constraint_table;
-    int finish_flag;
 }StreamingAutomaton;
 
 // sa -- streaming automaton qa -- query automaton
@@ -48,15 +45,11 @@ static inline void initStreamingAutomaton(StreamingAutomaton* sa, JSONQueryDFA*
 
 static inline void destroyStreamingAutomaton(StreamingAutomaton* sa)
 {
-    if(sa->tuple_list != NULL && sa->finish_flag == INPROGRESS)
+    if(sa->tuple_list != NULL)
     {   
         freeTupleList(sa->tuple_list); 
         sa->tuple_list = NULL;
     } 
-    if(sa->finish_flag == INPROGRESS)
-    {
-        sa->tuple_list = createTupleList();
-    }
 }
 
 // data_constraint_flag: whether sa needs to generate data constraints
-- 
2.43.0


From 3f627f53846bc01bdcf94dec2a81faeef5e7a09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:07 +0000
Subject: [PATCH 07/35] fix: bounded loader: close the file at its end, every
 run leaked a descriptor

---
 JSONQuery/path_processor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 2e0238b..64769d2 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -58,7 +58,7 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
     size = size - loaded_size;
     if(size > MEMORY_FOOTPRINT)
         size = MEMORY_FOOTPRINT;
-    if(size<=0) return NULL;    
+    if(size<=0) { fclose(fp); return NULL; }
     fseek(fp, loaded_size, SEEK_CUR);
     char* stream =(char*)malloc((size+MAX_EXTENSION)*sizeof(char));
     fread(stream,1,size,fp);
-- 
2.43.0


From fd817ea5b571fb2c7a045745036bcea9b9e0c736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:48 +0000
Subject: [PATCH 08/35] fix: dfa builder: '$' alone selects the root

---
 DFABuilder/src/dfa_builder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index a26083d..875d519 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -320,6 +320,11 @@ static JSONQueryDFA* create_dfa(StackContext* ctx, DFACompressed* cpd_dfa) {
             }
         }
     }
+    // a path without any step selects the root itself
+    if (ctx->st.empty()) {
+        dfa->stop_state[1] = ctx->last_id_generated;
+        dfa->accept_type[1] = DFA_OUTPUT_CANDIDATE;
+    }
     dfa->names[1] = str_copy("other");
     dfa->names[2] = str_copy("array");
     for (int i = 3; i < dfa->inputs_num; ++i) {
-- 
2.43.0


From 935d3f022fb3ebba81737f81c78a8a975f9445b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:48 +0000
Subject: [PATCH 09/35] fix: substring: offsets count from the start of the
 text, leading blanks included

---
 JSONQuery/utility.c | 196 ++++++++++++++++++++++----------------------
 1 file changed, 97 insertions(+), 99 deletions(-)

diff --git a/JSONQuery/utility.c b/JSONQuery/utility.c
index 2bf6487..3f3ba8d 100644
--- a/JSONQuery/utility.c
+++ b/JSONQuery/utility.c
@@ -1,99 +1,97 @@
-#include <stdio.h>
-#include <string.h>
-#include <stdlib.h>
-#include "utility.h"
-
-/*************************************************
-Function: void strcopy(char* src,char* dest)
-Description: similar as strcpy
-*************************************************/
-void strcopy(char* src,char* dest)
-{
-	int length=strlen(src);
-	int i;
-	for(i=0;i<=length;i++)
-	{
-		dest[i]=src[i];
-	}
-	dest[i]='\0';
-}
-
-/**************************************************************************
-Function: char* substring(char *pText, int begin, int end);
-Description: print the substring of the original string
-Input: pText--the original string; begin--start position; end--end position;
-Return: the final string
-***************************************************************************/
-char* substring(char *pText, int begin, int end)
-{
-    int i,j;
-    char * temp=pText;
-    temp = ltrim(pText);
-    char* temp1=NULL; 
-    temp1=(char*)malloc((end-begin+1)*sizeof(char));
-    for (j = 0,i = begin; i < end; i++,j++)
-    {
-        temp1[j]=temp[i];
-    }
-    temp1[j]='\0';
-    return temp1;
-}
-
-/***************************************************************************************************
-Function: char* substring_in_place(char* desc, char *pText, int begin, int end);
-Description: save the substring of pText into a destination string
-Input: desc -- the destination; pText--the original string; begin--start position; end--end position;
-****************************************************************************************************/
-void substring_in_place(char* desc, char *pText, int begin, int end)
-{
-    int i,j;
-    char * temp=pText;
-    temp = ltrim(pText);
-    for (j = 0,i = begin; i < end; i++,j++)
-    {
-        desc[j]=temp[i];
-    }
-    desc[j]='\0'; 
-}
-
-/******************************************************************************
-Function: char* allocate_and_copy(char *pText);
-Description: allocate new memory spaces and copy the content of original string
-Input: pText--the original string; 
-Return: the new string
-******************************************************************************/
-char* allocate_and_copy(char* pText)
-{
-    char* new = (char*)malloc((strlen(pText)+2)*sizeof(char)); 
-    strcopy(pText, new);
-    return new;
-}
-
-/*************************************************
-Function: char * ltrim(char *s);
-Description: remove the left blankets of a string
-Input: s--the original string; 
-Return: the final substring
-*************************************************/
-char * ltrim(char *s)
-{
-     char *temp;
-     temp = s;
-     while((*temp == ' ')&&temp){*temp++;}
-     return temp;
-}
-
-/*************************************************
-Function: int left_null_count(char *s);
-Description: calculate the number of blanket for each string
-Input: s--the original string; 
-Return: the number of blanket for each string
-*************************************************/
-int left_null_count(char *s)  
-{
-	 int count=0;
-     char *temp;
-     temp = s;
-     while((*temp == ' ')&&temp){*temp++; count++;}
-     return count;
-}
+#include <stdio.h>
+#include <string.h>
+#include <stdlib.h>
+#include "utility.h"
+
+/*************************************************
+Function: void strcopy(char* src,char* dest)
+Description: similar as strcpy
+*************************************************/
+void strcopy(char* src,char* dest)
+{
+	int length=strlen(src);
+	int i;
+	for(i=0;i<=length;i++)
+	{
+		dest[i]=src[i];
+	}
+	dest[i]='\0';
+}
+
+/**************************************************************************
+Function: char* substring(char *pText, int begin, int end);
+Description: print the substring of the original string
+Input: pText--the original string; begin--start position; end--end position;
+Return: the final string
+***************************************************************************/
+char* substring(char *pText, int begin, int end)
+{
+    int i,j;
+    char * temp=pText;
+    char* temp1=NULL; 
+    temp1=(char*)malloc((end-begin+1)*sizeof(char));
+    for (j = 0,i = begin; i < end; i++,j++)
+    {
+        temp1[j]=temp[i];
+    }
+    temp1[j]='\0';
+    return temp1;
+}
+
+/***************************************************************************************************
+Function: char* substring_in_place(char* desc, char *pText, int begin, int end);
+Description: save the substring of pText into a destination string
+Input: desc -- the destination; pText--the original string; begin--start position; end--end position;
+****************************************************************************************************/
+void substring_in_place(char* desc, char *pText, int begin, int end)
+{
+    int i,j;
+    char * temp=pText;
+    for (j = 0,i = begin; i < end; i++,j++)
+    {
+        desc[j]=temp[i];
+    }
+    desc[j]='\0'; 
+}
+
+/******************************************************************************
+Function: char* allocate_and_copy(char *pText);
+Description: allocate new memory spaces and copy the content of original string
+Input: pText--the original string; 
+Return: the new string
+******************************************************************************/
+char* allocate_and_copy(char* pText)
+{
+    char* new = (char*)malloc((strlen(pText)+2)*sizeof(char)); 
+    strcopy(pText, new);
+    return new;
+}
+
+/*************************************************
+Function: char * ltrim(char *s);
+Description: remove the left blankets of a string
+Input: s--the original string; 
+Return: the final substring
+*************************************************/
+char * ltrim(char *s)
+{
+     char *temp;
+     temp = s;
+     while((*temp == ' ')&&temp){*temp++;}
+     return temp;
+}
+
+/*************************************************
+Function: int left_null_count(char *s);
+Description: calculate the number of blanket for each string
+Input: s--the original string; 
+Return: the number of blanket for each string
+*************************************************/
+int left_null_count(char *s)  
+{
+	 int count=0;
+     char *temp;
+     temp = s;
+     while((*temp == ' ')&&temp){*temp++; count++;}
+     return count;
+}
-- 
2.43.0


From 7f422b5b93901ea269eddaaec5cac69c3794eca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:20 +0000
Subject: [PATCH 10/35] fix: partitioning: chunks end at complete tokens
 outside of strings and never run past the input

---
 JSONQuery/file_partition.c | 71 ++++++---------------------------
 JSONQuery/file_partition.h | 50 +++++++++++++++++++++++
 JSONQuery/path_processor.h | 81 ++++++++++++--------------------------
 3 files changed, 88 insertions(+), 114 deletions(-)

diff --git a/JSONQuery/file_partition.c b/JSONQuery/file_partition.c
index cf8b6fb..8908bd5 100644
--- a/JSONQuery/file_partition.c
+++ b/JSONQuery/file_partition.c
@@ -5,8 +5,6 @@
 #include <string.h>
 #include "utility.h"
 
-#define MAX_EXTENSION 1000
-
 PartitionInfo partitionFile(char* file_name, int num_core)
 { 
     PartitionInfo pInfo;
@@ -26,70 +24,27 @@ PartitionInfo partitionFile(char* file_name, int num_core)
     for(i = 0; i<num_core; i++)
         stream[i] = NULL;
     long sum_size = 0;   //the number of bytes that have been processed
-    char ch = -1; 
-    for(i = 0; i<num_core-1; i++)
+    char* input_stream = (char*)malloc((file_size+1)*sizeof(char));
+    file_size = fread(input_stream,1,file_size,fp);
+    input_stream[file_size] = '\0';
+    fclose(fp);
+    BoundaryScan scan;
+    initBoundaryScan(&scan);
+    for(i = 0; i<num_core-1 && sum_size<file_size; i++)
     {
-        stream[i] = (char*)malloc((chunk_size+MAX_EXTENSION)*sizeof(char));
-        if(ch!=-1)
-        {
-            stream[i][0]=ch;
-            stream[i][1]='\0';
-            char * buff=(char*)malloc((chunk_size)*sizeof(char)); 
-            fread (buff,1,chunk_size-1,fp); 
-            buff[chunk_size-1]='\0'; 
-            stream[i]=strcat(stream[i],buff); 
-        }
-        else fread (stream[i],1,chunk_size,fp);
-        int add = 0;
         //look for the next complete token
-        ch = fgetc(fp);
-        while(1)
-        {    
-            if(ch==EOF) break;
-            if(ch=='"')
-            {
-                char prev = stream[i][chunk_size+add-1];
-                int t = 1;
-                while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
-                {
-                    prev = stream[i][chunk_size+add-t]; 
-                    t++;
-                }
-                if(prev==','||prev=='{'||prev=='[')
-                {
-                    break;
-                }
-            }
-            stream[i][chunk_size+add] = ch; 
-            add = add+1;
-            ch = fgetc(fp);
-        }
-        stream[i][chunk_size+add] = '\0'; 
-        sum_size += (chunk_size+add);
-        if((sum_size+chunk_size)>=file_size) {i++; break;}
+        long next = nextTokenBoundary(&scan, input_stream, sum_size+chunk_size, file_size);
+        stream[i] = substring(input_stream, sum_size, next);
+        sum_size = next;
     }
     pInfo.num_chunk = i;
     long remain_size = file_size-sum_size;
-    if(remain_size>0)
+    if(remain_size>0 || i==0)
     {
-        stream[i] = (char*)malloc((remain_size)*sizeof(char));
-        if(ch!=-1)
-        {
-            stream[i][0]=ch;
-            stream[i][1]='\0';
-            char* buff=(char*)malloc(remain_size*sizeof(char));
-            fread (buff,1,remain_size-1,fp);
-            buff[remain_size-1]='\0';
-            stream[i]=strcat(stream[i],buff);
-            stream[i][remain_size] = '\0'; 
-        }
-        else{
-            fread (stream[i],1,remain_size,fp);
-            stream[i][remain_size] = '\0';
-        }
+        stream[i] = substring(input_stream, sum_size, file_size);
         pInfo.num_chunk = i+1;
     }
-    pInfo.num_chunk = i+1;
+    free(input_stream);
     pInfo.stream = stream;
     printf("file partitioner: finish splitting the input stream\n");
     return pInfo;
diff --git a/JSONQuery/file_partition.h b/JSONQuery/file_partition.h
index bb23eb0..7da753a 100644
--- a/JSONQuery/file_partition.h
+++ b/JSONQuery/file_partition.h
@@ -9,6 +9,56 @@ typedef struct PartitionInfo
     int num_chunk;
 }PartitionInfo;
 
+//position of the first complete token (an opening quote outside any string, next to ',', '{' or '[')
+//at or after pos in text[0..size), or size if there is none
+//scan -- scanning state, starts with initBoundaryScan and is carried from one call to the next one
+typedef struct BoundaryScan
+{
+    long position;   //the number of characters that have been scanned
+    int in_string;
+    char prev;       //last non-blank character outside of strings
+}BoundaryScan;
+
+static inline void initBoundaryScan(BoundaryScan* scan)
+{
+    scan->position = 0;
+    scan->in_string = 0;
+    scan->prev = '\0';
+}
+
+static inline long nextTokenBoundary(BoundaryScan* scan, const char* text, long pos, long size)
+{
+    long i;
+    int found = 0;
+    for(i = scan->position; i<size; i++)
+    {
+        char ch = text[i];
+        if(scan->in_string)
+        {
+            if(ch=='\\')
+            {
+                //the escaped character is not available yet
+                if(i+1>=size) break;
+                i++;
+            }
+            else if(ch=='"') scan->in_string = 0;
+        }
+        else if(ch=='"')
+        {
+            if(i>=pos && (scan->prev==','||scan->prev=='{'||scan->prev=='['))
+            {
+                found = 1;
+                break;
+            }
+            scan->in_string = 1;
+            scan->prev = ch;
+        }
+        else if(!(ch==' '||ch=='\t'||ch=='\n'||ch==13)) scan->prev = ch;
+    }
+    scan->position = i;
+    return found? i : size;
+}
+
 //partitioned intput stream into several chunks
 PartitionInfo partitionFile(char* file_name, int num_core);
 
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 64769d2..901a90f 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -60,34 +60,28 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
         size = MEMORY_FOOTPRINT;
     if(size<=0) { fclose(fp); return NULL; }
     fseek(fp, loaded_size, SEEK_CUR);
-    char* stream =(char*)malloc((size+MAX_EXTENSION)*sizeof(char));
-    fread(stream,1,size,fp);
-    int add = 0;
+    long capacity = (long)size+MAX_EXTENSION;
+    char* stream =(char*)malloc(capacity*sizeof(char));
+    size = fread(stream,1,size,fp);
     //look for the next complete token
-    char ch = fgetc(fp);
-    while(1)
-    {    
-        if(ch==EOF) break;
-        if(ch=='"')
+    BoundaryScan scan;
+    initBoundaryScan(&scan);
+    int limit = size;
+    long end = nextTokenBoundary(&scan, stream, limit, size);
+    while(end==size)
+    {
+        int add = fread(stream+size,1,capacity-1-size,fp);
+        if(add<=0) break;
+        size += add;
+        end = nextTokenBoundary(&scan, stream, limit, size);
+        if(end==size)
         {
-            char prev = stream[size+add-1];
-            int t = 1;
-            while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
-            {
-                prev = stream[size+add-t]; 
-                t++;
-            }
-            if(prev==','||prev=='{'||prev=='[')
-            {
-                break;
-            }
+            capacity *= 2;
+            stream = (char*)realloc(stream, capacity*sizeof(char));
         }
-        stream[size+add] = ch; 
-        add = add+1;
-        ch = fgetc(fp);
     }
-    stream[size+add]='\0';
-    int next = loaded_size+size+add;
+    stream[end]='\0';
+    int next = loaded_size+end;
     *(start_pos) = next;
     fclose(fp);
     return stream;
@@ -107,47 +101,22 @@ PartitionInfo partitionInputStream(char* input_stream, int num_core)
     for(i = 0; i<num_core; i++)
         stream[i] = NULL;
     long sum_size = 0;   //the number of bytes that have been processed
-    char ch = -1; 
-    for(i = 0; i<num_core-1; i++)
+    BoundaryScan scan;
+    initBoundaryScan(&scan);
+    for(i = 0; i<num_core-1 && sum_size<stream_size; i++)
     {   
-        stream[i] = (char*)malloc((chunk_size+MAX_EXTENSION)*sizeof(char)); 
-        substring_in_place(stream[i], input_stream, sum_size, sum_size+chunk_size);
-        sum_size += chunk_size; 
-        int add = 0;
         //look for the next complete token
-        while(sum_size<=stream_size)
-        {    
-            ch = input_stream[sum_size+add];
-            if(ch=='"')
-            {
-                char prev = stream[i][chunk_size+add-1];
-                int t = 1;
-                while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
-                {
-                    prev = stream[i][chunk_size+add-t]; 
-                    t++;
-                }
-                if(prev==','||prev=='{'||prev=='[')
-                {
-                    stream[i][chunk_size+add] = ch;
-                    break;
-                }
-            }
-            stream[i][chunk_size+add] = ch; 
-            add = add+1;
-        }
-        stream[i][chunk_size+add] = '\0'; 
-        sum_size += add;
-        if((sum_size+chunk_size)>=stream_size) {i++; break;}
+        long next = nextTokenBoundary(&scan, input_stream, sum_size+chunk_size, stream_size);
+        stream[i] = substring(input_stream, sum_size, next);
+        sum_size = next;
     } 
     pInfo.num_chunk = i;
     long remain_size = stream_size-sum_size;
-    if(remain_size>0)
+    if(remain_size>0 || i==0)
     {
         stream[i] = substring(input_stream, sum_size, stream_size);
         pInfo.num_chunk = i+1;
     }
-    pInfo.num_chunk = i+1;
     pInfo.stream = stream;
     printf("stream partitioner: finish splitting the input stream\n");
     return pInfo;
-- 
2.43.0


From eaf4978305aee56dcc1505c651b7505de47186b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 11/35] fix: lexer: tokens longer than 4000 characters
 overflowed the content buffer

---
 JSONQuery/lexing.c  | 27 +++++++++++++++++----------
 JSONQuery/lexing.h  |  2 ++
 JSONQuery/utility.h |  1 +
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index a38b4f8..13aa960 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -5,7 +5,15 @@
 #include "utility.h"
 #include "lexing.h"
 
-#define MAX_PRIMITIVE 40000
+//make sure that the content buffer can save length characters
+static void reserveContent(Lexer* lexer, long length)
+{
+    if(length+1>lexer->content_size)
+    {
+        lexer->content_size = (length+1)*2;
+        lexer->content = (char*)realloc(lexer->content, lexer->content_size*sizeof(char));
+    }
+}
 
 Token nextToken(Lexer* lexer)
 {
@@ -19,7 +27,7 @@ Token nextToken(Lexer* lexer)
     char* token_pointer = p; 
     int tempcount;
     Token token;
-    char sub1[MAX_PRIMITIVE];
+    char* text;
     for (; p < end; p++)
     {   
         switch(state)
@@ -119,7 +127,8 @@ Token nextToken(Lexer* lexer)
                         //string is found 
                         tempcount = p-start;
                         templen = tempcount; 
-                        substring_in_place(sub1, start , 1, tempcount);     
+                        text = start;
+                        reserveContent(lexer, templen+1);
                         token_len = p - start + 1;
                         token_pointer = start + token_len;
                         start = token_pointer;
@@ -133,7 +142,7 @@ Token nextToken(Lexer* lexer)
                         } 
                         if(*(p+1)==':') //it is a key field
                         {
-                            strcopy(sub1,lexer->content);
+                            substring_in_place(lexer->content, text, 1, templen);
                             token_len = p - start+1;
                             token_pointer = start + token_len;
                             lexer->current_start = lexer->current_pointer+1; 
@@ -147,10 +156,7 @@ Token nextToken(Lexer* lexer)
                         }
                         else //primitive value
                         {
-                            lexer->content[0]='"';
-                            strcopy(sub1, lexer->content+1);
-                            lexer->content[strlen(lexer->content)]='"'; 
-                            lexer->content[strlen(lexer->content)+1]='\0'; 
+                            substring_in_place(lexer->content, text, 0, templen+1);
                             lexer->current_start = lexer->current_pointer+1; 
                             lexer->lex_state = 0; 
                             lexer->next_start = p+1; 
@@ -180,8 +186,8 @@ Token nextToken(Lexer* lexer)
                    	{
                         int tempcount = p-start;
                         templen = tempcount; 
-                        substring_in_place(sub1, start, 0, tempcount);
-                        strcopy(sub1,lexer->content);
+                        reserveContent(lexer, templen);
+                        substring_in_place(lexer->content, start, 0, tempcount);
                         token_len = p - start + 1;
                         token_pointer = start + token_len;
                         lexer->current_pointer = token_pointer;
@@ -208,6 +214,7 @@ Token nextToken(Lexer* lexer)
     //a primitive that ends with the stream
     if(state==2)
     {
+        reserveContent(lexer, end-start);
         substring_in_place(lexer->content, start, 0, end-start);
         lexer->current_pointer = end;
         lexer->current_start = end;
diff --git a/JSONQuery/lexing.h b/JSONQuery/lexing.h
index 703b90f..b8bf37d 100644
--- a/JSONQuery/lexing.h
+++ b/JSONQuery/lexing.h
@@ -26,6 +26,7 @@ typedef struct Lexer{
     char* end_stream;         //ending position of input json
     int lex_state;       
     char* content;           //content of the current symbol
+    long content_size;       //capacity of content
 }Lexer; 
 
 
@@ -38,6 +39,7 @@ static inline void initLexer(Lexer* lexer, char* json_stream)
     lexer->end_stream = json_stream + strlen(json_stream);
     lexer->lex_state = 0;
     lexer->content = (char*)malloc(MAX_SIZE_PRIMITIVE*sizeof(char));
+    lexer->content_size = MAX_SIZE_PRIMITIVE;
 }
 
 static inline void destroyLexer(Lexer* lexer)
diff --git a/JSONQuery/utility.h b/JSONQuery/utility.h
index 6fdd724..41fc4ae 100644
--- a/JSONQuery/utility.h
+++ b/JSONQuery/utility.h
@@ -3,6 +3,7 @@
 
 void strcopy(char* src,char* dest);
 char* substring(char *pText, int begin, int end);
+void substring_in_place(char* desc, char *pText, int begin, int end);
 char* allocate_and_copy(char* pText);
 char* ltrim(char *s); //reduct blank from left
 int left_null_count(char *s);  //calculate the number of blanket for each string
-- 
2.43.0


From 3c2d3b0b50050c79698911eb8bfa68f1b3718dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 12/35] fix: constraint table: array entries were compared by
 an uninitialised name; long keys and many keys overflowed

---
 JSONQuery/constraint.h       | 30 ++++++++++++++++++++++--------
 JSONQuery/worker_automaton.c |  2 +-
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/JSONQuery/constraint.h b/JSONQuery/constraint.h
index 6681e9e..629cac1 100644
--- a/JSONQuery/constraint.h
+++ b/JSONQuery/constraint.h
@@ -3,27 +3,30 @@
 
 #include <stdlib.h>
 #include "lexing.h"
+#include "utility.h"
 
-#define MAX_KEY_TEXT 100
-#define MAX_CONSTRAINT 1000
+#define INITIAL_CONSTRAINT 64
 #define MAX_STATES 100
 #define INVALID -1
 
 typedef struct ConstraintInfo{
-    char token_name[MAX_KEY_TEXT];
+    char* token_name;
     int type;
     int state_set[MAX_STATES];
     int num_state;
 }ConstraintInfo;
 
 typedef struct ConstraintTable{
-    ConstraintInfo constraint_info[MAX_CONSTRAINT];
+    ConstraintInfo* constraint_info;
     int num_constraint_info;
+    int capacity;
 }ConstraintTable;
 
 static inline void initConstraintTable(ConstraintTable* ct)
 {
+    ct->constraint_info = NULL;
     ct->num_constraint_info = 0;
+    ct->capacity = 0;
 }
 
 static inline ConstraintTable* createConstraintTable()
@@ -44,7 +47,7 @@ static inline void updateStateInfo(ConstraintTable* ct, ConstraintInfo* ci)
         char* constraint_key_name = ci->token_name;
         while(i<last)
         {
-            if(strcmp(constraint_key_name, ct->constraint_info[i].token_name)==0)
+            if(ct->constraint_info[i].type==KY && strcmp(constraint_key_name, ct->constraint_info[i].token_name)==0)
             {
                 ci->num_state = ct->constraint_info[i].num_state;
                 int j = 0;
@@ -90,7 +93,7 @@ static inline void addConstraintInfo(ConstraintTable* ct, int state, int type, c
         int i = 0;
         while(i<last)
         {
-            if(strcmp(name, ct->constraint_info[i].token_name)==0)
+            if(ct->constraint_info[i].type==KY && strcmp(name, ct->constraint_info[i].token_name)==0)
             {
                 index = i;
                 break;
@@ -129,8 +132,13 @@ static inline void addConstraintInfo(ConstraintTable* ct, int state, int type, c
     }
     else{
         ++ct->num_constraint_info;
+        if(ct->num_constraint_info>ct->capacity)
+        {
+            ct->capacity = (ct->capacity==0)? INITIAL_CONSTRAINT : ct->capacity*2;
+            ct->constraint_info = (ConstraintInfo*)realloc(ct->constraint_info, ct->capacity*sizeof(ConstraintInfo));
+        }
         ct->constraint_info[index].type = type;
-        if(type==KY) strcopy(name, ct->constraint_info[index].token_name);
+        ct->constraint_info[index].token_name = (type==KY)? allocate_and_copy(name) : NULL;
         ct->constraint_info[index].num_state = 0;
         int state_index = (ct->constraint_info[index].num_state++);
         ct->constraint_info[index].state_set[state_index] = state;
@@ -143,7 +151,7 @@ static void printConstraintTable(ConstraintTable* ct)
     int i = 0, j = 0;
     while(i<ct->num_constraint_info)
     {
-        printf("starting states for key %s or array %d; number of states %d\n", ct->constraint_info[i].token_name, ct->constraint_info[i].type, ct->constraint_info[i].num_state);
+        printf("starting states for key %s or array %d; number of states %d\n", (ct->constraint_info[i].type==KY)? ct->constraint_info[i].token_name : "", ct->constraint_info[i].type, ct->constraint_info[i].num_state);
         j = 0;
         while(j<ct->constraint_info[i].num_state)
         {
@@ -158,7 +166,13 @@ static void printConstraintTable(ConstraintTable* ct)
 static inline void freeConstraintTable(ConstraintTable* ct)
 {
     if(ct!=NULL)
+    {
+        int i;
+        for(i = 0; i<ct->num_constraint_info; i++)
+            free(ct->constraint_info[i].token_name);
+        free(ct->constraint_info);
         free(ct);
+    }
 }
 
 
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 9a6cfbb..3e76d2b 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -502,7 +502,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                 {
                     ConstraintInfo ci;
                     ci.type = KY;
-                    strcopy(token.content, ci.token_name);
+                    ci.token_name = token.content;
                     updateStateInfo(ct, &ci);
                     if(ci.num_state>0)
                     {   
-- 
2.43.0


From 5ea67548b7703276f7211055a0b6ec117c6a40eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 13/35] fix: results and tuples longer than 999 characters, or
 too many of them, overflowed their buffers

---
 JSONQuery/output.h                      | 33 +++++++++--------
 JSONQuery/parallel_automata_execution.h |  9 +++--
 JSONQuery/path_processor.h              |  6 +--
 JSONQuery/predicate.h                   |  3 +-
 JSONQuery/streaming_automaton.c         |  4 +-
 JSONQuery/tuple_list.h                  | 49 +++++++++++++++++++------
 JSONQuery/worker_automaton.c            |  6 ++-
 7 files changed, 73 insertions(+), 37 deletions(-)

diff --git a/JSONQuery/output.h b/JSONQuery/output.h
index 906d1e2..9e9e32e 100644
--- a/JSONQuery/output.h
+++ b/JSONQuery/output.h
@@ -1,35 +1,28 @@
 #ifndef __OUTPUT_H__
 #define __OUTPUT_H__
 
+#include <stdlib.h>
 #include "utility.h"
 
-#ifdef JPS_VERIF
-#define MAX_OUTPUT JPS_VERIF_MAX_OUTPUT
-#else
-#define MAX_OUTPUT 800000 //290000
-#endif
-#define MAX_STRING 1000
+#define INITIAL_OUTPUT 64
 
 typedef struct Output{
     char** element;
     int count;
+    int capacity;
 }Output;
 
 static inline void initOutput(Output* output)
 {
-    output->element = (char**)malloc(MAX_OUTPUT*sizeof(char*));
-    int i;
-    for(i=0; i<MAX_OUTPUT; i++)
-    {
-        output->element[i] = (char*)malloc(MAX_STRING*sizeof(char));
-    }
+    output->element = NULL;
     output->count = -1;
+    output->capacity = 0;
 }
 
 static inline void destroyOutput(Output* output)
 {
     int i;
-    for(i=0; i<MAX_OUTPUT; i++)
+    for(i=0; i<=output->count; i++)
     {
         if(output->element[i]!=NULL) free(output->element[i]);
     }
@@ -52,7 +45,12 @@ static inline void freeOutput(Output* output)
 static inline void addOutputElement(Output* output, char* text)
 {
     int index = (++output->count);
-    strcopy(text, output->element[index]); //printf("text %s %d\n", text, index);
+    if(index>=output->capacity)
+    {
+        output->capacity = (output->capacity==0)? INITIAL_OUTPUT : output->capacity*2;
+        output->element = (char**)realloc(output->element, output->capacity*sizeof(char*));
+    }
+    output->element[index] = allocate_and_copy(text); //printf("text %s %d\n", text, index);
 }
 
 static inline char* getOutputElement(Output* output, int index)
@@ -62,7 +60,12 @@ static inline char* getOutputElement(Output* output, int index)
 
 static inline void removeOutputElement(Output* output, int number)
 {
-    output->count-=number; 
+    int i;
+    for(i = 0; i<number; i++)
+    {
+        free(output->element[output->count]);
+        --output->count;
+    }
 }
 
 static inline int getOutputSize(Output* output)
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 90e223e..6a0f537 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -175,6 +175,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                                 substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
                                 substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
                                 addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
+                                free(object_text);
                                 qs.node[node_index].matched_start = INVALID;
                                 sum++;
                             }
@@ -226,6 +227,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                                 substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
                                 substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
                                 addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
+                                free(object_text);
                                 qs.node[node_index].matched_start = INVALID;
                                 sum++;
                             }
@@ -310,7 +312,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 //check array indexes
                 if(!(lower==0&&upper==0))
                 {
-                    if(strcmp(tuple.text, "}")==0||strcmp(tuple.text, "]")==0) { 
+                    if(tuple.text!=NULL && (strcmp(tuple.text, "}")==0||strcmp(tuple.text, "]")==0)) { 
                         qs.node[qs_elt.start].count++; 
                         if(qs.node[qs_elt.start].count>=upper) qs.node[qs_elt.start].query_state = 0; 
                         continue;
@@ -330,8 +332,9 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     addTuple(tuple_list, tuple.state, tuple.text);
                 else
                 {   
-                    substring_in_place(tuple.text, thread_info[i].input_stream, tuple.start_position, tuple.end_position); 
-                    addTuple(tuple_list, tuple.state, tuple.text); 
+                    char* text = substring(thread_info[i].input_stream, tuple.start_position, tuple.end_position); 
+                    addTuple(tuple_list, tuple.state, text); 
+                    free(text);
                 }
                 sum++;
             }
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 901a90f..b92423d 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -190,7 +190,7 @@ static inline Output* serialPartialRun(PathProcessor* path_processor, char* inpu
     ci->pf = pf;
 
     //the tuples of this input chunk have been consumed
-    initTupleList(streaming_automaton.tuple_list);
+    clearTupleList(streaming_automaton.tuple_list);
 
     //set context flag
     ci->context_flag = CONTEXT;
@@ -264,7 +264,7 @@ static inline Output* parallelPartialRun(PathProcessor* path_processor, char* in
    
     //the tuples of this input chunk have been consumed
     freeInputChunks(pInfo);
-    initTupleList(pa.tuple_list);
+    clearTupleList(pa.tuple_list);
     ci->context_flag = CONTEXT;
     return output;
 }
@@ -316,7 +316,7 @@ static inline Output* parallelPartialRunOpt(PathProcessor* path_processor, char*
 
     //the tuples of this input chunk have been consumed
     freeInputChunks(pInfo);     
-    initTupleList(pa.tuple_list);
+    clearTupleList(pa.tuple_list);
     ci->context_flag = CONTEXT;
     return output;
 }
diff --git a/JSONQuery/predicate.h b/JSONQuery/predicate.h
index c750410..57d2305 100644
--- a/JSONQuery/predicate.h
+++ b/JSONQuery/predicate.h
@@ -100,10 +100,11 @@ static inline void destroyPredicateFilter(PredicateFilter* pf)
     {
         if(pf->predicate_conditions[i]!=NULL)
         {    
+            clearPredicateCondtion(pf->predicate_conditions[i]);
             free(pf->predicate_conditions[i]);
         }
     } 
-    if(pf->buffer!=NULL) free(pf->buffer);
+    if(pf->buffer!=NULL) freeOutput(pf->buffer);
 }
 
 Output* generateFinalOutput(PredicateFilter* pf);
diff --git a/JSONQuery/streaming_automaton.c b/JSONQuery/streaming_automaton.c
index cd874a1..3fa4ac0 100644
--- a/JSONQuery/streaming_automaton.c
+++ b/JSONQuery/streaming_automaton.c
@@ -190,6 +190,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     char* output_text = substring(lexer.begin_stream, qs_elt->matched_start, position);
                     qs_elt->matched_start = INVALID;
                     addTuple(tl, qs_elt->query_state, output_text);
+                    free(output_text);
                 }
                 //syntax stack only has one '{'
                 if(syntaxStackSize(ss) == 1)   
@@ -252,7 +253,8 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                         int position = lexer.next_start - lexer.begin_stream;
                         char* output_text = substring(lexer.begin_stream, top_qs_elt.matched_start, position); 
                         top_qs_elt.matched_start = INVALID;
-                        addTuple(tl, top_qs_elt.query_state, output_text);  
+                        addTuple(tl, top_qs_elt.query_state, output_text);
+                        free(output_text);
                     }
                     //syntax stack only has one '['
                     if(syntaxStackSize(ss) == 1)  
diff --git a/JSONQuery/tuple_list.h b/JSONQuery/tuple_list.h
index 797db76..6cc6072 100644
--- a/JSONQuery/tuple_list.h
+++ b/JSONQuery/tuple_list.h
@@ -1,14 +1,10 @@
 #ifndef __TUPLE_LIST_H__
 #define __TUPLE_LIST_H__
 
+#include <stdlib.h>
 #include "utility.h"
 
-#ifdef JPS_VERIF
-#define MAX_TUPLE_LIST JPS_VERIF_MAX_TUPLE_LIST
-#else
-#define MAX_TUPLE_LIST 5000000
-#endif
-#define MAX_TEXT 1000
+#define INITIAL_TUPLE_LIST 64
 
 typedef struct Tuple{
     //starting index for string text
@@ -16,19 +12,22 @@ typedef struct Tuple{
     //ending index for string text
     int end_position;
     int state;
-    char text[MAX_TEXT];
+    //string text, NULL if it has to be acquired from the input stream
+    char* text;
     int next_index;
 }Tuple;
 
 typedef struct TupleList{
-    Tuple element[MAX_TUPLE_LIST];
+    Tuple* element;
     int count;
+    int capacity;
 }TupleList;
 
 static inline void initTupleList(TupleList* tl)
 {
-    //tl->element = (Tuple*)malloc(MAX_TUPLE_LIST*sizeof(Tuple));
+    tl->element = NULL;
     tl->count = -1;
+    tl->capacity = 0;
 }
 
 static inline TupleList* createTupleList()
@@ -38,26 +37,52 @@ static inline TupleList* createTupleList()
     return tl;
 }
 
+//remove all tuples
+static inline void clearTupleList(TupleList* tl)
+{
+    int i;
+    for(i = 0; i<=tl->count; i++)
+    {
+        if(tl->element[i].text!=NULL) free(tl->element[i].text);
+    }
+    tl->count = -1;
+}
+
 static inline void freeTupleList(TupleList* tl)
 {
+    clearTupleList(tl);
+    free(tl->element);
     free(tl);
 }
 
+//get the index for the next tuple
+static inline int nextTupleIndex(TupleList* tl)
+{
+    int index = (++tl->count);
+    if(index>=tl->capacity)
+    {
+        tl->capacity = (tl->capacity==0)? INITIAL_TUPLE_LIST : tl->capacity*2;
+        tl->element = (Tuple*)realloc(tl->element, tl->capacity*sizeof(Tuple));
+    }
+    return index;
+}
+
 static inline void addTuple(TupleList* tl, int state, char* text)
 { 
-    int index = (++tl->count);
+    int index = nextTupleIndex(tl);
     tl->element[index].state = state;
     tl->element[index].start_position = -1;
-    strcopy(text, tl->element[index].text); 
+    tl->element[index].text = allocate_and_copy(text); 
     tl->element[index].next_index  = -1;
 }
 
 static inline void addVirtualTuple(TupleList* tl, int state, int start_position, int end_position)
 {
-    int index = (++tl->count);
+    int index = nextTupleIndex(tl);
     tl->element[index].state = state;
     tl->element[index].start_position = start_position; 
     tl->element[index].end_position = end_position;
+    tl->element[index].text = NULL;
     tl->element[index].next_index  = -1;
 }
 
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 3e76d2b..4548798 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -227,7 +227,8 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                     int matched_end = lexer.next_start - lexer.begin_stream;
                                     if(wa->id==0){
                                         char* output_text = substring(lexer.begin_stream, c_node.matched_start, matched_end);
-                                        addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl); 
+                                        addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl);
+                                        free(output_text);
                                     }
                                     else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
                                     qs.node[start_index].matched_start = INVALID; 
@@ -390,7 +391,8 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 int matched_end = lexer.next_start - lexer.begin_stream;
                                 if(wa->id==0){
                                     char* output_text = substring(lexer.begin_stream, c_node.matched_start, matched_end);
-                                    addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl); 
+                                    addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl);
+                                    free(output_text);
                                 }
                                 else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
                                 qs.node[start_index].matched_start = INVALID; 
-- 
2.43.0


From 1dfe81956ce5291dbd8f0496dc9f0d9ac25506af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:01 +0000
Subject: [PATCH 14/35] fix: parallel merge: array indexes, objects spanning
 several chunks and primitives at chunk starts were merged wrongly

---
 JSONQuery/multi_stack.h                 | 39 ++++++++++-----
 JSONQuery/parallel_automata_execution.h | 65 +++++++++++++------------
 JSONQuery/tuple_list.h                  |  2 +
 JSONQuery/unit.h                        |  1 +
 JSONQuery/worker_automaton.c            | 56 ++++++++-------------
 JSONQuery/worker_automaton.h            |  3 ++
 6 files changed, 89 insertions(+), 77 deletions(-)

diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index 3155edc..9711294 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -322,13 +322,13 @@ static inline void addTupleInfo(QueryStacks* qs, int node_index, int query_state
          int root_index = qs->root_pointers[root_s];
          TreeNode root = qs->node[root_index];
          addTuple(tl, query_state, text_content);
+         int tuple_index = getTupleListSize(tl)-1;
+         tl->element[tuple_index].element_index = root.count;
          if(root.first_tuple_index>=0){
-             int tuple_index = getTupleListSize(tl)-1;
              linkTuples(tl, root.last_tuple_index, tuple_index);
              qs->node[root_index].last_tuple_index = tuple_index;
          }
          else{
-             int tuple_index = getTupleListSize(tl)-1;
              qs->node[root_index].first_tuple_index = tuple_index;
              qs->node[root_index].last_tuple_index = tuple_index;
          }
@@ -340,13 +340,13 @@ static inline void addTupleInfo(QueryStacks* qs, int node_index, int query_state
          int root_index = node_index;
          TreeNode root = qs->node[root_index];
          addTuple(tl, query_state, text_content);
+         int tuple_index = getTupleListSize(tl)-1;
+         tl->element[tuple_index].element_index = root.count;
          if(root.first_tuple_index>=0){
-             int tuple_index = getTupleListSize(tl)-1;
              linkTuples(tl, root.last_tuple_index, tuple_index);
              qs->node[root_index].last_tuple_index = tuple_index;
          }
          else{
-             int tuple_index = getTupleListSize(tl)-1;
              qs->node[root_index].first_tuple_index = tuple_index;
              qs->node[root_index].last_tuple_index = tuple_index;
          }
@@ -366,13 +366,13 @@ static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int quer
          TreeNode root = qs->node[root_index];
          //only saves pointers for large object or array outputs, contents can be acquired during merging phase
          addVirtualTuple(tl, query_state, matched_start, matched_end);
+         int tuple_index = getTupleListSize(tl)-1;
+         tl->element[tuple_index].element_index = root.count;
          if(root.first_tuple_index>=0){
-             int tuple_index = getTupleListSize(tl)-1;
              linkTuples(tl, root.last_tuple_index, tuple_index);
              qs->node[root_index].last_tuple_index = tuple_index;
          }
          else{
-             int tuple_index = getTupleListSize(tl)-1;
              qs->node[root_index].first_tuple_index = tuple_index;
              qs->node[root_index].last_tuple_index = tuple_index;
          }
@@ -384,13 +384,13 @@ static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int quer
          int root_index = node_index;
          TreeNode root = qs->node[root_index]; 
          addVirtualTuple(tl, query_state, matched_start, matched_end);
+         int tuple_index = getTupleListSize(tl)-1;
+         tl->element[tuple_index].element_index = root.count;
          if(root.first_tuple_index>=0){
-             int tuple_index = getTupleListSize(tl)-1;
              linkTuples(tl, root.last_tuple_index, tuple_index);
              qs->node[root_index].last_tuple_index = tuple_index;
          }
          else{
-             int tuple_index = getTupleListSize(tl)-1;
              qs->node[root_index].first_tuple_index = tuple_index;
              qs->node[root_index].last_tuple_index = tuple_index;
          }
@@ -398,7 +398,8 @@ static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int quer
 }
 
 // combine one stack with multiple paths into another stack with a single path, can only be used during merging phase
-static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* dst_qs_elt, QueryStacks* src_qs, QueryStacksElement* src_qs_elt)
+// offset -- the position of the source chunk inside of the whole input stream
+static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* dst_qs_elt, QueryStacks* src_qs, QueryStacksElement* src_qs_elt, JSONQueryDFA* qa, int offset)
 {
     int i = 0;
     src_qs->item[++src_qs->top_item] = (*src_qs_elt);
@@ -422,6 +423,13 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
         } 
         if(root_index!=-1)
         { 
+            //the element under processing belongs to the array or object on top of dst_qs
+            TreeNode* dst_root = &dst_qs->node[dst_qs_elt->start];
+            dst_root->count += src_qs->node[root_index].count;
+            JSONQueryIndexPair pair = getDFAArrayIndex(qa, query_state);
+            int selected = ((pair.lower==0&&pair.upper==0)||(dst_root->count>=pair.lower && dst_root->count<pair.upper));
+            if(selected && src_qs->node[root_index].matched_start!=INVALID)
+                dst_root->matched_start = src_qs->node[root_index].matched_start + offset;
             //use root information to find the correct paths in src_qs
             for(i = 1; i<=top_src; i++)
             {
@@ -438,9 +446,18 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
                         if(src_qs->root_pointers[root_start]==root_index)
                         {
                             int node_index = (dst_qs->num_node++); 
-                            dst_qs->node[node_index].query_state = src_qs->node[start].query_state;
+                            dst_qs->node[node_index].query_state = selected? src_qs->node[start].query_state : 0;
                             dst_qs->node[node_index].count = src_qs->node[start].count;
-                            dst_qs->node[node_index].matched_start = src_qs->node[start].matched_start;
+                            dst_qs->node[node_index].matched_start = INVALID;
+                            if(selected && src_qs->node[start].matched_start!=INVALID)
+                                dst_qs->node[node_index].matched_start = src_qs->node[start].matched_start + offset;
+                            //single parent and single root
+                            dst_qs->node[node_index].parent_range.start = dst_qs->num_parent_pointers;
+                            dst_qs->node[node_index].parent_range.end = dst_qs->num_parent_pointers;
+                            dst_qs->parent_pointers[dst_qs->num_parent_pointers++] = dst_qs_elt->start;
+                            dst_qs->node[node_index].root_range.start = dst_qs->num_root_pointers;
+                            dst_qs->node[node_index].root_range.end = dst_qs->num_root_pointers;
+                            dst_qs->root_pointers[dst_qs->num_root_pointers++] = 0;
                             dst_qs_elt->start = node_index;
                             dst_qs_elt->end = node_index;
                             break;
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 6a0f537..b125bde 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -118,6 +118,26 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
     return match;
 }
 
+//acquire text from position start to position end of the whole input stream, might span over several chunks
+//offset[i] -- position of the ith chunk, offset[num_thread] -- length of the whole input stream
+static inline char* acquireText(ThreadInfo* thread_info, int* offset, int num_thread, int start, int end)
+{
+    char* text = (char*)malloc((end-start+1)*sizeof(char));
+    int i, length = 0;
+    for(i = 0; i<num_thread; i++)
+    {
+        int from = (start>offset[i])? start : offset[i];
+        int to = (end<offset[i+1])? end : offset[i+1];
+        if(from<to)
+        {
+            memcpy(text+length, thread_info[i].input_stream+from-offset[i], to-from);
+            length += to-from;
+        }
+    }
+    text[length] = '\0';
+    return text;
+}
+
 // merging results from different chunks
 TupleList* combine(ThreadInfo* thread_info, int num_thread)
 {
@@ -135,6 +155,11 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
     //save information for current unmatched symbol
     UnmatchedSymbol us;
     int sum = getTupleListSize(tuple_list); 
+    //positions of input chunks
+    int offset[MAX_THREAD+1];
+    offset[0] = 0;
+    for(int i = 0; i<num_thread; i++)
+        offset[i+1] = offset[i]+strlen(thread_info[i].input_stream);
 
     for(int i = 1; i<num_thread; i++)
     {
@@ -168,12 +193,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             int matched_type = getMatchedType(qa,&c_node);
                             if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {  
-                                int left_len = strlen(thread_info[i-1].input_stream)-c_node.matched_start;
-                                int right_len = us.index+1;
-                                int strlen = left_len+right_len;
-                                char* object_text = (char*)malloc((strlen+1)*sizeof(char));
-                                substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
-                                substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
+                                char* object_text = acquireText(thread_info, offset, num_thread, c_node.matched_start, offset[i]+us.index+1);
                                 addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
                                 free(object_text);
                                 qs.node[node_index].matched_start = INVALID;
@@ -213,19 +233,15 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     if(syntaxStackSize(&ss) > 0)
                     {
                         QueryStacksElement top_qs_elt = queryStacksTop(&qs);
-                        c_node = qs.node[top_qs_elt.start]; 
+                        node_index = top_qs_elt.start;
+                        c_node = qs.node[node_index]; 
                         if(c_node.matched_start!=INVALID)
                         {
                             
                             int matched_type = getMatchedType(qa,&c_node);
                             if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {  
-                                int left_len = strlen(thread_info[i-1].input_stream)-c_node.matched_start;
-                                int right_len = us.index;
-                                int strlen = left_len+right_len;
-                                char* object_text = (char*)malloc((strlen+1)*sizeof(char));
-                                substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
-                                substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
+                                char* object_text = acquireText(thread_info, offset, num_thread, c_node.matched_start, offset[i]+us.index+1);
                                 addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
                                 free(object_text);
                                 qs.node[node_index].matched_start = INVALID;
@@ -286,10 +302,12 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     seq_wa->query_stacks = qs;
                     seq_wa->query_stacks_element = qs_elt;
                     seq_wa->need_reprocess = REPROCESS;
+                    seq_wa->stream_offset = offset[i]+start_index;
                     printf("start reprocessing the %dth unit in the %dth chunk\n", j, i);
                     executeWorkerAutomaton(seq_wa, streaming); 
                     printf("the %dth unit in the %dth chunk has been reprocessed successfully\n", j, i);
                     free(streaming);
+                    seq_wa->stream_offset = 0;
                     ss = seq_wa->syntax_stack;
                     qs = seq_wa->query_stacks;
                     qs_elt = seq_wa->query_stacks_element;   
@@ -310,23 +328,8 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 int upper = pair.upper; 
                 int counter = qs.node[qs_elt.start].count; 
                 //check array indexes
-                if(!(lower==0&&upper==0))
-                {
-                    if(tuple.text!=NULL && (strcmp(tuple.text, "}")==0||strcmp(tuple.text, "]")==0)) { 
-                        qs.node[qs_elt.start].count++; 
-                        if(qs.node[qs_elt.start].count>=upper) qs.node[qs_elt.start].query_state = 0; 
-                        continue;
-                    }
-                    else if(!(counter>=lower && counter<upper)) { 
-                        if(qs.node[qs_elt.start].count>=upper) qs.node[qs_elt.start].query_state = 0;
-                        continue;
-                    }
-                    else
-                    {
-                        int matched_type = getMatchedType(qa, &qs.node[qs_elt.start]);
-                        if(matched_type==DFA_OUTPUT_CANDIDATE) qs.node[qs_elt.start].count++;
-                    }
-                }    
+                counter += tuple.element_index;
+                if(!((lower==0&&upper==0)||(counter>=lower && counter<upper))) continue;
                 // add corresponding tuple into the tuple list 
                 if(tuple.start_position==-1)
                     addTuple(tuple_list, tuple.state, tuple.text);
@@ -343,7 +346,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
         if(merge_needed==1)
         {
             combineSyntaxStack(&ss, &wa->syntax_stack); 
-            combineQueryStacks(&qs, &qs_elt, &wa->query_stacks, &wa->query_stacks_element);  //merge query stacks
+            combineQueryStacks(&qs, &qs_elt, &wa->query_stacks, &wa->query_stacks_element, qa, offset[i]);  //merge query stacks
         }
     }
     seq_wa->syntax_stack = ss;
diff --git a/JSONQuery/tuple_list.h b/JSONQuery/tuple_list.h
index 6cc6072..9cc1cf8 100644
--- a/JSONQuery/tuple_list.h
+++ b/JSONQuery/tuple_list.h
@@ -15,6 +15,8 @@ typedef struct Tuple{
     //string text, NULL if it has to be acquired from the input stream
     char* text;
     int next_index;
+    //array index relative to the beginning of the unit, for the array that contains the unit
+    int element_index;
 }Tuple;
 
 typedef struct TupleList{
diff --git a/JSONQuery/unit.h b/JSONQuery/unit.h
index d54d9e7..cf7669c 100644
--- a/JSONQuery/unit.h
+++ b/JSONQuery/unit.h
@@ -52,6 +52,7 @@ static inline void initUnit(Unit* unit)
     unit->count_start_states = -1;
     unit->count_unmatched_symbols = -1;
     unit->num_root = -1;
+    unit->unit_state = UNIT_UNMATCHED;
     unit->has_pruned = UNPRUNED;
     unit->start = NULL;
     unit->end = NULL;
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 4548798..041e3a0 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -1,8 +1,5 @@
 #include "worker_automaton.h"
 
-#define DFA_INCOMPLETE_INDEX 4
-#define DFA_UNSELECTED_CANDIDATE 5
-
 /* 
    return matched type for current state
    0 -- not match DFA_OUTPUT_CANDIDATE -- output candidate 
@@ -20,27 +17,15 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
         int upper = pair.upper;
         int counter = tnode->count;
         //check array indexes
-        if(tnode->root_range.end==-1)  //root node
+        if(tnode->root_range.end==-1)  //root node, its first index is unknown until merging phase
         {   
             if(!((lower==0&&upper==0)||(counter<upper))) match = 0;
-            //current state might be DFA_OUTPUT_CANDIDATE
-            else if(!(lower==0&&upper==0)) match = DFA_UNSELECTED_CANDIDATE; 
         }
         else if(!((lower==0&&upper==0)||(counter>=lower && counter<upper)))
         {
             match = 0;
         }
     }
-    else if(tnode->root_range.end==-1)
-    {
-        JSONQueryIndexPair pair = getDFAArrayIndex(qa, tnode->query_state);
-        int lower = pair.lower; 
-        int upper = pair.upper;
-        int counter = tnode->count;
-        if(!((lower==0&&upper==0)||(counter<upper))) match = 0;
-        //unknown information about array indexes
-        else if(!(lower==0&&upper==0)) match = DFA_INCOMPLETE_INDEX; 
-    }
     return match;
 }
 
@@ -161,6 +146,8 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
     //initialize lexer
     Lexer lexer;
     initLexer(&lexer, json_stream);
+    //position where the lexer begins to look for the current token
+    char* token_start = lexer.next_start;
     Token token = nextToken(&lexer);
     int token_type = token.token_type;
 
@@ -194,9 +181,9 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {
                         TreeNode c_node = qs.node[start_index];
                         int matched_type = getMatchedType(qa,&c_node); 
-                        if(matched_type==DFA_OUTPUT_CANDIDATE ||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))  
+                        if(matched_type==DFA_OUTPUT_CANDIDATE)  
                         { 
-                            qs.node[start_index].matched_start = lexer.next_start - lexer.begin_stream - 1; 
+                            qs.node[start_index].matched_start = lexer.next_start - lexer.begin_stream - 1 + wa->stream_offset; 
                         }
                         else if(matched_type==DFA_PREDICATE)
                         {   
@@ -222,11 +209,11 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             if(c_node.matched_start!=INVALID)
                             {  
                                 int matched_type = getMatchedType(qa,&c_node);
-                                if(matched_type==DFA_OUTPUT_CANDIDATE||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
+                                if(matched_type==DFA_OUTPUT_CANDIDATE)
                                 {  
                                     int matched_end = lexer.next_start - lexer.begin_stream;
                                     if(wa->id==0){
-                                        char* output_text = substring(lexer.begin_stream, c_node.matched_start, matched_end);
+                                        char* output_text = substring(lexer.begin_stream, c_node.matched_start - wa->stream_offset, matched_end);
                                         addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl);
                                         free(output_text);
                                     }
@@ -298,10 +285,6 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 {
                                     addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);
                                 }
-                                else if(matched_type==DFA_INCOMPLETE_INDEX)
-                                {
-                                    addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);  
-                                }
                                 start_index++;
                             }
                         }
@@ -361,9 +344,9 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {   
                         TreeNode c_node = qs.node[start_index];
                         int matched_type = getMatchedType(qa,&c_node);
-                        if(matched_type==DFA_OUTPUT_CANDIDATE ||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))  
+                        if(matched_type==DFA_OUTPUT_CANDIDATE)  
                         { 
-                            qs.node[start_index].matched_start = lexer.next_start - lexer.begin_stream - 1; 
+                            qs.node[start_index].matched_start = lexer.next_start - lexer.begin_stream - 1 + wa->stream_offset; 
                         }
                         else if(matched_type==DFA_CONDITION)
                         {   
@@ -386,21 +369,17 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         if(c_node.matched_start!=INVALID)
                         {
                             int matched_type = getMatchedType(qa,&c_node);
-                            if(matched_type==DFA_OUTPUT_CANDIDATE||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
+                            if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {   
                                 int matched_end = lexer.next_start - lexer.begin_stream;
                                 if(wa->id==0){
-                                    char* output_text = substring(lexer.begin_stream, c_node.matched_start, matched_end);
+                                    char* output_text = substring(lexer.begin_stream, c_node.matched_start - wa->stream_offset, matched_end);
                                     addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl);
                                     free(output_text);
                                 }
                                 else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
                                 qs.node[start_index].matched_start = INVALID; 
                             }
-                            else if(matched_type==DFA_INCOMPLETE_INDEX)
-                            {
-                                addTupleInfo(&qs, start_index, c_node.query_state, "]", tl);
-                            }
                         }
                         start_index++;
                     }
@@ -522,7 +501,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {
                         TreeNode c_node = qs.node[start_index];
                         int matched_type = getMatchedType(qa,&c_node);
-                        if(matched_type==DFA_OUTPUT_CANDIDATE||matched_type==DFA_CONDITION||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
+                        if(matched_type==DFA_OUTPUT_CANDIDATE||matched_type==DFA_CONDITION)
                         {
                             addTupleInfo(&qs, start_index, c_node.query_state, token.content, tl);
                         }
@@ -539,8 +518,11 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                 else{
                     if(syntaxStackSize(&shadow_ss)==0)  
                     {
-                         Lexer temp_lexer = lexer;
+                         //looking ahead must not overwrite the content of the primitive
+                         Lexer temp_lexer;
+                         initLexer(&temp_lexer, lexer.next_start);
                          syntaxStackInference(&temp_lexer, token_type, &shadow_ss, &ss);
+                         destroyLexer(&temp_lexer);
                     }
                     if(syntaxStackTop(&shadow_ss)==KY)	 
                     {   
@@ -563,13 +545,16 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     else if(syntaxStackTop(&shadow_ss)==LB)  
                     {
                         if(unit.unit_state!=UNIT_MATCHED)
+                        {
                             unit.unit_state = UNIT_MATCHED;
+                            addStartPosition(&unit, token_start);
+                        }
                         int start_index=qs_elt.start, end_index=qs_elt.end;
                         while(start_index<=end_index)
                         {
                             TreeNode c_node = qs.node[start_index];
                             int matched_type = getMatchedType(qa,&c_node);
-                            if(matched_type==DFA_OUTPUT_CANDIDATE||matched_type==DFA_CONDITION||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
+                            if(matched_type==DFA_OUTPUT_CANDIDATE||matched_type==DFA_CONDITION)
                             {
                                 addTupleInfo(&qs, start_index, c_node.query_state, token.content, tl);
                             }
@@ -580,6 +565,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                 }
                 break;
         }
+        token_start = lexer.next_start;
         token = nextToken(&lexer);
         token_type = token.token_type; 
     }
diff --git a/JSONQuery/worker_automaton.h b/JSONQuery/worker_automaton.h
index 4a38b49..abae39f 100644
--- a/JSONQuery/worker_automaton.h
+++ b/JSONQuery/worker_automaton.h
@@ -45,6 +45,8 @@ typedef struct WorkerAutomaton{
     // whether the input stream needs to be reprocessed
     int need_reprocess;
     int initial_flag;
+    // position of the processed stream inside of the whole input stream
+    int stream_offset;
 }WorkerAutomaton;
 
 // wa -- worker automaton qa -- query automaton
@@ -56,6 +58,7 @@ static inline void initWorkerAutomaton(WorkerAutomaton* wa, JSONQueryDFA* qa)
     wa->tuple_list = createTupleList();
     wa->need_reprocess = NOREPROCESS;
     wa->initial_flag = NOINITIAL;
+    wa->stream_offset = 0;
 }
 
 static inline void destroyWorkerAutomaton(WorkerAutomaton* wa)
-- 
2.43.0


From a0362bee459f7c002e3889030e1f09b4aa74f687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:02 +0000
Subject: [PATCH 15/35] fix: bounded memory: values that span several input
 chunks lost their text

---
 JSONQuery/lexing.h                      |  8 +++++
 JSONQuery/parallel_automata_execution.h | 45 +++++++++++++++++++++++--
 JSONQuery/streaming_automaton.c         | 33 ++++++++++++++++++
 JSONQuery/streaming_automaton.h         |  8 +++++
 JSONQuery/worker_automaton.c            |  1 +
 JSONQuery/worker_automaton.h            |  3 ++
 6 files changed, 96 insertions(+), 2 deletions(-)

diff --git a/JSONQuery/lexing.h b/JSONQuery/lexing.h
index b8bf37d..25dd272 100644
--- a/JSONQuery/lexing.h
+++ b/JSONQuery/lexing.h
@@ -42,6 +42,14 @@ static inline void initLexer(Lexer* lexer, char* json_stream)
     lexer->content_size = MAX_SIZE_PRIMITIVE;
 }
 
+//start after the first length characters of the stream
+static inline void skipStream(Lexer* lexer, int length)
+{
+    lexer->current_pointer = lexer->begin_stream + length;
+    lexer->current_start = lexer->current_pointer;
+    lexer->next_start = lexer->current_pointer;
+}
+
 static inline void destroyLexer(Lexer* lexer)
 {
     if(lexer->content!=NULL) free(lexer->content);
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index b125bde..19ea560 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -36,6 +36,8 @@ typedef struct ParallelAutomata{
     QueryStacks query_stacks; 
     TupleList* tuple_list;
     WorkerAutomaton* major_automaton;
+    //beginning of an output candidate that is not finished yet by the processed input stream
+    char* pending_text;
 }ParallelAutomata;
 
 static inline void initParallelAutomata(ParallelAutomata* pa, JSONQueryDFA* qa)
@@ -43,6 +45,7 @@ static inline void initParallelAutomata(ParallelAutomata* pa, JSONQueryDFA* qa)
     pa->query_automaton = qa;
     pa->tuple_list = NULL;
     pa->major_automaton = NULL;
+    pa->pending_text = NULL;
 }
 
 static inline void destroyParallelAutomata(ParallelAutomata* pa)
@@ -58,6 +61,11 @@ static inline void destroyParallelAutomata(ParallelAutomata* pa)
         freeWorkerAutomaton(pa->major_automaton);
         pa->major_automaton = NULL;
     }
+    if(pa->pending_text != NULL)
+    {
+        free(pa->pending_text);
+        pa->pending_text = NULL;
+    }
 }
 
 //main function for each thread
@@ -139,7 +147,8 @@ static inline char* acquireText(ThreadInfo* thread_info, int* offset, int num_th
 }
 
 // merging results from different chunks
-TupleList* combine(ThreadInfo* thread_info, int num_thread)
+// pending_text -- saves the text of output candidates that are not finished by the last chunk
+TupleList* combine(ThreadInfo* thread_info, int num_thread, char** pending_text)
 {
     int i,j,k;
     //get some information for thread 0
@@ -352,6 +361,19 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
     seq_wa->syntax_stack = ss;
     seq_wa->query_stacks = qs;
     seq_wa->query_stacks_element = qs_elt;
+    //save the text of unfinished output candidates, their positions count from its beginning
+    int first_start = INVALID;
+    for(int i = 0; i<qs.num_node; i++)
+    {
+        int start = qs.node[i].matched_start;
+        if(start!=INVALID && (first_start==INVALID || start<first_start)) first_start = start;
+    }
+    if(first_start!=INVALID)
+    {
+        *pending_text = acquireText(thread_info, offset, num_thread, first_start, offset[num_thread]);
+        for(int i = 0; i<qs.num_node; i++)
+            if(qs.node[i].matched_start!=INVALID) seq_wa->query_stacks.node[i].matched_start -= first_start;
+    }
     //printf("syntax stack size %d query stack size %d\n", syntaxStackSize(&ss), qs.top_item+1);
     //printf("size of 2-tuple list before filtering %d\n", getTupleListSize(tuple_list));
     return tuple_list;
@@ -364,6 +386,18 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
     JSONQueryDFA* qa = pa->query_automaton;
     ThreadInfo ti[MAX_THREAD]; 
     int i;
+    //unfinished output candidates continue with the first chunk
+    char* pending_stream = NULL;
+    int pending_length = 0;
+    if(pa->pending_text!=NULL)
+    {
+        pending_length = strlen(pa->pending_text);
+        pending_stream = (char*)malloc((pending_length+strlen(par_info.stream[0])+1)*sizeof(char));
+        strcpy(pending_stream, pa->pending_text);
+        strcpy(pending_stream+pending_length, par_info.stream[0]);
+        free(pa->pending_text);
+        pa->pending_text = NULL;
+    }
     for(i = 0; i<num_cores; i++)
     {
         //initialize each thread
@@ -372,6 +406,11 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
         if((i==0)&&(pa->major_automaton!=NULL))  ti[i].worker_automaton = pa->major_automaton;  
         else 
             ti[i].worker_automaton = createWorkerAutomaton(qa, i, ct);
+        if(i==0 && pending_stream!=NULL)
+        {
+            ti[i].input_stream = pending_stream;
+            ti[i].worker_automaton->pending_length = pending_length;
+        }
         int rc=pthread_create(&ti[i].thread, NULL, main_thread, &ti[i]);  
     	if (rc)
         {
@@ -382,7 +421,9 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
     for (i = 0; i <num_cores; i++)
         pthread_join(ti[i].thread, NULL);
     printf("worker automata: finish parallel query processing\n");
-    TupleList* tl = combine(ti, num_cores);
+    ti[0].worker_automaton->pending_length = 0;
+    TupleList* tl = combine(ti, num_cores, &pa->pending_text);
+    if(pending_stream!=NULL) free(pending_stream);
     printf("combiner: finish merging 2-tuple lists\n");
     pa->syntax_stack = ti[0].worker_automaton->syntax_stack;
     pa->query_stacks = ti[0].worker_automaton->query_stacks;
diff --git a/JSONQuery/streaming_automaton.c b/JSONQuery/streaming_automaton.c
index 3fa4ac0..ad7c7c7 100644
--- a/JSONQuery/streaming_automaton.c
+++ b/JSONQuery/streaming_automaton.c
@@ -141,9 +141,24 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
     qs_element.matched_start = sa->matched_start;
     QueryStackElement* qs_elt = &qs_element;  //address of qs_element
 
+    //unfinished output candidates continue with the current input chunk
+    char* pending_stream = NULL;
+    int pending_length = 0;
+    if(sa->pending_text!=NULL)
+    {
+        pending_length = strlen(sa->pending_text);
+        pending_stream = (char*)malloc((pending_length+strlen(json_stream)+1)*sizeof(char));
+        strcpy(pending_stream, sa->pending_text);
+        strcpy(pending_stream+pending_length, json_stream);
+        json_stream = pending_stream;
+        free(sa->pending_text);
+        sa->pending_text = NULL;
+    }
+
     //initialize lexer
     Lexer lexer;
     initLexer(&lexer, json_stream);
+    skipStream(&lexer, pending_length);
 
     Token token = nextToken(&lexer);
     int token_type = token.token_type;
@@ -260,6 +275,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     if(syntaxStackSize(ss) == 1)  
                     {   
                         ary_e(qs_elt, ss, qs); 
+                        qs_elt->matched_start = INVALID;
                     }
                     //syntax stack has at least two elements, the top element is '['
                     else if(syntaxStackSize(ss) > 1)  
@@ -273,6 +289,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                         else if(syntaxStackSecondTop(ss)==LB)  
                         {  
                             elt_ary_e(qs_elt, ss, qs); 
+                            qs_elt->matched_start = INVALID;
                             increaseArrayCounter(qs_elt);
                         }
                     }
@@ -323,6 +340,22 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
         token = nextToken(&lexer);
         token_type = token.token_type; 
     }
+    //save the text of unfinished output candidates, their positions count from its beginning
+    int first_start = qs_elt->matched_start;
+    int i;
+    for(i = 0; i<=qs->top_item; i++)
+    {
+        int start = qs->item[i].matched_start;
+        if(start!=INVALID && (first_start==INVALID || start<first_start)) first_start = start;
+    }
+    if(first_start!=INVALID)
+    {
+        sa->pending_text = substring(json_stream, first_start, strlen(json_stream));
+        if(qs_elt->matched_start!=INVALID) qs_elt->matched_start -= first_start;
+        for(i = 0; i<=qs->top_item; i++)
+            if(qs->item[i].matched_start!=INVALID) qs->item[i].matched_start -= first_start;
+    }
+    if(pending_stream!=NULL) free(pending_stream);
     destroyLexer(&lexer);
     sa->query_state = qs_elt->query_state;
     sa->count = qs_elt->count;
diff --git a/JSONQuery/streaming_automaton.h b/JSONQuery/streaming_automaton.h
index 2c8fa4c..fb62f17 100644
--- a/JSONQuery/streaming_automaton.h
+++ b/JSONQuery/streaming_automaton.h
@@ -21,6 +21,8 @@ typedef struct StreamingAutomaton{
     int count;  
     // matched starting position of object or array
     int matched_start; 
+    // beginning of an output candidate that is not finished yet by the processed input chunks
+    char* pending_text;
     // whether streaming automaton has data constraint
     int constraint_flag;
     // saves data constraint table
@@ -38,6 +40,7 @@ static inline void initStreamingAutomaton(StreamingAutomaton* sa, JSONQueryDFA*
     sa->query_state = 1;   
     sa->count = 0;  
     sa->matched_start = INVALID;
+    sa->pending_text = NULL;
     //by default don't generate any data constraints
     sa->constraint_flag = CLOSE;
     sa->constraint_table = NULL;
@@ -50,6 +53,11 @@ static inline void destroyStreamingAutomaton(StreamingAutomaton* sa)
         freeTupleList(sa->tuple_list); 
         sa->tuple_list = NULL;
     } 
+    if(sa->pending_text != NULL)
+    {
+        free(sa->pending_text);
+        sa->pending_text = NULL;
+    }
 }
 
 // data_constraint_flag: whether sa needs to generate data constraints
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 041e3a0..4591423 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -146,6 +146,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
     //initialize lexer
     Lexer lexer;
     initLexer(&lexer, json_stream);
+    skipStream(&lexer, wa->pending_length);
     //position where the lexer begins to look for the current token
     char* token_start = lexer.next_start;
     Token token = nextToken(&lexer);
diff --git a/JSONQuery/worker_automaton.h b/JSONQuery/worker_automaton.h
index abae39f..68c981b 100644
--- a/JSONQuery/worker_automaton.h
+++ b/JSONQuery/worker_automaton.h
@@ -47,6 +47,8 @@ typedef struct WorkerAutomaton{
     int initial_flag;
     // position of the processed stream inside of the whole input stream
     int stream_offset;
+    // the number of characters at the beginning of the stream that have been processed before
+    int pending_length;
 }WorkerAutomaton;
 
 // wa -- worker automaton qa -- query automaton
@@ -59,6 +61,7 @@ static inline void initWorkerAutomaton(WorkerAutomaton* wa, JSONQueryDFA* qa)
     wa->need_reprocess = NOREPROCESS;
     wa->initial_flag = NOINITIAL;
     wa->stream_offset = 0;
+    wa->pending_length = 0;
 }
 
 static inline void destroyWorkerAutomaton(WorkerAutomaton* wa)
-- 
2.43.0


From 99139898f37f1d4720ed95f3bcc5ba32c44f2967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:01 +0000
Subject: [PATCH 16/35] fix: filter evaluation: ordering and arithmetic on
 non-numbers, negative data numbers, containers, leaks

---
 JSONPathParser/jsonpath_evaluator.h | 30 ++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 3d6be6e..d8f41c8 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -82,12 +82,18 @@ static inline JSONPathValue computeUnaryOperator(JSONPathOperatorType opt, JSONP
 */
 
 static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSONPathValue v1, JSONPathValue v2) {
-    JSONPathValue v;
+    JSONPathValue v = {jvt_null};
     // type casting
     if (opt == jot_or || opt == jot_and) {
         v1 = computeTypeCast(v1);
         v2 = computeTypeCast(v2);
     }
+    // ordering and calculation are defined on numbers only
+    bool numbers = (v1.vtype == jvt_number && v2.vtype == jvt_number);
+    if (!numbers && opt >= jot_add && opt <= jot_mod) {
+        v.vtype = jvt_null;
+        return v;
+    }
     // calculate 
     switch (opt) {
         case jot_or:
@@ -118,19 +124,19 @@ static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSON
             return v;
         case jot_less:
             v.vtype = jvt_boolean;
-            v.boolean = (v1.number < v2.number);
+            v.boolean = numbers && (v1.number < v2.number);
             return v;
         case jot_greater:
             v.vtype = jvt_boolean;
-            v.boolean = (v1.number > v2.number);
+            v.boolean = numbers && (v1.number > v2.number);
             return v;
         case jot_leq:
             v.vtype = jvt_boolean;
-            v.boolean = (v1.number <= v2.number);
+            v.boolean = numbers && (v1.number <= v2.number);
             return v;
         case jot_geq:
             v.vtype = jvt_boolean;
-            v.boolean = (v1.number >= v2.number);
+            v.boolean = numbers && (v1.number >= v2.number);
             return v;
         case jot_add:
             v.vtype = jvt_number;
@@ -150,7 +156,8 @@ static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSON
             return v;
         case jot_mod:
             v.vtype = jvt_number;
-            v.number = (long long int)(v1.number) % (long long int)(v2.number);
+            if ((long long int)(v2.number) == 0) v.vtype = jvt_null;
+            else v.number = (long long int)(v1.number) % (long long int)(v2.number);
             return v;
     }
     return v;
@@ -172,7 +179,8 @@ static inline JSONPathValue stringToValue(const char* str) {
         return v;
     }
     int len = strlen(str);
-    if (len == 0) {
+    // an object or an array has no value, it only exists
+    if (len == 0 || str[0] == '{' || str[0] == '[') {
         v.vtype = jvt_boolean; v.boolean = true;
         return v;
     }
@@ -183,7 +191,7 @@ static inline JSONPathValue stringToValue(const char* str) {
         v.vtype = jvt_string; v.string = s;
         return v;
     }
-    if (isdigit(str[0])) {
+    if (isdigit(str[0]) || str[0] == '-') {
         v.vtype = jvt_number; v.number = atof(str);
         return v;
     }
@@ -252,7 +260,11 @@ static inline JSONPathValue calculateExpression(ASTNode* node, JSONPathKeyValueP
 static inline bool evaluateExpression(ASTNode* node, PredicateCondition* conditions) {
     JSONPathKeyValuePair* table = createTableFromConditions(conditions);
     JSONPathValue v = calculateExpression(node, table);
-    return computeTypeCast(v).boolean;
+    bool result = computeTypeCast(v).boolean;
+    for (int i = 0; table[i].key != NULL; ++i)
+        if (table[i].value.vtype == jvt_string) free(table[i].value.string);
+    free(table);
+    return result;
 }
 
 
-- 
2.43.0


From 2f938b817dc83c12bad39d3501a1e3fa96b8129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:01 +0000
Subject: [PATCH 17/35] fix: filter parser: && binds tighter than ||, % like *
 and /

---
 JSONPathParser/parser_j.y | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/JSONPathParser/parser_j.y b/JSONPathParser/parser_j.y
index ef61cca..2b4a00e 100644
--- a/JSONPathParser/parser_j.y
+++ b/JSONPathParser/parser_j.y
@@ -39,10 +39,11 @@ void jerror (JLTYPE * yylloc, yyscan_t locp, ASTNode **root, const char *msg);
 %type <node> AllPath LocationPath Number Property IndexList Predicate Expr  
 %start AllPath
 
-%left OR AND
+%left OR
+%left AND
 %left NEQ LEQ GEQ EQ '<' '>'
 %left '+' '-'
-%left '*' '/' 
+%left '*' '/' '%'
 %right '!'
 %left '('
 
-- 
2.43.0


From 9b2e56c9a89606592fa16321ca49e4a9215079ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:01 +0000
Subject: [PATCH 18/35] fix: filter variables with several keys were read after
 being freed

---
 JSONPathParser/jsonpath_evaluator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index d8f41c8..338d769 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -305,9 +305,10 @@ static inline ASTNode* evaluatorModifyReference(ASTNode* node) {
             free(node->left->string);
             free(node->right->string);
             free(node->right);
-            free(node);
             node->left->string = name;
-            return node->left;
+            ASTNode* variable = node->left;
+            free(node);
+            return variable;
         }
     }
     return NULL;
-- 
2.43.0


From efa2e22511a2fb60c62935279cc5751fc2d22474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:59 +0000
Subject: [PATCH 19/35] fix: filters: the last step can be a filter and the
 output may share paths with filter variables

---
 DFABuilder/include/Lexer/model_core.hpp |  3 +
 DFABuilder/include/dfa.h                |  6 +-
 DFABuilder/include/dfa_builder.h        |  5 ++
 DFABuilder/src/Lexer/dfa_mixer.cpp      |  6 +-
 DFABuilder/src/dfa_builder.cpp          | 76 +++++++++++++++++--------
 JSONQuery/parallel_automata_execution.h |  5 +-
 JSONQuery/predicate.c                   |  7 ++-
 JSONQuery/streaming_automaton.c         | 10 ++--
 JSONQuery/worker_automaton.c            | 11 ++--
 9 files changed, 89 insertions(+), 40 deletions(-)

diff --git a/DFABuilder/include/Lexer/model_core.hpp b/DFABuilder/include/Lexer/model_core.hpp
index d276019..faa66fd 100644
--- a/DFABuilder/include/Lexer/model_core.hpp
+++ b/DFABuilder/include/Lexer/model_core.hpp
@@ -103,6 +103,9 @@ public:
     // @brief the main DFA after combine all DFAs
     DFA* main_dfa;
 
+    // @brief all rules (indexes from 1) that are accepted in a state of the main DFA
+    std::map<int, std::vector<int>> stop_rules;
+
     friend std::ostream& operator<<(std::ostream& out, const RegexModel& that) {
         out << "RegexModel" << std::endl;
         out << "input_max = " << that.input_max << std::endl;
diff --git a/DFABuilder/include/dfa.h b/DFABuilder/include/dfa.h
index 18c183c..cb5a7f4 100644
--- a/DFABuilder/include/dfa.h
+++ b/DFABuilder/include/dfa.h
@@ -20,7 +20,7 @@ typedef struct JSONQueryDFA {
     uint32_t states_num, inputs_num;
     int32_t* table; // states_num x inputs_num
     int32_t* stop_state; // states_num
-    int32_t* accept_type; // states_num : 1 is output & 2 is predicate
+    int32_t* accept_type; // states_num : one of the types below
     JSONQueryIndexPair* array_index; // states_num
     char** names; // inputs_num
 } JSONQueryDFA;
@@ -30,6 +30,8 @@ typedef struct JSONQueryDFA {
 #define DFA_OUTPUT_CANDIDATE (1)
 #define DFA_CONDITION (2)
 #define DFA_PREDICATE (3)
+// elements of a filtered array that are output candidates
+#define DFA_OUTPUT_PREDICATE (4)
 
 static inline void initJSONQueryDFA(JSONQueryDFA* dfa, uint32_t states_num, uint32_t inputs_num) {
     dfa->states_num = states_num;
@@ -136,6 +138,8 @@ static inline void printDFA(JSONQueryDFA* dfa) {
             printf("*");
         if (getDFAAcceptType(dfa, i) == DFA_PREDICATE) 
             printf("[");
+        if (getDFAAcceptType(dfa, i) == DFA_OUTPUT_PREDICATE) 
+            printf("![");
         for (int j = 1; j< inputs; ++j) {
             int next = dfaNextState(dfa, i, j);
             if (next != 0)
diff --git a/DFABuilder/include/dfa_builder.h b/DFABuilder/include/dfa_builder.h
index 4483878..a121522 100644
--- a/DFABuilder/include/dfa_builder.h
+++ b/DFABuilder/include/dfa_builder.h
@@ -18,6 +18,7 @@ typedef struct JSONQueryDFAContext {
     ASTNode** subtrees;
     JSONQueryIntVecPair* states_mapping;
     JSONQueryIntVecPair array_predicate_states;
+    int* output_states; // states_num : 1 if the state belongs to the query output
 } JSONQueryDFAContext;
 
 extern JSONQueryDFA* buildJSONQueryDFA(const char* json_path, JSONQueryDFAContext* context);
@@ -32,6 +33,10 @@ static inline ASTNode* getContextSubtree(JSONQueryDFAContext* ctx, int stop_stat
     return ctx->subtrees[stop_state];
 }
 
+static inline int isContextOutputState(JSONQueryDFAContext* ctx, int state) {
+    return ctx->output_states[state];
+}
+
 static inline int getContextSizeOfMapping(JSONQueryDFAContext* ctx, int stop_state) {
     return ctx->states_mapping[stop_state].value_size;
 }
diff --git a/DFABuilder/src/Lexer/dfa_mixer.cpp b/DFABuilder/src/Lexer/dfa_mixer.cpp
index bb94ddd..14e5f62 100644
--- a/DFABuilder/src/Lexer/dfa_mixer.cpp
+++ b/DFABuilder/src/Lexer/dfa_mixer.cpp
@@ -113,13 +113,15 @@ void DFAMixer::Combine(RegexModel* model) {
 }
 
 void DFAMixer::addStopState(RegexModel* model, const std::vector<int>& newvec, int p) {
+    bool found = false;
     for (int i = newvec.size()-1; i >= 0; --i) { // 颠倒优先级
         if (newvec[i] != 0) {
             auto r = model->at(i);
             DFA* dfa = r->dfa;
             if (dfa->isStopState(newvec[i]) != 0) {
-                main_dfa->setStopState(p, i+1);
-                return;  // 这句话必须要有，使得自动机能够具有从上到下所有rule的优先级，可以从上到下依次匹配
+                if (!found) main_dfa->setStopState(p, i+1);
+                found = true;  // 这句话必须要有，使得自动机能够具有从上到下所有rule的优先级，可以从上到下依次匹配
+                model->stop_rules[p].push_back(i+1);
             }
         }
     }
diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index 875d519..520a762 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -127,7 +127,14 @@ struct StackContext {
     bool create_dfa(bool in_predicate = false) {
         string s = getOutput();
         if (check.find(s) == check.end()) check[s] = model->size()+1;
-        else return true;
+        else {
+            // the query selects a path that is also used by a filter
+            if (!in_predicate) {
+                last_id_generated = check[s];
+                last_st_generated = true;
+            }
+            return true;
+        }
         print();
         last_st_generated = true;
         for (auto& se: st) 
@@ -288,6 +295,26 @@ struct StackContext {
 
 extern "C" {
 
+// the rule (index from 1) among all rules accepted in a state that starts a filter, 0 if there is none
+static int find_predicate(StackContext* ctx, const vector<int>& rules) {
+    for (int r : rules)
+        if (ctx->states_mapping.find(r-1) != ctx->states_mapping.end()) return r;
+    return 0;
+}
+
+// the rule (index from 1) among all rules accepted in a state that is a variable of a filter, 0 if there is none
+static int find_condition(StackContext* ctx, const vector<int>& rules) {
+    for (int r : rules)
+        if (ctx->tree_mapping[r-1] && !find_predicate(ctx, {r})) return r;
+    return 0;
+}
+
+static bool is_output(StackContext* ctx, const vector<int>& rules) {
+    for (int r : rules)
+        if (ctx->output_states.find(r) != ctx->output_states.end()) return true;
+    return false;
+}
+
 static JSONQueryDFA* create_dfa(StackContext* ctx, DFACompressed* cpd_dfa) {
     JSONQueryDFA* dfa = createJSONQueryDFA(cpd_dfa->getStateSum(), cpd_dfa->getInputSize());
     for (int i = 0; i < dfa->states_num; ++i) {
@@ -299,21 +326,17 @@ static JSONQueryDFA* create_dfa(StackContext* ctx, DFACompressed* cpd_dfa) {
         int stop_state = cpd_dfa->isStopState(i);
         dfa->stop_state[i] = stop_state;
         if (stop_state) {
-            if (ctx->output_states.find(stop_state) != ctx->output_states.end())
-                dfa->accept_type[i] = DFA_OUTPUT_CANDIDATE;
-            else {
-                dfa->accept_type[i] = DFA_CONDITION;
-                for (int j = 0; j < cpd_dfa->getStateSum(); ++j) {
-                    if (cpd_dfa->nextState(j, 2) == i) {
-                        dfa->accept_type[i] = DFA_PREDICATE;
-                        break;
-                    }
-                }
-            }
+            const auto& rules = ctx->model->stop_rules[i];
+            bool output = is_output(ctx, rules);
+            bool predicate = find_predicate(ctx, rules) != 0;
+            if (output && predicate) dfa->accept_type[i] = DFA_OUTPUT_PREDICATE;
+            else if (output) dfa->accept_type[i] = DFA_OUTPUT_CANDIDATE;
+            else if (predicate) dfa->accept_type[i] = DFA_PREDICATE;
+            else dfa->accept_type[i] = DFA_CONDITION;
             auto pair = ctx->array_range[stop_state-1];
             if (pair.first || pair.second) {
                 dfa->array_index[i] = {pair.first, pair.second};
-                if (dfa->accept_type[i] != DFA_OUTPUT_CANDIDATE) {
+                if (!output) {
                     dfa->stop_state[i] = 0;
                     dfa->accept_type[i] = 0;
                 }
@@ -333,11 +356,10 @@ static JSONQueryDFA* create_dfa(StackContext* ctx, DFACompressed* cpd_dfa) {
     return dfa;
 }
 
-static int acc_id2state(DFACompressed* cpd_dfa, int acc) {
+static int acc_id2state(StackContext* ctx, DFACompressed* cpd_dfa, int acc) {
     for (int i = 0; i < cpd_dfa->getStateSum(); ++i) {
-        if (acc == cpd_dfa->isStopState(i)) {
-            return i;
-        }
+        for (int r : ctx->model->stop_rules[i])
+            if (acc == r) return i;
     }
     return -1;
 } 
@@ -346,24 +368,30 @@ static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryD
     context->states_num = cpd_dfa->getStateSum();
     context->subtrees = (ASTNode**) calloc(cpd_dfa->getStateSum()+1, sizeof(ASTNode*));
     context->states_mapping = (JSONQueryIntVecPair*) calloc(cpd_dfa->getStateSum()+1, sizeof(JSONQueryIntVecPair));
+    context->output_states = (int*)calloc(cpd_dfa->getStateSum()+1, sizeof(int));
     context->array_predicate_states.value_size = 0;
     context->array_predicate_states.value = (int*)calloc(cpd_dfa->getStateSum(), sizeof(int));
     for (int i = 0; i < cpd_dfa->getStateSum(); ++i) {
-        int acc = getDFAStopState(m_dfa, i);
-        if (acc) {
+        if (getDFAStopState(m_dfa, i)) {
+            const auto& rules = ctx->model->stop_rules[i];
+            context->output_states[i] = is_output(ctx, rules);
+            int acc = find_predicate(ctx, rules);
+            if (!acc) {
+                acc = find_condition(ctx, rules);
+                if (acc) context->subtrees[i] = ctx->tree_mapping[acc-1];
+                continue;
+            }
             context->subtrees[i] = ctx->tree_mapping[acc-1];
             const auto& vec = ctx->states_mapping[acc-1];
             context->states_mapping[i].value_size = vec.size();
             if (!vec.empty()) {
                 context->states_mapping[i].value = (int*)calloc(vec.size(), sizeof(int));
                 for (int j = 0; j < vec.size(); ++j) {
-                    context->states_mapping[i].value[j] = acc_id2state(cpd_dfa, vec[j]+1);
+                    context->states_mapping[i].value[j] = acc_id2state(ctx, cpd_dfa, vec[j]+1);
                 }
             }
-            if (m_dfa->accept_type[i] == DFA_PREDICATE) {
-                int k = context->array_predicate_states.value_size++;
-                context->array_predicate_states.value[k] = i;
-            }
+            int k = context->array_predicate_states.value_size++;
+            context->array_predicate_states.value[k] = i;
         }
     }
 }
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 19ea560..2f23489 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -106,6 +106,7 @@ void *main_thread(void *arg)
    0 -- not match DFA_OUTPUT_CANDIDATE -- output candidate 
    DFA_CONDITION -- predicate condition
    DFA_PREDICATE -- array predicate
+   DFA_OUTPUT_PREDICATE -- array predicate whose elements are output candidates
 */
 static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
 {
@@ -200,7 +201,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread, char** pending_text)
                         if(c_node.matched_start!=INVALID)
                         {
                             int matched_type = getMatchedType(qa,&c_node);
-                            if(matched_type==DFA_OUTPUT_CANDIDATE)
+                            if(matched_type==DFA_OUTPUT_CANDIDATE||matched_type==DFA_OUTPUT_PREDICATE)
                             {  
                                 char* object_text = acquireText(thread_info, offset, num_thread, c_node.matched_start, offset[i]+us.index+1);
                                 addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
@@ -228,7 +229,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread, char** pending_text)
                             //increase array counter 
                             qs.node[qs_elt.start].count++;  
                             int matched_type = getMatchedType(qa,&c_node);
-                            if(matched_type==DFA_PREDICATE)
+                            if(matched_type==DFA_PREDICATE||matched_type==DFA_OUTPUT_PREDICATE)
                             {
                                 sum++; 
                                 addTupleInfo(&qs, node_index, c_node.query_state, "}", tuple_list);
diff --git a/JSONQuery/predicate.c b/JSONQuery/predicate.c
index 2f6e374..79a9304 100644
--- a/JSONQuery/predicate.c
+++ b/JSONQuery/predicate.c
@@ -80,7 +80,8 @@ Output* generateFinalOutput(PredicateFilter* pf)
             PredicateCondition* pc = pf->predicate_conditions[pred_state];
         
             //check whether the current state is a predicate condition
-            ASTNode* node = getContextSubtree(pf->ctx, state);
+            ASTNode* node = NULL;
+            if(pf->predicate_conditions[state]==NULL) node = getContextSubtree(pf->ctx, state);
             int index = 0;
             while(node!=NULL)
             {  
@@ -91,9 +92,11 @@ Output* generateFinalOutput(PredicateFilter* pf)
             //update value for predicate condition
             if(node!=NULL&&pc[index].name!=NULL)
             {  
+                if(pc[index].text!=NULL) free(pc[index].text);
                 pc[index].text = allocate_and_copy(text); 
             }
-            else //add candidate output into buffer
+            //add candidate output into buffer
+            if(isContextOutputState(pf->ctx, state))
             {
                 addOutputElement(buffer, text);
             }
diff --git a/JSONQuery/streaming_automaton.c b/JSONQuery/streaming_automaton.c
index ad7c7c7..3d4cc50 100644
--- a/JSONQuery/streaming_automaton.c
+++ b/JSONQuery/streaming_automaton.c
@@ -10,6 +10,7 @@ static inline void increaseArrayCounter(QueryStackElement* qs_elt)
    0 -- not match DFA_OUTPUT_CANDIDATE -- output candidate 
    DFA_CONDITION -- predicate condition
    DFA_PREDICATE -- array predicate
+   DFA_OUTPUT_PREDICATE -- array predicate whose elements are output candidates
 */
 static int getMatchedType(JSONQueryDFA* qa, QueryStackElement* qs_elt)
 {
@@ -183,11 +184,11 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                 {
                     obj_s(ss);  
                     int matched_type = getMatchedType(qa,qs_elt);
-                    if(matched_type==DFA_OUTPUT_CANDIDATE)  
+                    if(matched_type==DFA_OUTPUT_CANDIDATE||matched_type==DFA_OUTPUT_PREDICATE)  
                     { 
                         qs_elt->matched_start = lexer.next_start - lexer.begin_stream - 1; 
                     }
-                    else if(matched_type==DFA_PREDICATE)
+                    if(matched_type==DFA_PREDICATE||matched_type==DFA_OUTPUT_PREDICATE)
                     {
                         addTuple(tl, qs_elt->query_state, "{"); 
                     }
@@ -199,7 +200,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                 break;
             case RCB:   //right curly branket
                 //it is a matched output
-                if(qs_elt->matched_start!=INVALID && getMatchedType(qa, qs_elt)==DFA_OUTPUT_CANDIDATE)
+                if(qs_elt->matched_start!=INVALID && getMatchedType(qa, qs_elt)!=0)
                 {
                     int position = lexer.next_start - lexer.begin_stream;
                     char* output_text = substring(lexer.begin_stream, qs_elt->matched_start, position);
@@ -225,7 +226,8 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     {
                         elt_obj_e(ss);
                         increaseArrayCounter(qs_elt);
-                        if(getMatchedType(qa, qs_elt)==DFA_PREDICATE)
+                        int matched_type = getMatchedType(qa, qs_elt);
+                        if(matched_type==DFA_PREDICATE||matched_type==DFA_OUTPUT_PREDICATE)
                         {  
                             addTuple(tl, qs_elt->query_state, "}");
                         }
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 4591423..1cfe664 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -5,6 +5,7 @@
    0 -- not match DFA_OUTPUT_CANDIDATE -- output candidate 
    DFA_CONDITION -- predicate condition
    DFA_PREDICATE -- array predicate
+   DFA_OUTPUT_PREDICATE -- array predicate whose elements are output candidates
 */
 static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
 {
@@ -182,11 +183,11 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {
                         TreeNode c_node = qs.node[start_index];
                         int matched_type = getMatchedType(qa,&c_node); 
-                        if(matched_type==DFA_OUTPUT_CANDIDATE)  
+                        if(matched_type==DFA_OUTPUT_CANDIDATE||matched_type==DFA_OUTPUT_PREDICATE)  
                         { 
                             qs.node[start_index].matched_start = lexer.next_start - lexer.begin_stream - 1 + wa->stream_offset; 
                         }
-                        else if(matched_type==DFA_PREDICATE)
+                        if(matched_type==DFA_PREDICATE||matched_type==DFA_OUTPUT_PREDICATE)
                         {   
                             addTupleInfo(&qs, start_index, c_node.query_state, "{", tl);
                         }
@@ -210,7 +211,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             if(c_node.matched_start!=INVALID)
                             {  
                                 int matched_type = getMatchedType(qa,&c_node);
-                                if(matched_type==DFA_OUTPUT_CANDIDATE)
+                                if(matched_type==DFA_OUTPUT_CANDIDATE||matched_type==DFA_OUTPUT_PREDICATE)
                                 {  
                                     int matched_end = lexer.next_start - lexer.begin_stream;
                                     if(wa->id==0){
@@ -282,7 +283,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 //increase array counter
                                 qs.node[start_index].count++;
                                 int matched_type = getMatchedType(qa,&c_node); 
-                                if(matched_type==DFA_PREDICATE)
+                                if(matched_type==DFA_PREDICATE||matched_type==DFA_OUTPUT_PREDICATE)
                                 {
                                     addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);
                                 }
@@ -310,7 +311,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 //increase array counter
 				qs.node[start_index].count++;
                                 int matched_type = getMatchedType(qa,&c_node);
-                                if(matched_type==DFA_PREDICATE)
+                                if(matched_type==DFA_PREDICATE||matched_type==DFA_OUTPUT_PREDICATE)
                                 {
                                     addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);
                                 }
-- 
2.43.0


From 813ba13feb6bfedf389a7b64c937ea5505bbb8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:59 +0000
Subject: [PATCH 20/35] fix: dfa builder: the empty slice [0:0] selected every
 element

---
 DFABuilder/src/dfa_builder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index 520a762..516e876 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -248,6 +248,8 @@ struct StackContext {
                     else begin = INT_MIN;
                     if (p->right) end = p->right->number;
                     else end = INT_MAX;
+                    // {0, 0} stands for no restriction
+                    if (begin == 0 && end == 0) end = -1;
                     push({set_array_index, begin, end});
                     create_dfa();
                     array_range[model->size()-1] = {begin, end};
-- 
2.43.0


From 12abd2184a777ae45f7558d06968ccd88fa43427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:22 +0000
Subject: [PATCH 21/35] fix: partitioning: the list of chunks leaked with every
 parallel run and every loaded part

---
 JSONQuery/file_partition.c | 1 +
 JSONQuery/file_partition.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/JSONQuery/file_partition.c b/JSONQuery/file_partition.c
index 8908bd5..8b9237e 100644
--- a/JSONQuery/file_partition.c
+++ b/JSONQuery/file_partition.c
@@ -9,6 +9,7 @@ PartitionInfo partitionFile(char* file_name, int num_core)
 { 
     PartitionInfo pInfo;
     pInfo.num_chunk = 0;
+    pInfo.stream = NULL;
     char** stream=NULL;
     FILE *fp; 
     long file_size, chunk_size;
diff --git a/JSONQuery/file_partition.h b/JSONQuery/file_partition.h
index 7da753a..19de797 100644
--- a/JSONQuery/file_partition.h
+++ b/JSONQuery/file_partition.h
@@ -71,6 +71,7 @@ static inline void freeInputChunks(PartitionInfo pInfo)
     {
         if(stream[i]!=NULL) free(stream[i]);
     }
+    free(stream);
 }
 
 static inline void printChunk(char** stream, int num_core)
-- 
2.43.0


From 2a2558eb404dc3c9406ba378d298ce246b567f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:22 +0000
Subject: [PATCH 22/35] fix: learning constraints from a file that cannot be
 read crashed

---
 JSONQuery/path_processor.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index b92423d..af07b33 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -218,6 +218,7 @@ static inline Output* serialRun(PathProcessor* path_processor, char* file_name)
 static inline ConstraintTable* collectDataConstraints(PathProcessor* path_processor, char* file_name)
 {
     char* input_stream = loadInputStream(file_name);
+    if(input_stream == NULL) return NULL;
 
     JSONQueryDFAContext* ctx = path_processor->query_context;
     JSONQueryDFA* dfa = path_processor->query_automaton;
-- 
2.43.0


From f3a86ecb06c2be1a19c5cb9de2c7c5bb77035f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:03 +0000
Subject: [PATCH 23/35] fix: filter evaluation: x % -1 crashed when x was out
 of the range of integers

---
 JSONPathParser/jsonpath_evaluator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 338d769..1997334 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -157,6 +157,8 @@ static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSON
         case jot_mod:
             v.vtype = jvt_number;
             if ((long long int)(v2.number) == 0) v.vtype = jvt_null;
+            // the remainder of the smallest integer (any value out of range is cast to it) cannot be calculated
+            else if ((long long int)(v2.number) == -1) v.number = 0;
             else v.number = (long long int)(v1.number) % (long long int)(v2.number);
             return v;
     }
-- 
2.43.0


From f83a935af78faf14a2a08c051428a5f7ad02aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:42 +0000
Subject: [PATCH 24/35] fix: substring: restore the line endings of utility.c,
 which the repair of its offsets changed

---
 JSONQuery/utility.c | 194 ++++++++++++++++++++++----------------------
 1 file changed, 97 insertions(+), 97 deletions(-)

diff --git a/JSONQuery/utility.c b/JSONQuery/utility.c
index 3f3ba8d..2225c39 100644
--- a/JSONQuery/utility.c
+++ b/JSONQuery/utility.c
@@ -1,97 +1,97 @@
-#include <stdio.h>
-#include <string.h>
-#include <stdlib.h>
-#include "utility.h"
-
-/*************************************************
-Function: void strcopy(char* src,char* dest)
-Description: similar as strcpy
-*************************************************/
-void strcopy(char* src,char* dest)
-{
-	int length=strlen(src);
-	int i;
-	for(i=0;i<=length;i++)
-	{
-		dest[i]=src[i];
-	}
-	dest[i]='\0';
-}
-
-/**************************************************************************
-Function: char* substring(char *pText, int begin, int end);
-Description: print the substring of the original string
-Input: pText--the original string; begin--start position; end--end position;
-Return: the final string
-***************************************************************************/
-char* substring(char *pText, int begin, int end)
-{
-    int i,j;
-    char * temp=pText;
-    char* temp1=NULL; 
-    temp1=(char*)malloc((end-begin+1)*sizeof(char));
-    for (j = 0,i = begin; i < end; i++,j++)
-    {
-        temp1[j]=temp[i];
-    }
-    temp1[j]='\0';
-    return temp1;
-}
-
-/***************************************************************************************************
-Function: char* substring_in_place(char* desc, char *pText, int begin, int end);
-Description: save the substring of pText into a destination string
-Input: desc -- the destination; pText--the original string; begin--start position; end--end position;
-****************************************************************************************************/
-void substring_in_place(char* desc, char *pText, int begin, int end)
-{
-    int i,j;
-    char * temp=pText;
-    for (j = 0,i = begin; i < end; i++,j++)
-    {
-        desc[j]=temp[i];
-    }
-    desc[j]='\0'; 
-}
-
-/******************************************************************************
-Function: char* allocate_and_copy(char *pText);
-Description: allocate new memory spaces and copy the content of original string
-Input: pText--the original string; 
-Return: the new string
-******************************************************************************/
-char* allocate_and_copy(char* pText)
-{
-    char* new = (char*)malloc((strlen(pText)+2)*sizeof(char)); 
-    strcopy(pText, new);
-    return new;
-}
-
-/*************************************************
-Function: char * ltrim(char *s);
-Description: remove the left blankets of a string
-Input: s--the original string; 
-Return: the final substring
-*************************************************/
-char * ltrim(char *s)
-{
-     char *temp;
-     temp = s;
-     while((*temp == ' ')&&temp){*temp++;}
-     return temp;
-}
-
-/*************************************************
-Function: int left_null_count(char *s);
-Description: calculate the number of blanket for each string
-Input: s--the original string; 
-Return: the number of blanket for each string
-*************************************************/
-int left_null_count(char *s)  
-{
-	 int count=0;
-     char *temp;
-     temp = s;
-     while((*temp == ' ')&&temp){*temp++; count++;}
-     return count;
-}
+#include <stdio.h>
+#include <string.h>
+#include <stdlib.h>
+#include "utility.h"
+
+/*************************************************
+Function: void strcopy(char* src,char* dest)
+Description: similar as strcpy
+*************************************************/
+void strcopy(char* src,char* dest)
+{
+	int length=strlen(src);
+	int i;
+	for(i=0;i<=length;i++)
+	{
+		dest[i]=src[i];
+	}
+	dest[i]='\0';
+}
+
+/**************************************************************************
+Function: char* substring(char *pText, int begin, int end);
+Description: print the substring of the original string
+Input: pText--the original string; begin--start position; end--end position;
+Return: the final string
+***************************************************************************/
+char* substring(char *pText, int begin, int end)
+{
+    int i,j;
+    char * temp=pText;
+    char* temp1=NULL; 
+    temp1=(char*)malloc((end-begin+1)*sizeof(char));
+    for (j = 0,i = begin; i < end; i++,j++)
+    {
+        temp1[j]=temp[i];
+    }
+    temp1[j]='\0';
+    return temp1;
+}
+
+/***************************************************************************************************
+Function: char* substring_in_place(char* desc, char *pText, int begin, int end);
+Description: save the substring of pText into a destination string
+Input: desc -- the destination; pText--the original string; begin--start position; end--end position;
+****************************************************************************************************/
+void substring_in_place(char* desc, char *pText, int begin, int end)
+{
+    int i,j;
+    char * temp=pText;
+    for (j = 0,i = begin; i < end; i++,j++)
+    {
+        desc[j]=temp[i];
+    }
+    desc[j]='\0'; 
+}
+
+/******************************************************************************
+Function: char* allocate_and_copy(char *pText);
+Description: allocate new memory spaces and copy the content of original string
+Input: pText--the original string; 
+Return: the new string
+******************************************************************************/
+char* allocate_and_copy(char* pText)
+{
+    char* new = (char*)malloc((strlen(pText)+2)*sizeof(char)); 
+    strcopy(pText, new);
+    return new;
+}
+
+/*************************************************
+Function: char * ltrim(char *s);
+Description: remove the left blankets of a string
+Input: s--the original string; 
+Return: the final substring
+*************************************************/
+char * ltrim(char *s)
+{
+     char *temp;
+     temp = s;
+     while((*temp == ' ')&&temp){*temp++;}
+     return temp;
+}
+
+/*************************************************
+Function: int left_null_count(char *s);
+Description: calculate the number of blanket for each string
+Input: s--the original string; 
+Return: the number of blanket for each string
+*************************************************/
+int left_null_count(char *s)  
+{
+	 int count=0;
+     char *temp;
+     temp = s;
+     while((*temp == ' ')&&temp){*temp++; count++;}
+     return count;
+}
-- 
2.43.0


From f72ab54ee8e3d3f4911bd0e039bdaadf46f0ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:23 +0000
Subject: [PATCH 25/35] fix: regular expressions: sets with overlapping or
 several ranges corrupted memory

---
 DFABuilder/src/Lexer/charset.cpp | 48 ++++++++++----------------------
 1 file changed, 14 insertions(+), 34 deletions(-)

diff --git a/DFABuilder/src/Lexer/charset.cpp b/DFABuilder/src/Lexer/charset.cpp
index 6e0969a..792942b 100644
--- a/DFABuilder/src/Lexer/charset.cpp
+++ b/DFABuilder/src/Lexer/charset.cpp
@@ -53,42 +53,22 @@ void CharSet::insert(regex_char p, regex_char q) {
         insert(p);
         return;
     }
-    charset[p].type = 1;
-    charset[q].type = -1;
-    map<regex_char, charset_value>::iterator f, l;
-    auto i = charset.find(p);
-    if (i == charset.begin() ||
-        ((i->first - (--i)->first > 1) && (i->second.type != 1))) {
-        // remove from here, without itself
-        if (i->first == p)
-            f = ++i;
-        else
-            f = ++++i;  // - -!
-    } else {
-        if (i->second.type == 1) {
-            // remove from here, withitself
-            f = ++i;
-        } else {
-            // remove before here
-            f = i;
+    // the interval absorbs every character and interval that it covers or touches
+    auto i = charset.begin();
+    while (i != charset.end()) {
+        auto end = i;
+        if (i->second.type == 1) ++end;
+        regex_char first = i->first, last = end->first;
+        ++end;
+        if (first <= q + 1 && p <= last + 1) {
+            if (first < p) p = first;
+            if (last > q) q = last;
+            charset.erase(i, end);
         }
+        i = end;
     }
-
-    auto j = charset.find(q);
-    if ((++j) == charset.end() ||
-        (j->first - (--j)->first > 1) && ((++j)->second.type != -1)) {
-        // remove before here
-        l = charset.find(q);
-    } else {
-        if (j->second.type == -1) {
-            // remove before here with itself
-            l = j;
-        } else {
-            // remove after here
-            l = ++j;
-        }
-    }
-    if (l->first > f->first) charset.erase(l, f);
+    charset[p].type = 1;
+    charset[q].type = -1;
 }
 
 void CharSet::insert(regex_char c) {
-- 
2.43.0


From 922b08d23a8580d90e80629f6ccb08a8bdfc35b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:25 +0000
Subject: [PATCH 26/35] fix: parallel runs: deep nesting opened or closed
 inside a later chunk overflowed the stack tree and the list of units

---
 JSONQuery/multi_stack.h                 | 32 ++++++++++++++++++-------
 JSONQuery/parallel_automata_execution.h | 11 +++++----
 JSONQuery/unit.h                        |  3 +--
 JSONQuery/worker_automaton.c            |  4 ++--
 4 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index 9711294..8c04514 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -2,11 +2,13 @@
 #define __MULTI_STACK_H__
 
 #include <stdlib.h>
+#include <string.h>
 #include "dfa_builder.h"
 #include "tuple_list.h"
 #include "stack.h"
 
-#define MAX_NODE 500 //max node in query stack tree
+#define MAX_STATE 100  //maximum query states
+#define MAX_NODE (MAX_STATE*(MAX_STACK+1)) //max node in query stack tree: the states before the first level and those of every level
 #define INVALID -1  //invalid state
 
 typedef struct Range{
@@ -44,7 +46,7 @@ typedef struct QueryStacks
     int root_pointers[MAX_NODE];
     int num_root_pointers;
     //pointers for nodes that access all possible state information in different levels
-    QueryStacksElement item[MAX_STACK];
+    QueryStacksElement item[MAX_STACK+1];
     int top_item;
 }QueryStacks;
 
@@ -74,6 +76,19 @@ static inline QueryStacksElement initQueryStacks(QueryStacks* qs, int* start_sta
     return qs_elt;
 }
 
+//copy the parts of the stack tree that are in use
+static inline void copyQueryStacks(QueryStacks* dst, QueryStacks* src)
+{
+    memcpy(dst->node, src->node, src->num_node*sizeof(TreeNode));
+    dst->num_node = src->num_node;
+    memcpy(dst->parent_pointers, src->parent_pointers, src->num_parent_pointers*sizeof(int));
+    dst->num_parent_pointers = src->num_parent_pointers;
+    memcpy(dst->root_pointers, src->root_pointers, src->num_root_pointers*sizeof(int));
+    dst->num_root_pointers = src->num_root_pointers;
+    memcpy(dst->item, src->item, (src->top_item+1)*sizeof(QueryStacksElement));
+    dst->top_item = src->top_item;
+}
+
 static inline QueryStacksElement pruneQueryPaths(QueryStacks* qs, int* start_states, int num_start_states)
 {
     if(num_start_states<=0)
@@ -83,13 +98,14 @@ static inline QueryStacksElement pruneQueryPaths(QueryStacks* qs, int* start_sta
         qs_elt.end = qs->num_node - 1;
         return qs_elt;
     }
-    QueryStacks back_qs = *(qs);
+    TreeNode back_node[MAX_STATE];
+    memcpy(back_node, qs->node, qs->num_node*sizeof(TreeNode));
     qs->num_node = 0;
     int i;
     for(i = 0; i<num_start_states; i++)
     {
         int node_index = (qs->num_node++);
-        qs->node[node_index] = back_qs.node[start_states[i]]; 
+        qs->node[node_index] = back_node[start_states[i]]; 
     }
     QueryStacksElement qs_elt;
     qs_elt.start = 0;
@@ -110,11 +126,11 @@ static inline QueryStacksElement queryStacksPush(QueryStacks* qs, QueryStacksEle
       during each iteration, parent pointers and root pointers for one single node might not be placed in consecutive position,
       so we need to record them temporarily, and update stack tree after iteration
     */
-    int parent_pointer[MAX_NODE][MAX_NODE];
-    int num_parent_pointer[MAX_NODE];
+    int parent_pointer[MAX_STATE][MAX_STATE];
+    int num_parent_pointer[MAX_STATE];
 
-    int root_pointer[MAX_NODE][MAX_NODE];
-    int num_root_pointer[MAX_NODE];
+    int root_pointer[MAX_STATE][MAX_STATE];
+    int num_root_pointer[MAX_STATE];
 
     for(i = qs_elt.start; i<=qs_elt.end; i++)
     {
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 2f23489..ecca035 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -155,7 +155,8 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread, char** pending_text)
     //get some information for thread 0
     WorkerAutomaton* seq_wa = thread_info[0].worker_automaton;
     SyntaxStack ss = seq_wa->syntax_stack;
-    QueryStacks qs = seq_wa->query_stacks;   
+    QueryStacks qs;
+    copyQueryStacks(&qs, &seq_wa->query_stacks);
     QueryStacksElement qs_elt = seq_wa->query_stacks_element;
     QueryStatesInfo* qs_info = seq_wa->query_states_info;
     UnitList unit_list = seq_wa->unit_list;
@@ -309,7 +310,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread, char** pending_text)
                 if(unit.end>unit.start && streaming!=NULL)
                 {
                     seq_wa->syntax_stack = ss;
-                    seq_wa->query_stacks = qs;
+                    copyQueryStacks(&seq_wa->query_stacks, &qs);
                     seq_wa->query_stacks_element = qs_elt;
                     seq_wa->need_reprocess = REPROCESS;
                     seq_wa->stream_offset = offset[i]+start_index;
@@ -319,7 +320,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread, char** pending_text)
                     free(streaming);
                     seq_wa->stream_offset = 0;
                     ss = seq_wa->syntax_stack;
-                    qs = seq_wa->query_stacks;
+                    copyQueryStacks(&qs, &seq_wa->query_stacks);
                     qs_elt = seq_wa->query_stacks_element;   
                     if(j==ul.count_units) merge_needed = 0;
                     continue;
@@ -360,7 +361,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread, char** pending_text)
         }
     }
     seq_wa->syntax_stack = ss;
-    seq_wa->query_stacks = qs;
+    copyQueryStacks(&seq_wa->query_stacks, &qs);
     seq_wa->query_stacks_element = qs_elt;
     //save the text of unfinished output candidates, their positions count from its beginning
     int first_start = INVALID;
@@ -427,7 +428,7 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
     if(pending_stream!=NULL) free(pending_stream);
     printf("combiner: finish merging 2-tuple lists\n");
     pa->syntax_stack = ti[0].worker_automaton->syntax_stack;
-    pa->query_stacks = ti[0].worker_automaton->query_stacks;
+    copyQueryStacks(&pa->query_stacks, &ti[0].worker_automaton->query_stacks);
     pa->tuple_list = tl;
     pa->major_automaton = ti[0].worker_automaton;
     for (i = 1; i <num_cores; i++)
diff --git a/JSONQuery/unit.h b/JSONQuery/unit.h
index cf7669c..0abaf12 100644
--- a/JSONQuery/unit.h
+++ b/JSONQuery/unit.h
@@ -5,13 +5,12 @@
 #include "dfa_builder.h"
 #include "tuple_list.h"
 
-#define MAX_STATE 100  //maximum query states
 #define MAX_UNMATCHED_SYMBOL 100 //maximum unmatched symbols
 #define UNIT_UNMATCHED 1 //unit starts with unmatched symbol
 #define UNIT_MATCHED 2   //finish handling unmatched symbol
 #define PRUNED 1
 #define UNPRUNED 0
-#define MAX_UNIT 100 //maximum number of units
+#define MAX_UNIT (MAX_UNMATCHED_SYMBOL+1) //maximum number of units: one after each unmatched symbol, and the first one
 
 typedef struct UnmatchedSymbol{
     //type of unmatched symbol
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 1cfe664..29cae10 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -116,7 +116,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
     if(wa->need_reprocess==REPROCESS || (wa->id==0&&wa->initial_flag==INITIAL))
     {
         ss = wa->syntax_stack;
-        qs = wa->query_stacks;
+        copyQueryStacks(&qs, &wa->query_stacks);
         qs_elt = wa->query_stacks_element;
     }
     else if(wa->id==0)
@@ -592,7 +592,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
     //update syntax stack for worker automaton
     wa->syntax_stack = ss;
     //update query stack for worker automaton
-    wa->query_stacks = qs;
+    copyQueryStacks(&wa->query_stacks, &qs);
     wa->query_stacks_element = qs_elt;
     //printf("syntax size %d query size %d %d %d %d\n", syntaxStackSize(&ss), qs.top_item, wa->query_stacks.top_item, ul->count_units, qs.node[qs_elt.start].query_state);
     //printf("output size %d\n", getTupleListSize(tl));
-- 
2.43.0


From e2f36906ba711a8e1911d8855374a7b98b19e457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:26 +0000
Subject: [PATCH 27/35] fix: parallel runs: queries whose automaton has more
 than 100 states overflowed the tables of the workers

---
 JSONQuery/parallel_automata_execution.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index ecca035..fd2db33 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -386,6 +386,18 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
 {
     int num_cores = par_info.num_chunk;
     JSONQueryDFA* qa = pa->query_automaton;
+    //worker automata cannot start in more than MAX_STATE states, the major automaton processes one chunk after another
+    if(num_cores>1 && getDFAStatesNumber(qa)>MAX_STATE)
+    {
+        for(int i = 0; i<num_cores; i++)
+        {
+            PartitionInfo chunk = par_info;
+            chunk.stream = &par_info.stream[i];
+            chunk.num_chunk = 1;
+            executeParallelAutomata(pa, chunk, ct);
+        }
+        return;
+    }
     ThreadInfo ti[MAX_THREAD]; 
     int i;
     //unfinished output candidates continue with the first chunk
-- 
2.43.0


From 59ce726da8addb8cafe3a9e6002c83a02bd4027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:21 +0000
Subject: [PATCH 28/35] fix: filters: queries whose automaton has more than 100
 states overflowed the table of conditions

---
 JSONQuery/predicate.c | 4 ++--
 JSONQuery/predicate.h | 9 ++++-----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/JSONQuery/predicate.c b/JSONQuery/predicate.c
index 79a9304..89a2d87 100644
--- a/JSONQuery/predicate.c
+++ b/JSONQuery/predicate.c
@@ -10,10 +10,10 @@ Output* generateFinalOutput(PredicateFilter* pf)
     int end_index = getTupleListSize(tl);
     //check whether current query has any predicates
     int s;
-    for(s = 0; s < MAX_PREDICATE_STATE; s++)
+    for(s = 0; s < pf->ctx->states_num; s++)
         if(pf->predicate_conditions[s]!=NULL) break;
     //there is no predicates, simply add each text into final output
-    if(s==MAX_PREDICATE_STATE)
+    if(s==pf->ctx->states_num)
     {
        for(int i = start_index; i < end_index; i++) 
        {
diff --git a/JSONQuery/predicate.h b/JSONQuery/predicate.h
index 57d2305..7ad45ff 100644
--- a/JSONQuery/predicate.h
+++ b/JSONQuery/predicate.h
@@ -6,7 +6,6 @@
 #include "tuple_list.h"
 #include "output.h"
 
-#define MAX_PREDICATE_STATE 100
 #define MAX_STACK_ELEMENT 100
 #define FINISH 1
 #define INPROGRESS 0
@@ -27,7 +26,7 @@ typedef struct PredicateFilter{
     //context information for dfa table
     JSONQueryDFAContext* ctx;
     //condition list for each predicate state
-    PredicateCondition* predicate_conditions[MAX_PREDICATE_STATE];
+    PredicateCondition** predicate_conditions;
     PredicateStack pstack;
     //save output buffer
     Output* buffer;
@@ -69,8 +68,7 @@ static inline void initPredicateFilter(PredicateFilter* pf, TupleList* tl, JSONQ
     pf->ctx = ctx;
     int pred_size = getContextSizeOfPredicateStates(ctx);
     //initialize state mapping table
-    for(int i = 0; i<MAX_PREDICATE_STATE; i++)
-        pf->predicate_conditions[i] = NULL;
+    pf->predicate_conditions = (PredicateCondition**)calloc(ctx->states_num, sizeof(PredicateCondition*));
     for(int i = 0; i < pred_size; i++)
     {
     	int pred_state = getContextPredicateStates(ctx, i);
@@ -96,7 +94,7 @@ static inline void initPredicateFilter(PredicateFilter* pf, TupleList* tl, JSONQ
 
 static inline void destroyPredicateFilter(PredicateFilter* pf)
 {
-    for(int i = 0; i<MAX_PREDICATE_STATE; i++)
+    for(int i = 0; i<pf->ctx->states_num; i++)
     {
         if(pf->predicate_conditions[i]!=NULL)
         {    
@@ -104,6 +102,7 @@ static inline void destroyPredicateFilter(PredicateFilter* pf)
             free(pf->predicate_conditions[i]);
         }
     } 
+    free(pf->predicate_conditions);
     if(pf->buffer!=NULL) freeOutput(pf->buffer);
 }
 
-- 
2.43.0


From f7eb632c4729902ecc6ef781848a40e7b0e41bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:03 +0000
Subject: [PATCH 29/35] fix: parallel runs: the temporary tables of the stack
 tree were indexed by states beyond their size

---
 JSONQuery/multi_stack.h | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index 8c04514..f97771d 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -157,20 +157,21 @@ static inline QueryStacksElement queryStacksPush(QueryStacks* qs, QueryStacksEle
             //node exists
             if(qs->node[j].query_state == next_state)
             {
+                int next_node = j-next_qs_elt.start;
                 //add parent pointer
-                parent_pointer[next_state][num_parent_pointer[next_state]++] = i; 
+                parent_pointer[next_node][num_parent_pointer[next_node]++] = i; 
                 //add root pointer from its parent
                 Range p_root_range = qs->node[i].root_range;
                 //parent node is the root node
                 if(p_root_range.end == -1)
                 {
-                    root_pointer[next_state][num_root_pointer[next_state]++] = i;
+                    root_pointer[next_node][num_root_pointer[next_node]++] = i;
                 }
                 else //inherent the roots information from parent
                 {   
                     for(k = p_root_range.start; k<=p_root_range.end; k++)
                     {
-                        root_pointer[next_state][num_root_pointer[next_state]++] = qs->root_pointers[k];
+                        root_pointer[next_node][num_root_pointer[next_node]++] = qs->root_pointers[k];
                     }
                 }
                 break;
@@ -188,22 +189,24 @@ static inline QueryStacksElement queryStacksPush(QueryStacks* qs, QueryStacksEle
             qs->node[node_index].root_range.start = 0; 
             qs->node[node_index].root_range.end = -1;
             next_qs_elt.end = node_index;
-            num_parent_pointer[next_state] = 0;
-            num_root_pointer[next_state] = 0;
+            //the temporary tables are indexed by the positions of the new nodes, there can be more states than nodes
+            int next_node = node_index-next_qs_elt.start;
+            num_parent_pointer[next_node] = 0;
+            num_root_pointer[next_node] = 0;
             //add parent pointer
-            parent_pointer[next_state][num_parent_pointer[next_state]++] = i; 
+            parent_pointer[next_node][num_parent_pointer[next_node]++] = i; 
             //add root pointer from its parent
             Range p_root_range = qs->node[i].root_range;
             //parent node is the root node
             if(p_root_range.end == -1)
             {
-                root_pointer[next_state][num_root_pointer[next_state]++] = i;
+                root_pointer[next_node][num_root_pointer[next_node]++] = i;
             }
             else //inherent the roots information from parent
             {
                 for(k = p_root_range.start; k<=p_root_range.end; k++)
                 {
-                    root_pointer[next_state][num_root_pointer[next_state]++] = qs->root_pointers[k];
+                    root_pointer[next_node][num_root_pointer[next_node]++] = qs->root_pointers[k];
                 }
             }
         } 
@@ -211,21 +214,21 @@ static inline QueryStacksElement queryStacksPush(QueryStacks* qs, QueryStacksEle
     //update parent and root pointers for each new node
     for(i = next_qs_elt.start; i<=next_qs_elt.end; i++)
     {
-        int query_state = qs->node[i].query_state;
+        int new_node = i-next_qs_elt.start;
         qs->node[i].parent_range.start = qs->num_parent_pointers;
         qs->node[i].parent_range.end = qs->num_parent_pointers-1;
-        for(j = 0; j<num_parent_pointer[query_state]; j++)
+        for(j = 0; j<num_parent_pointer[new_node]; j++)
         { 
             int parent_index = (qs->num_parent_pointers++);
-            qs->parent_pointers[parent_index] = parent_pointer[query_state][j];  
+            qs->parent_pointers[parent_index] = parent_pointer[new_node][j];  
             qs->node[i].parent_range.end = parent_index;
         }
         qs->node[i].root_range.start = qs->num_root_pointers;
         qs->node[i].root_range.end = qs->num_root_pointers-1;
-        for(j = 0; j<num_root_pointer[query_state]; j++)
+        for(j = 0; j<num_root_pointer[new_node]; j++)
         { 
             int root_index = (qs->num_root_pointers++); 
-            qs->root_pointers[root_index] = root_pointer[query_state][j];
+            qs->root_pointers[root_index] = root_pointer[new_node][j];
             qs->node[i].root_range.end = root_index;
         }
     }
-- 
2.43.0


From 1f0ff83fff32d908b756ef9831c2c12a2b8eae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:36 +0000
Subject: [PATCH 30/35] fix: learned constraints: more than 100 states of one
 name overflowed its table

---
 JSONQuery/constraint.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/JSONQuery/constraint.h b/JSONQuery/constraint.h
index 629cac1..3023416 100644
--- a/JSONQuery/constraint.h
+++ b/JSONQuery/constraint.h
@@ -124,7 +124,8 @@ static inline void addConstraintInfo(ConstraintTable* ct, int state, int type, c
                 break;
             state_index++;
         } 
-        if(state_index==state_last) //add state information
+        //add state information, workers do not start in any state of an automaton with more than MAX_STATES states
+        if(state_index==state_last && state_last<MAX_STATES)
         {
             int state_index = (ct->constraint_info[index].num_state++);
             ct->constraint_info[index].state_set[state_index] = state;
-- 
2.43.0


From 515d34fb0207869a1a03885d6a6fe18a723e8fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:22 +0000
Subject: [PATCH 31/35] fix: parallel runs: more than 100 cores overflowed the
 table of threads

---
 JSONQuery/parallel_automata_execution.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index fd2db33..d9184e1 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -386,15 +386,16 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
 {
     int num_cores = par_info.num_chunk;
     JSONQueryDFA* qa = pa->query_automaton;
-    //worker automata cannot start in more than MAX_STATE states, the major automaton processes one chunk after another
-    if(num_cores>1 && getDFAStatesNumber(qa)>MAX_STATE)
+    //at most MAX_THREAD chunks are processed at the same time, and only one if there are more states than a worker can start in
+    int max_cores = (getDFAStatesNumber(qa)>MAX_STATE)? 1 : MAX_THREAD;
+    if(num_cores>max_cores)
     {
-        for(int i = 0; i<num_cores; i++)
+        for(int i = 0; i<num_cores; i += max_cores)
         {
-            PartitionInfo chunk = par_info;
-            chunk.stream = &par_info.stream[i];
-            chunk.num_chunk = 1;
-            executeParallelAutomata(pa, chunk, ct);
+            PartitionInfo chunks;
+            chunks.stream = &par_info.stream[i];
+            chunks.num_chunk = (num_cores-i<max_cores)? num_cores-i : max_cores;
+            executeParallelAutomata(pa, chunks, ct);
         }
         return;
     }
-- 
2.43.0


From ec0935dd4f85d10ab1778c73d584167cbb02a781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:16 +0000
Subject: [PATCH 32/35] fix: filters: a streaming context that did not run can
 be released again

---
 JSONQuery/predicate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/JSONQuery/predicate.h b/JSONQuery/predicate.h
index 7ad45ff..2cd1304 100644
--- a/JSONQuery/predicate.h
+++ b/JSONQuery/predicate.h
@@ -94,7 +94,8 @@ static inline void initPredicateFilter(PredicateFilter* pf, TupleList* tl, JSONQ
 
 static inline void destroyPredicateFilter(PredicateFilter* pf)
 {
-    for(int i = 0; i<pf->ctx->states_num; i++)
+    //the filter of a streaming context that did not run has no table
+    for(int i = 0; pf->predicate_conditions!=NULL && i<pf->ctx->states_num; i++)
     {
         if(pf->predicate_conditions[i]!=NULL)
         {    
-- 
2.43.0


From 72a286da2a9a8d40adda2f328ffd11c4a25aa8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:19 +0000
Subject: [PATCH 33/35] fix: parallel runs: looking ahead reallocated the
 content buffer that the lexer kept using

---
 JSONQuery/worker_automaton.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 29cae10..703a3fc 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -249,8 +249,12 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {
                         if(syntaxStackSize(&shadow_ss)==0)
                         {   
+                            //looking ahead must not replace the content buffer
                             Lexer temp_lexer = lexer;
+                            temp_lexer.content = NULL;
+                            temp_lexer.content_size = 0;
                             syntaxStackInference(&temp_lexer, token_type, &shadow_ss, &ss);
+                            destroyLexer(&temp_lexer);
                         }
                         if(syntaxStackSize(&shadow_ss)==0)
                             obj_e(&ss);
@@ -390,8 +394,12 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {   
                         if(syntaxStackSize(&shadow_ss)==0)  
                         {
+                            //looking ahead must not replace the content buffer
                             Lexer temp_lexer = lexer;
+                            temp_lexer.content = NULL;
+                            temp_lexer.content_size = 0;
                             syntaxStackInference(&temp_lexer, token_type, &shadow_ss, &ss);
+                            destroyLexer(&temp_lexer);
                         }
                         if(syntaxStackSize(&shadow_ss)==0)  
                             ary_e(&qs_elt, &ss, &qs); 
-- 
2.43.0


From 81f2c7e4607e197ea37b0e4f5452bfd62236842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:50 +0000
Subject: [PATCH 34/35] fix: set converter: a wildcard did not match the names
 of a query beyond the 253rd

---
 DFABuilder/include/Lexer/set_converter.hpp | 4 +++-
 DFABuilder/src/Lexer/set_converter.cpp     | 8 +++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/DFABuilder/include/Lexer/set_converter.hpp b/DFABuilder/include/Lexer/set_converter.hpp
index d7aa673..febfe07 100644
--- a/DFABuilder/include/Lexer/set_converter.hpp
+++ b/DFABuilder/include/Lexer/set_converter.hpp
@@ -7,7 +7,7 @@
 namespace dragontooth {
 
 /**
- * @brief Simple Set Converter, without EquivalenceClass Converter, so the max charset support 256
+ * @brief Simple Set Converter, without EquivalenceClass Converter, so a set text can name 256 symbols
  */ 
 class SetConverter : public Pass {
 public:
@@ -22,6 +22,8 @@ public:
     virtual IPassable* Execute(IPassable* data, IPassable* join_data);
 
 protected:
+    regex_char input_max = 256;
+
     // for each node in this tree, if it's a set, then run convert
     void traverses_model(RegexItem* root);
 
diff --git a/DFABuilder/src/Lexer/set_converter.cpp b/DFABuilder/src/Lexer/set_converter.cpp
index f3f18f1..e98eb63 100644
--- a/DFABuilder/src/Lexer/set_converter.cpp
+++ b/DFABuilder/src/Lexer/set_converter.cpp
@@ -6,10 +6,10 @@
 namespace dragontooth {
 
 void SetConverter::Convert(RegexSet* itemset) {
-    std::vector<bool> cvs; cvs.resize(256);
+    std::vector<bool> cvs; cvs.resize(input_max);
     CharSet cset(itemset->getData());
     if (cset.negate) {
-        for (regex_char i = 0; i < 256; ++i) cvs[i] = true;
+        for (regex_char i = 0; i < input_max; ++i) cvs[i] = true;
     }
     auto charset = cset.charset;
     regex_char t;
@@ -24,7 +24,7 @@ void SetConverter::Convert(RegexSet* itemset) {
         }
     }
     std::set<regex_char> finalset;
-    for (regex_char i = 0; i < 256; ++i) {
+    for (regex_char i = 0; i < input_max; ++i) {
         if (cvs[i]) finalset.insert(i);
     }
     itemset->setCharset(finalset);
@@ -32,6 +32,8 @@ void SetConverter::Convert(RegexSet* itemset) {
 
 IPassable* SetConverter::Execute(IPassable* data, IPassable* join_data) {
     RegexModel* model = dynamic_cast<RegexModel*>(data);
+    // a model can have more symbols than a set text can name
+    input_max = (model->input_max > 256) ? model->input_max : 256;
     for (int i = 0; i < model->size(); ++i) {
         auto p = model->at(i);
         traverses_model(p->root);
-- 
2.43.0


From ded7f790b72e961811093bd465a9a4f6df01a49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:50 +0000
Subject: [PATCH 35/35] fix: lexer runtime: symbols above 127 were taken as
 negative

---
 DFABuilder/interface/dragontooth.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DFABuilder/interface/dragontooth.h b/DFABuilder/interface/dragontooth.h
index bf94b98..8de03d9 100644
--- a/DFABuilder/interface/dragontooth.h
+++ b/DFABuilder/interface/dragontooth.h
@@ -396,7 +396,7 @@ static inline void dtl_SetActionCallback(DTLexerState* ls,
 }
 
 static inline uint32_t dtl_nextStateImpl(DTLexerState* ls, uint32_t s,
-                                         char ch) {
+                                         uint32_t ch) {
     int32_t k;
     if (s == 0 || ch == 0) return 0;
     k = ls->m_base[s] + (int32_t)ch;
@@ -407,7 +407,7 @@ static inline uint32_t dtl_nextStateImpl(DTLexerState* ls, uint32_t s,
     }
 }
 
-static inline uint32_t dtl_nextState(DTLexerState* ls, uint32_t s, char ch) {
+static inline uint32_t dtl_nextState(DTLexerState* ls, uint32_t s, uint32_t ch) {
     int32_t k;
     if (s == 0 || ch == 0) return 0;
     k = ls->m_base[s] + (int32_t)ch;
-- 
2.43.0

