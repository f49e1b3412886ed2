From 7a2ce0f60cf24501438e84fd5ebe914571789db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 01/27] fix: initialise the streaming context, serialRun
 destroyed an uninitialised ParallelAutomata

---
 JSONQuery/path_processor.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 4da0a57..226450f 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -180,6 +180,8 @@ typedef struct StreamingContext{
 
 static inline void initStreamingContext(StreamingContext* ci)
 {
+    //only one of sa and pa gets used by a run, the other one has to be safe to destroy
+    memset(ci, 0, sizeof(StreamingContext));
     ci->context_flag = NOCONTEXT;
     ci->finish_flag = INPROGRESS;
 }
-- 
2.43.0


From 9fb0d6bb01f6e39c9fd4676e269cb2f6ca733f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 02/27] fix: carry a live tuple list between input chunks and
 initialise finish_flag

---
 JSONQuery/parallel_automata_execution.h | 1 +
 JSONQuery/path_processor.h              | 2 +-
 JSONQuery/streaming_automaton.h         | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 0419465..a0e7ae2 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -46,6 +46,7 @@ static inline void initParallelAutomata(ParallelAutomata* pa, JSONQueryDFA* qa)
     pa->query_automaton = qa;
     pa->tuple_list = NULL;
     pa->major_automaton = NULL;
+    pa->finish_flag = INPROGRESS;
 }
 
 static inline void destroyParallelAutomata(ParallelAutomata* pa)
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 226450f..e9dad17 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -209,7 +209,6 @@ static inline Output* serialPartialRun(PathProcessor* path_processor, char* inpu
 
     //run streaming automaton
     executeAutomaton(&streaming_automaton, input_stream, CLOSE);
-    ci->sa = streaming_automaton;
 
     //predicate filtering
     PredicateFilter pf;
@@ -220,6 +219,7 @@ static inline Output* serialPartialRun(PathProcessor* path_processor, char* inpu
 
     //free up dynamic memories
     destroyStreamingAutomaton(&streaming_automaton);
+    ci->sa = streaming_automaton;
 
     //set context flag
     ci->context_flag = CONTEXT;
diff --git a/JSONQuery/streaming_automaton.h b/JSONQuery/streaming_automaton.h
index 58eac63..12613e6 100644
--- a/JSONQuery/streaming_automaton.h
+++ b/JSONQuery/streaming_automaton.h
@@ -44,6 +44,7 @@ static inline void initStreamingAutomaton(StreamingAutomaton* sa, JSONQueryDFA*
     //by default don't generate any data constraints
     sa->constraint_flag = CLOSE;
     sa->constraint_table = NULL;
+    sa->finish_flag = INPROGRESS;
 }
 
 static inline void destroyStreamingAutomaton(StreamingAutomaton* sa)
-- 
2.43.0


From 42790d9a8d1aa317d5546207b4e342d197934b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 03/27] fix: a primitive right after ':' swallowed the bracket
 that ends it

---
 JSONQuery/lexing.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index ee95f2e..47db4a8 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -172,13 +172,10 @@ Token nextToken(Lexer* lexer)
                     case ' ':
                     case '\t':
                    	{
-                        int tempcount = p-start;
+                        //start might still point to the ':' in front of the primitive
+                        int tempcount = p-token_pointer;
                         templen = tempcount; 
-                        if(p[0]=='"')
-                            substring_in_place(sub1, start, 1 ,tempcount); 
-                        else if(token_pointer[tempcount-1]==',') 
-                            substring_in_place(sub1, token_pointer, 0, tempcount-1);
-                        else substring_in_place(sub1, token_pointer, 0, tempcount);
+                        substring_in_place(sub1, token_pointer, 0, tempcount);
                         strcopy(sub1,lexer->content);
                         token_len = p - start + 1;
                         token_pointer = start + token_len;
-- 
2.43.0


From feeb1f2e3f4624733b0cdc3102cc26f879d42013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 04/27] fix: end primitives at line breaks and keep the sign of
 negative numbers

---
 JSONQuery/lexing.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index 47db4a8..7d82cb3 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -86,7 +86,7 @@ Token nextToken(Lexer* lexer)
                         state = 0;
                         break;
                     default: //it might be a single primitive
-                        if((*p>='0'&&*p<='9')||(*p>='a'&&*p<='z')||(*p>='A'&&*p<='Z')) state=2;
+                        if(*p=='-'||(*p>='0'&&*p<='9')||(*p>='a'&&*p<='z')||(*p>='A'&&*p<='Z')) state=2;
                         else
                         {
                             token_len = p - start + 1;
@@ -171,6 +171,8 @@ Token nextToken(Lexer* lexer)
                     case ',':
                     case ' ':
                     case '\t':
+                    case '\n':
+                    case '\r':
                    	{
                         //start might still point to the ':' in front of the primitive
                         int tempcount = p-token_pointer;
-- 
2.43.0


From 9eed869ca31a459410356b98b3b9fb28f99140a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 05/27] fix: substring positions count from the start of the
 text, also when it starts with blanks

---
 JSONQuery/utility.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/JSONQuery/utility.c b/JSONQuery/utility.c
index 2bf6487..2225c39 100644
--- a/JSONQuery/utility.c
+++ b/JSONQuery/utility.c
@@ -28,7 +28,6 @@ char* substring(char *pText, int begin, int end)
 {
     int i,j;
     char * temp=pText;
-    temp = ltrim(pText);
     char* temp1=NULL; 
     temp1=(char*)malloc((end-begin+1)*sizeof(char));
     for (j = 0,i = begin; i < end; i++,j++)
@@ -48,7 +47,6 @@ void substring_in_place(char* desc, char *pText, int begin, int end)
 {
     int i,j;
     char * temp=pText;
-    temp = ltrim(pText);
     for (j = 0,i = begin; i < end; i++,j++)
     {
         desc[j]=temp[i];
-- 
2.43.0


From 1258451ec9f114bf68bd54d52a3ca0ae489703e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:39 +0000
Subject: [PATCH 06/27] fix: accept a line break between a key and its colon

---
 JSONQuery/lexing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index 7d82cb3..a162494 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -120,7 +120,7 @@ Token nextToken(Lexer* lexer)
                         token_pointer = start + token_len;
                         start = token_pointer;
 
-                        while(*(p+1)==' '||*(p+1)=='\t') //ignore space
+                        while(*(p+1)==' '||*(p+1)=='\t'||*(p+1)=='\n'||*(p+1)=='\r') //ignore space
                         {
                             p++;
                             token_len = p - start + 1;
-- 
2.43.0


From fa90ba2071cf45d57a9bab5457b51f2e10a59ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:39 +0000
Subject: [PATCH 07/27] fix: evaluatorModifyReference used a node after freeing
 it

---
 JSONPathParser/jsonpath_evaluator.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 3d6be6e..a0a7be7 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -290,12 +290,13 @@ static inline ASTNode* evaluatorModifyReference(ASTNode* node) {
             strcpy(name, node->left->string);
             strcat(name, ".");
             strcat(name, node->right->string);
-            free(node->left->string);
+            ASTNode* variable = node->left;
+            free(variable->string);
             free(node->right->string);
             free(node->right);
             free(node);
-            node->left->string = name;
-            return node->left;
+            variable->string = name;
+            return variable;
         }
     }
     return NULL;
-- 
2.43.0


From bda80fe45c21ef115b71fba89e8f38c3c7698535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:39 +0000
Subject: [PATCH 08/27] fix: [index] steps were dropped from the query

---
 DFABuilder/src/dfa_builder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index ffa8f92..23b021f 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -246,6 +246,14 @@ struct StackContext {
                     array_range[model->size()-1] = {begin, end};
                     break;
                 }
+                // [index]
+                case jnt_number: {
+                    int index = p->number;
+                    push({set_array_index, index, index+1});
+                    create_dfa();
+                    array_range[model->size()-1] = {index, index+1};
+                    break;
+                }
                 // [*]
                 case jnt_wildcard: {
                     push({set_array_all});
-- 
2.43.0


From f81dfdf384cf0943d57e457404bfe249ea3538c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 09/27] fix: ordering and arithmetic read the wrong union
 member for operands that are not numbers

---
 JSONPathParser/jsonpath_evaluator.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index a0a7be7..75b41ce 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -88,6 +88,13 @@ static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSON
         v1 = computeTypeCast(v1);
         v2 = computeTypeCast(v2);
     }
+    // ordering and arithmetic are only defined on numbers
+    if (opt >= jot_less && opt <= jot_mod && opt != jot_neq &&
+        (v1.vtype != jvt_number || v2.vtype != jvt_number)) {
+        v.vtype = (opt <= jot_geq) ? jvt_boolean : jvt_null;
+        v.boolean = false;
+        return v;
+    }
     // calculate 
     switch (opt) {
         case jot_or:
-- 
2.43.0


From ffb578aed4700365f4a131ed6a9abeddfc7151ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 10/27] fix: '%' by zero in a predicate ended the process

---
 JSONPathParser/jsonpath_evaluator.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 75b41ce..34ff3aa 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -157,6 +157,10 @@ static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSON
             return v;
         case jot_mod:
             v.vtype = jvt_number;
+            if ((long long int)(v2.number) == 0) {
+                v.vtype = jvt_null;
+                return v;
+            }
             v.number = (long long int)(v1.number) % (long long int)(v2.number);
             return v;
     }
-- 
2.43.0


From 0d65d8fbcb247d71f973091346ca3e84e74a9110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 11/27] fix: negative numbers in the data evaluated to null in
 predicates

---
 JSONPathParser/jsonpath_evaluator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 34ff3aa..655c959 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -194,7 +194,7 @@ static inline JSONPathValue stringToValue(const char* str) {
         v.vtype = jvt_string; v.string = s;
         return v;
     }
-    if (isdigit(str[0])) {
+    if (isdigit(str[0]) || str[0] == '-') {
         v.vtype = jvt_number; v.number = atof(str);
         return v;
     }
-- 
2.43.0


From 80cda56aa55071c88bc9fbda8891472d3ee452ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 12/27] fix: constraint lookup compared keys with the
 uninitialised name of array entries

---
 JSONQuery/constraint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/JSONQuery/constraint.h b/JSONQuery/constraint.h
index 6681e9e..5181076 100644
--- a/JSONQuery/constraint.h
+++ b/JSONQuery/constraint.h
@@ -44,7 +44,7 @@ static inline void updateStateInfo(ConstraintTable* ct, ConstraintInfo* ci)
         char* constraint_key_name = ci->token_name;
         while(i<last)
         {
-            if(strcmp(constraint_key_name, ct->constraint_info[i].token_name)==0)
+            if(ct->constraint_info[i].type==KY && strcmp(constraint_key_name, ct->constraint_info[i].token_name)==0)
             {
                 ci->num_state = ct->constraint_info[i].num_state;
                 int j = 0;
@@ -90,7 +90,7 @@ static inline void addConstraintInfo(ConstraintTable* ct, int state, int type, c
         int i = 0;
         while(i<last)
         {
-            if(strcmp(name, ct->constraint_info[i].token_name)==0)
+            if(ct->constraint_info[i].type==KY && strcmp(name, ct->constraint_info[i].token_name)==0)
             {
                 index = i;
                 break;
-- 
2.43.0


From 78d02bb248a1481e160242a589272cdae2373ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 13/27] fix: a new unit started with an uninitialised state

---
 JSONQuery/unit.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/JSONQuery/unit.h b/JSONQuery/unit.h
index d54d9e7..ed820af 100644
--- a/JSONQuery/unit.h
+++ b/JSONQuery/unit.h
@@ -52,6 +52,7 @@ static inline void initUnit(Unit* unit)
     unit->count_start_states = -1;
     unit->count_unmatched_symbols = -1;
     unit->num_root = -1;
+    unit->unit_state = 0;
     unit->has_pruned = UNPRUNED;
     unit->start = NULL;
     unit->end = NULL;
-- 
2.43.0


From 8429b86c1b340305b8327f4c2ede4a55cbb87c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 14/27] fix: popping the empty query stack left matched_start
 uninitialised

---
 JSONQuery/stack.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/JSONQuery/stack.h b/JSONQuery/stack.h
index 4d8b0be..dc6b842 100644
--- a/JSONQuery/stack.h
+++ b/JSONQuery/stack.h
@@ -79,6 +79,7 @@ static inline QueryStackElement queryStackPop(QueryStack* qs)
         QueryStackElement exception;
         exception.query_state = INVALID;
         exception.count = 0;
+        exception.matched_start = INVALID;
         top_state = exception;
     }
     return top_state;
-- 
2.43.0


From 45495b6635cbe850f1afd545804344a010216ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 15/27] fix: '&&' binds tighter than '||' and '%' as tight as
 '*'

---
 JSONPathParser/parser_j.y | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/JSONPathParser/parser_j.y b/JSONPathParser/parser_j.y
index ef61cca..2b4a00e 100644
--- a/JSONPathParser/parser_j.y
+++ b/JSONPathParser/parser_j.y
@@ -39,10 +39,11 @@ void jerror (JLTYPE * yylloc, yyscan_t locp, ASTNode **root, const char *msg);
 %type <node> AllPath LocationPath Number Property IndexList Predicate Expr  
 %start AllPath
 
-%left OR AND
+%left OR
+%left AND
 %left NEQ LEQ GEQ EQ '<' '>'
 %left '+' '-'
-%left '*' '/' 
+%left '*' '/' '%'
 %right '!'
 %left '('
 
-- 
2.43.0


From 8b003e378a4e479a766725f52e3896b5394108ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 16/27] fix: partitionInputStream read past the end of a stream
 without further boundary and counted a missing chunk

---
 JSONQuery/path_processor.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index e9dad17..d3238f5 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -105,12 +105,13 @@ PartitionInfo partitionInputStream(char* input_stream, int num_core)
     char ch = -1; 
     for(i = 0; i<num_core-1; i++)
     {   
-        stream[i] = (char*)malloc((chunk_size+MAX_EXTENSION)*sizeof(char)); 
+        //the chunk might have to be extended up to the end of the stream
+        stream[i] = (char*)malloc((stream_size-sum_size+MAX_EXTENSION)*sizeof(char)); 
         substring_in_place(stream[i], input_stream, sum_size, sum_size+chunk_size);
         sum_size += chunk_size; 
         int add = 0;
         //look for the next complete token
-        while(sum_size<=stream_size)
+        while(sum_size+add<stream_size)
         {    
             ch = input_stream[sum_size+add];
             if(ch=='"')
@@ -142,7 +143,6 @@ PartitionInfo partitionInputStream(char* input_stream, int num_core)
         stream[i] = substring(input_stream, sum_size, stream_size);
         pInfo.num_chunk = i+1;
     }
-    pInfo.num_chunk = i+1;
     pInfo.stream = stream;
     printf("stream partitioner: finish splitting the input stream\n");
     return pInfo;
-- 
2.43.0


From 50e8b88264ae218159973e50b4b58b3f03573330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 17/27] fix: loadBoundedInputStream overflowed its buffer when
 the next boundary is far away

---
 JSONQuery/path_processor.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index d3238f5..e12d8a2 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -53,7 +53,11 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
     size = size - loaded_size;
     if(size > MEMORY_FOOTPRINT)
         size = MEMORY_FOOTPRINT;
-    if(size<=0) return NULL;    
+    if(size<=0)
+    {
+        fclose(fp);
+        return NULL;
+    }
     fseek(fp, loaded_size, SEEK_CUR);
     char* stream =(char*)malloc((size+MAX_EXTENSION)*sizeof(char));
     fread(stream,1,size,fp);
@@ -79,6 +83,9 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
         }
         stream[size+add] = ch; 
         add = add+1;
+        //keep room for the next character and the ending '\0'
+        if(add%MAX_EXTENSION==MAX_EXTENSION-2)
+            stream = (char*)realloc(stream, (size+add+MAX_EXTENSION+2)*sizeof(char));
         ch = fgetc(fp);
     }
     stream[size+add]='\0';
-- 
2.43.0


From bf5953f0eb36e20802b047d5e4ff9e175bf948e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 18/27] fix: partitionFile overflowed its chunks and counted a
 missing chunk

---
 JSONQuery/file_partition.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/JSONQuery/file_partition.c b/JSONQuery/file_partition.c
index cf8b6fb..df26b43 100644
--- a/JSONQuery/file_partition.c
+++ b/JSONQuery/file_partition.c
@@ -29,7 +29,8 @@ PartitionInfo partitionFile(char* file_name, int num_core)
     char ch = -1; 
     for(i = 0; i<num_core-1; i++)
     {
-        stream[i] = (char*)malloc((chunk_size+MAX_EXTENSION)*sizeof(char));
+        //the chunk might have to be extended up to the end of the file
+        stream[i] = (char*)malloc((file_size-sum_size+MAX_EXTENSION)*sizeof(char));
         if(ch!=-1)
         {
             stream[i][0]=ch;
@@ -72,7 +73,7 @@ PartitionInfo partitionFile(char* file_name, int num_core)
     long remain_size = file_size-sum_size;
     if(remain_size>0)
     {
-        stream[i] = (char*)malloc((remain_size)*sizeof(char));
+        stream[i] = (char*)malloc((remain_size+1)*sizeof(char));
         if(ch!=-1)
         {
             stream[i][0]=ch;
@@ -89,7 +90,6 @@ PartitionInfo partitionFile(char* file_name, int num_core)
         }
         pInfo.num_chunk = i+1;
     }
-    pInfo.num_chunk = i+1;
     pInfo.stream = stream;
     printf("file partitioner: finish splitting the input stream\n");
     return pInfo;
-- 
2.43.0


From a4e3150525ec3f7b3ae570bfc26c47fc31d9081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:41 +0000
Subject: [PATCH 19/27] fix: the lookahead of worker automata overwrote the
 primitive being processed

---
 JSONQuery/worker_automaton.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 9a6cfbb..a120e3d 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -47,6 +47,9 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
 //syntax stack feasibility inference
 static inline void syntaxStackInference(Lexer* lexer, int input_token_type, SyntaxStack* shadow_ss, SyntaxStack* ss)
 {
+    //looking ahead must not overwrite the content of the current token
+    char content[MAX_SIZE_PRIMITIVE];
+    lexer->content = content;
     Token first_token = nextToken(lexer);
     Token second_token = nextToken(lexer);
     if(input_token_type==RCB)
-- 
2.43.0


From 25c379f861cb32c7d8b9e746515e4e73fe133983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:14 +0000
Subject: [PATCH 20/27] fix: a byte 0xFF was taken for the end of the file when
 looking for a boundary

---
 JSONQuery/file_partition.c | 2 +-
 JSONQuery/path_processor.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/JSONQuery/file_partition.c b/JSONQuery/file_partition.c
index df26b43..9fb42fb 100644
--- a/JSONQuery/file_partition.c
+++ b/JSONQuery/file_partition.c
@@ -26,7 +26,7 @@ PartitionInfo partitionFile(char* file_name, int num_core)
     for(i = 0; i<num_core; i++)
         stream[i] = NULL;
     long sum_size = 0;   //the number of bytes that have been processed
-    char ch = -1; 
+    int ch = -1; 
     for(i = 0; i<num_core-1; i++)
     {
         //the chunk might have to be extended up to the end of the file
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index e12d8a2..5430ada 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -63,7 +63,7 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
     fread(stream,1,size,fp);
     int add = 0;
     //look for the next complete token
-    char ch = fgetc(fp);
+    int ch = fgetc(fp);
     while(1)
     {    
         if(ch==EOF) break;
-- 
2.43.0


From 7a016e5f6c510b837c21e04bd30f045eb4b8127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:46 +0000
Subject: [PATCH 21/27] fix: the scan for the last token of a chunk ran before
 a chunk of blanks

---
 JSONQuery/file_partition.c | 2 +-
 JSONQuery/path_processor.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/JSONQuery/file_partition.c b/JSONQuery/file_partition.c
index 9fb42fb..9e44eb9 100644
--- a/JSONQuery/file_partition.c
+++ b/JSONQuery/file_partition.c
@@ -51,7 +51,7 @@ PartitionInfo partitionFile(char* file_name, int num_core)
             {
                 char prev = stream[i][chunk_size+add-1];
                 int t = 1;
-                while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
+                while(t<=chunk_size+add&&(prev==' '||prev=='\t'||prev=='\n'||prev==13))
                 {
                     prev = stream[i][chunk_size+add-t]; 
                     t++;
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 5430ada..8738d8c 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -71,7 +71,7 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
         {
             char prev = stream[size+add-1];
             int t = 1;
-            while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
+            while(t<=size+add&&(prev==' '||prev=='\t'||prev=='\n'||prev==13))
             {
                 prev = stream[size+add-t]; 
                 t++;
@@ -125,7 +125,7 @@ PartitionInfo partitionInputStream(char* input_stream, int num_core)
             {
                 char prev = stream[i][chunk_size+add-1];
                 int t = 1;
-                while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
+                while(t<=chunk_size+add&&(prev==' '||prev=='\t'||prev=='\n'||prev==13))
                 {
                     prev = stream[i][chunk_size+add-t]; 
                     t++;
-- 
2.43.0


From 6e9e0fd14a9fab535c6d1630ae6a80400909bde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:17 +0000
Subject: [PATCH 22/27] fix: an array that spans two chunks was recorded for
 the wrong node, one byte past its buffer

---
 JSONQuery/parallel_automata_execution.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index a0e7ae2..c83d056 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -221,7 +221,8 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     if(syntaxStackSize(&ss) > 0)
                     {
                         QueryStacksElement top_qs_elt = queryStacksTop(&qs);
-                        c_node = qs.node[top_qs_elt.start]; 
+                        node_index = top_qs_elt.start;
+                        c_node = qs.node[node_index]; 
                         if(c_node.matched_start!=INVALID)
                         {
                             
@@ -229,7 +230,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {  
                                 int left_len = strlen(thread_info[i-1].input_stream)-c_node.matched_start;
-                                int right_len = us.index;
+                                int right_len = us.index+1;
                                 int strlen = left_len+right_len;
                                 char* object_text = (char*)malloc((strlen+1)*sizeof(char));
                                 substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
-- 
2.43.0


From ea1bebe5e31257ffe86986ba4f3f24cef2bd385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:35 +0000
Subject: [PATCH 23/27] fix: a match pending at the start state was lost when
 the stacks of a chunk were merged

---
 JSONQuery/multi_stack.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index 3155edc..27d831e 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -422,6 +422,9 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
         } 
         if(root_index!=-1)
         { 
+            //a match that starts at the root level is still pending
+            if(src_qs->node[root_index].matched_start != INVALID)
+                dst_qs->node[dst_qs_elt->start].matched_start = src_qs->node[root_index].matched_start;
             //use root information to find the correct paths in src_qs
             for(i = 1; i<=top_src; i++)
             {
-- 
2.43.0


From 432fb419acb0be80bd754d5bca8596173f8ea9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:34 +0000
Subject: [PATCH 24/27] fix: a unit that starts with a primitive had no start
 position when it was reprocessed

---
 JSONQuery/worker_automaton.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index a120e3d..4b29436 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -164,6 +164,8 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
     //initialize lexer
     Lexer lexer;
     initLexer(&lexer, json_stream);
+    //end of the previous token
+    char* token_start = lexer.next_start;
     Token token = nextToken(&lexer);
     int token_type = token.token_type;
 
@@ -564,7 +566,10 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     else if(syntaxStackTop(&shadow_ss)==LB)  
                     {
                         if(unit.unit_state!=UNIT_MATCHED)
+                        {
                             unit.unit_state = UNIT_MATCHED;
+                            addStartPosition(&unit, token_start);
+                        }
                         int start_index=qs_elt.start, end_index=qs_elt.end;
                         while(start_index<=end_index)
                         {
@@ -581,6 +586,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                 }
                 break;
         }
+        token_start = lexer.next_start;
         token = nextToken(&lexer);
         token_type = token.token_type; 
     }
-- 
2.43.0


From 7a0ac22b1465a6f07841378ef80e115a22243bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:34 +0000
Subject: [PATCH 25/27] fix: a primitive at the end of a reprocessed unit was
 lost

---
 JSONQuery/parallel_automata_execution.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index c83d056..eb99d36 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -287,7 +287,13 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 int length = unit.end-unit.start+1;
                 int start_index = unit.start-thread_info[i].input_stream;
                 char* streaming = NULL;
-                if(unit.end>unit.start) streaming = substring(thread_info[i].input_stream, start_index, start_index+length-1);
+                if(unit.end>unit.start)
+                {
+                    //a blank ends a primitive that is the last token of the unit
+                    streaming = (char*)malloc((length+1)*sizeof(char));
+                    substring_in_place(streaming, thread_info[i].input_stream, start_index, start_index+length-1);
+                    strcat(streaming, " ");
+                }
                 if(unit.end>unit.start && streaming!=NULL)
                 {
                     seq_wa->syntax_stack = ss;
-- 
2.43.0


From e3ab59b5bcb605a0adcfb2ba03cdbeac6802feb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:34 +0000
Subject: [PATCH 26/27] fix: a match pending at the end of a reprocessed unit
 had a position relative to the unit

---
 JSONQuery/parallel_automata_execution.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index eb99d36..e8dc1df 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -304,6 +304,13 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     executeWorkerAutomaton(seq_wa, streaming); 
                     printf("the %dth unit in the %dth chunk has been reprocessed successfully\n", j, i);
                     free(streaming);
+                    //a match that starts in the unit is pending: its position is relative to the unit
+                    for(int n = 0; n<seq_wa->query_stacks.num_node; n++)
+                    {
+                        TreeNode* tnode = &seq_wa->query_stacks.node[n];
+                        if(tnode->matched_start!=INVALID && (n>=qs.num_node || qs.node[n].matched_start==INVALID))
+                            tnode->matched_start += start_index;
+                    }
                     ss = seq_wa->syntax_stack;
                     qs = seq_wa->query_stacks;
                     qs_elt = seq_wa->query_stacks_element;   
-- 
2.43.0


From 6ac6c6f48d57e0b27e0313a772ac1c072b933ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:59 +0000
Subject: [PATCH 27/27] fix: a matched object or array that spans several
 chunks was output truncated

---
 JSONQuery/parallel_automata_execution.h | 59 +++++++++++++++++--------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index e8dc1df..db3d6b7 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -127,6 +127,37 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
     return match;
 }
 
+// text from a position in the concatenated chunks to the end position (exclusive) in the given chunk
+static char* textAcrossChunks(ThreadInfo* thread_info, int start, int chunk, int end)
+{
+    int i, chunk_start = 0, text_len = 0;
+    int total_len = end-start;
+    for(i = 0; i<chunk; i++) total_len += strlen(thread_info[i].input_stream);
+    char* text = (char*)malloc((total_len+1)*sizeof(char));
+    for(i = 0; i<=chunk; i++)
+    {
+        int chunk_len = (i<chunk)?strlen(thread_info[i].input_stream):end;
+        if(start<chunk_start+chunk_len)
+        {
+            int from = (start>chunk_start)?(start-chunk_start):0;
+            substring_in_place(text+text_len, thread_info[i].input_stream, from, chunk_len);
+            text_len += chunk_len-from;
+        }
+        chunk_start += chunk_len;
+    }
+    return text;
+}
+
+// matches that became pending since the old stacks get positions relative to the concatenated chunks
+static void shiftPendingMatches(QueryStacks* qs, QueryStacks* old_qs, int offset)
+{
+    for(int n = 0; n<qs->num_node; n++)
+    {
+        if(qs->node[n].matched_start!=INVALID && (n>=old_qs->num_node || old_qs->node[n].matched_start==INVALID))
+            qs->node[n].matched_start += offset;
+    }
+}
+
 // merging results from different chunks
 TupleList* combine(ThreadInfo* thread_info, int num_thread)
 {
@@ -144,10 +175,13 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
     //save information for current unmatched symbol
     UnmatchedSymbol us;
     int sum = getTupleListSize(tuple_list); 
+    int chunk_start = 0;
 
     for(int i = 1; i<num_thread; i++)
     {
         WorkerAutomaton* wa = thread_info[i].worker_automaton;
+        //position of the chunk in the concatenated chunks
+        chunk_start += strlen(thread_info[i-1].input_stream);
         UnitList ul = wa->unit_list; 
         TupleList* tl = wa->tuple_list;  
         //whether stacks for the current chunk needs to be merged after processing
@@ -177,12 +211,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             int matched_type = getMatchedType(qa,&c_node);
                             if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {  
-                                int left_len = strlen(thread_info[i-1].input_stream)-c_node.matched_start;
-                                int right_len = us.index+1;
-                                int strlen = left_len+right_len;
-                                char* object_text = (char*)malloc((strlen+1)*sizeof(char));
-                                substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
-                                substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
+                                char* object_text = textAcrossChunks(thread_info, c_node.matched_start, i, us.index+1);
                                 addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
                                 qs.node[node_index].matched_start = INVALID;
                                 sum++;
@@ -229,12 +258,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             int matched_type = getMatchedType(qa,&c_node);
                             if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {  
-                                int left_len = strlen(thread_info[i-1].input_stream)-c_node.matched_start;
-                                int right_len = us.index+1;
-                                int strlen = left_len+right_len;
-                                char* object_text = (char*)malloc((strlen+1)*sizeof(char));
-                                substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
-                                substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
+                                char* object_text = textAcrossChunks(thread_info, c_node.matched_start, i, us.index+1);
                                 addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
                                 qs.node[node_index].matched_start = INVALID;
                                 sum++;
@@ -304,13 +328,8 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     executeWorkerAutomaton(seq_wa, streaming); 
                     printf("the %dth unit in the %dth chunk has been reprocessed successfully\n", j, i);
                     free(streaming);
-                    //a match that starts in the unit is pending: its position is relative to the unit
-                    for(int n = 0; n<seq_wa->query_stacks.num_node; n++)
-                    {
-                        TreeNode* tnode = &seq_wa->query_stacks.node[n];
-                        if(tnode->matched_start!=INVALID && (n>=qs.num_node || qs.node[n].matched_start==INVALID))
-                            tnode->matched_start += start_index;
-                    }
+                    //a match that starts in the unit is pending
+                    shiftPendingMatches(&seq_wa->query_stacks, &qs, chunk_start+start_index);
                     ss = seq_wa->syntax_stack;
                     qs = seq_wa->query_stacks;
                     qs_elt = seq_wa->query_stacks_element;   
@@ -363,7 +382,9 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
         if(merge_needed==1)
         {
             combineSyntaxStack(&ss, &wa->syntax_stack); 
+            QueryStacks old_qs = qs;
             combineQueryStacks(&qs, &qs_elt, &wa->query_stacks, &wa->query_stacks_element);  //merge query stacks
+            shiftPendingMatches(&qs, &old_qs, chunk_start);
         }
     }
     seq_wa->syntax_stack = ss;
-- 
2.43.0

