Q = 'JSONQuery/'
SEEDS = [
 dict(id='p01-backslash-run', property='P01', edits=[(Q + 'lexing.c', "while(*pointer=='\\\\'){", "while(*pointer=='\\\\'&&count<8){")],
  cases=[dict(mode='s', cores=1, query='$.a', input='{"a":"' + '\\' * 9 + '" x","b":1}', expected=['"' + '\\' * 9 + '" x"'])],
  needs='a string with nine or more (an odd number of) backslashes directly before a quote', what='the run of backslashes before a quote is only counted up to eight, so the quote is taken for the end of the string'),
 dict(id='p01-tab-after-primitive', property='P01', edits=[(Q + 'lexing.c', "                    case ' ':\n                    case '\\t':\n                    case '\\n':", "                    case ' ':\n                    case '\\n':")],
  needs='a number or literal directly followed by a tab', what='a tab no longer ends a primitive, so it becomes part of its text'),
 dict(id='p02-pop-array-in-array', property='P02', edits=[(Q + 'streaming_automaton.c', "                            elt_ary_e(qs_elt, ss, qs); \n                            increaseArrayCounter(qs_elt);", "                            elt_ary_e(qs_elt, ss, qs); \n                            if(qs_elt->query_state!=0) increaseArrayCounter(qs_elt);")],
  needs='', what='', skip=1),
 dict(id='p04-count-empty-array', property='P04', edits=[(Q + 'streaming_automaton.c', "                        if(getMatchedType(qa, qs_elt)==DFA_PREDICATE)\n                        {  ", "                        if(getMatchedType(qa, qs_elt)==DFA_PREDICATE)\n                        {  ")], needs='', what='', skip=1),
 dict(id='p13-link-distance', property='P13', edits=[('DFABuilder/include/Lexer/dfa_compressed.hpp', "int counter = 10;", "int counter = 30;")],
  needs='rows added out of order, the first with more entries than fit the direct path, compared with a state whose own row is added later', what='a row may be stored as difference to a state that has no row yet; adding that row later changes the answers of the first'),
 dict(id='p13-last-cell', property='P13', edits=[('DFABuilder/src/Lexer/dfa_compressed.cpp', "(k < Bottom) &&", "(k + 1 < Bottom) &&")],
  needs='a lookup that hits the last cell in use', what='the last occupied cell of the table is ignored by lookups'),
 dict(id='p05-subtract-right', property='P05', edits=[('JSONPathParser/parser_j.y', "%left '+' '-'", "%right '+' '-'")],
  cases=[dict(mode='s', cores=1, query='$[?(@.a - 3 - 2 == 5)].b', input='[{"a":10,"b":"in"},{"a":6,"b":"out"}]', expected=['"in"'])],
  needs='two subtractions in a row in a filter', what='a - b - c is read as a - (b - c)'),
 dict(id='p05-null-equal', property='P05', edits=[('JSONPathParser/jsonpath_evaluator.h', "} else if (v1.vtype == v2.vtype && v1.vtype == jvt_null) {", "} else if (v1.vtype == jvt_null || v2.vtype == jvt_null) {")],
  needs='a comparison of an absent or null value with another value', what='an absent value equals everything'),
 dict(id='p06-first-value', property='P06', edits=[('JSONQuery/predicate.c', "pc[index].text = allocate_and_copy(text); ", "if(pc[index].text==NULL) pc[index].text = allocate_and_copy(text); ")],
  needs='an element with the condition key twice', what='the first value of a repeated condition key decides instead of the last'),
 dict(id='p20-open-filter', property='P20', edits=[('JSONQuery/predicate.c', "    pf->pstack = ps;\n", "    if(getTupleListSize(tl)>1) pf->pstack = ps;\n")],
  needs='a loaded piece whose only result is the opening or closing of a filtered element', what='the stack of open filter elements is not kept across pieces with a single result'),
 dict(id='p10-row-tail', property='P10', edits=[('JSONQuery/constraint.h', "                while(j<ci->num_state)  //update state info\n                {\n                    ci->state_set[j] = ct->constraint_info[i].state_set[j]; ", "                while(j<ci->num_state-(ci->num_state>3))  //update state info\n                {\n                    ci->state_set[j] = ct->constraint_info[i].state_set[j]; ")],
  needs='a key met in four or more states', what='the last of four or more states is not copied'),
 dict(id='p04-nested-array-count', property='P04', edits=[(Q + 'streaming_automaton.c', "    next_qs_elt.count = 0;\n    next_qs_elt.matched_start = INVALID;\n    //update current state info\n    *qs_elt  = next_qs_elt; \n}\n\nstatic inline void ary_e", "    next_qs_elt.count = next_qs_elt.query_state==0 ? counter : 0;\n    next_qs_elt.matched_start = INVALID;\n    //update current state info\n    *qs_elt  = next_qs_elt; \n}\n\nstatic inline void ary_e")], needs='', what='', skip=1),
 dict(id='p05-mod-32bit', property='P05', edits=[('JSONPathParser/jsonpath_evaluator.h', "v.number = (long long int)(v1.number) % (long long int)(v2.number);", "v.number = (int)(v1.number) % (long long int)(v2.number);")],
  cases=[dict(mode='s', cores=1, query='$.a[?(@.n%10==7)].v', input='{"a":[{"n":5000000007,"v":1},{"n":17,"v":2}]}', expected=['1', '2'])],
  needs="'%' on a number beyond 32 bits", what='the left operand of % is truncated to 32 bits'),
 dict(id='p06-leaked-condition', property='P06', edits=[('JSONPathParser/jsonpath_evaluator.h', "        if (table[i].text) free(table[i].text);\n        table[i].text = NULL;", "        if (table[i].text == NULL) break;\n        free(table[i].text);\n        table[i].text = NULL;")],
  needs='a filter with two conditions, an element in which only the second one is present, and a later element without it', what='conditions behind an absent one are not cleared and influence the next element'),
 dict(id='p06-nested-release', property='P06', edits=[(Q + 'predicate.c', "if(getPredicateStackSize(&ps)==1)", "if(getPredicateStackSize(&ps)<=2)")],
  needs='two nested filters, where the inner one holds and the outer one does not', what='candidates of an inner filter are released before the outer one is decided'),
 dict(id='p07-cut-at-value', property='P07', edits=[(Q + 'path_processor.h', "                    prev = stream[i][chunk_size+add-t]; \n                    t++;\n                }\n                if(prev==','||prev=='{'||prev=='[')", "                    prev = stream[i][chunk_size+add-t]; \n                    t++;\n                }\n                if(prev==','||prev=='{'||prev=='['||(prev=='}'&&t>1))")], needs='', what='', skip=1),
 dict(id='p09-carriage-return', property='P09', edits=[(Q + 'path_processor.h', "        stream[size+add] = ch; \n        add = add+1;", "        if(ch!='\\r') { stream[size+add] = ch;\n        add = add+1; }")],
  needs='a carriage return between the end of a loaded piece and the next boundary', what='the carriage return is dropped and the next piece starts one byte too early'),
 dict(id='p10-slice-end', property='P10', edits=[(Q + 'streaming_automaton.c', "                    if(!((lower==0&&upper==0)||(counter>=lower && counter<upper)))\n                        addConstraintInfo(ct, 0, KY, token.content);", "                    if(!((lower==0&&upper==0)||(counter>=lower && counter<=upper)))\n                        addConstraintInfo(ct, 0, KY, token.content);")],
  needs='learning with an index query on an array with exactly one object behind the selected range', what='the unmatched state is not recorded for the keys of the element right behind the range'),
 dict(id='p11-root-upper', property='P11', edits=[(Q + 'multi_stack.h', "if(!((lower==0&&upper==0)||(counter<upper))) next_state = 0;", "if(!((lower==0&&upper==0)||(counter<=upper))) next_state = 0;")],
  needs='an index query, and a symbol opened at the unknown start after as many elements as the range allows', what='a start state whose range is exhausted is still followed'),
 dict(id='p11-root-pointers', san='-fsanitize=bounds -fsanitize-undefined-trap-on-error', property='P11', edits=[(Q + 'multi_stack.h', "        qs->num_root_pointers = qs->node[last_elt_index].root_range.end+1;", "        if(top_qs_elt.end>0) qs->num_root_pointers = qs->node[last_elt_index].root_range.end+1;")],
  cases=[dict(mode='m', cores=1, query='$.a.b', input='I 1\n' + 'P a\nP b\nO\nO\n' * 700 + 'P a\nT 3 t0', expected=['N 1 0 -1 P R T t0:-1:2', 'N 2 0 -1 P 0 R 0', 'S 0-0 cur 1-1'])],
  needs='a long run of values below a single known state', what='root pointers are not given back when the bottom level is restored and run over the fixed table'),
 dict(id='p12-merged-count', property='P12', edits=[(Q + 'multi_stack.h', "dst_qs->node[node_index].count = src_qs->node[start].count;", "dst_qs->node[node_index].count = 0;")],
  needs='a chunk that ends inside an array of which some elements have been passed', what='merging forgets how many elements of the open arrays have been passed'),
 dict(id='p20-count', property='P20', edits=[(Q + 'streaming_automaton.c', "    sa->count = qs_elt->count;", "    sa->count = getMatchedType(qa, qs_elt)==DFA_OUTPUT_CANDIDATE ? qs_elt->count : 0;")],
  needs='a document loaded in pieces with a boundary inside an array that an index or slice step counts', what='the element count is lost at the boundary of two loaded pieces'),
 dict(id='p20-buffer', property='P20', edits=[(Q + 'predicate.c', "if(pf->buffer==NULL) pf->buffer = createOutput();", "pf->buffer = createOutput();")],
  needs='a document loaded in pieces with a boundary inside a filtered element after its candidate', what='candidates found before the boundary are forgotten'),
 dict(id='p06-condition-prefix', property='P06', edits=[(Q + 'predicate.c', "if(strcmp(pc[index].name, node->string)==0) break;", "if(strncmp(pc[index].name, node->string, strlen(pc[index].name))==0) break;")],
  cases=[dict(mode='s', cores=1, query='$.a[?(@.b>1&&@.bc>5)].v', input='{"a":[{"b":2,"bc":7,"v":1},{"bc":2,"b":9,"v":2}]}', expected=['1'])],
  needs='a filter with two references, the name of one being a prefix of the name of the other', what='the value of a condition is stored under the other name'),
 dict(id='p02-deep', property='P02', edits=[(Q + 'stack.h', "    if(qs->top_item<MAX_STACK-1)\n    {\n        ++qs->top_item;\n        qs->item", "    if(qs->top_item<MAX_STACK/2)\n    {\n        ++qs->top_item;\n        qs->item")],
  cases=[dict(mode='s', cores=1, query='$.m.z', input='{"k":' + '[' * 60 + '1' + ']' * 60 + ',"m":{"z":2}}', expected=['2'])],
  needs='values nested more than fifty levels deep', what='open states beyond half of the stack are dropped, so the state is not restored'),
 dict(id='p16-name-prefix', property='P16', edits=[('DFABuilder/include/dfa.h', "strcmp(getDFAInputType(dfa, cinput), input) == 0) {", "strncmp(getDFAInputType(dfa, cinput), input, strlen(getDFAInputType(dfa, cinput))) == 0) {")],
  cases=[dict(mode='a', cores=0, query='$.a', input='ab\na', expected=['0 0 0', '1 0 0'], check='automaton')],
  needs='a key that starts with a name of the query', what='keys are compared by prefix'),
 dict(id='p16-filter-type', property='P16', edits=[('DFABuilder/src/dfa_builder.cpp', "dfa->accept_type[i] = DFA_CONDITION;\n                for (int j = 0;", "dfa->accept_type[i] = DFA_CONDITION;\n                for (int j = i;")],
  needs='', what='', skip=1),
 dict(id='p04-open-slice', property='P04', edits=[('DFABuilder/src/dfa_builder.cpp', "else end = INT_MAX;", "else end = SHRT_MAX;")],
  cases=[dict(mode='s', cores=1, query='$[32766:]', input='[' + ','.join(['0'] * 32766 + ['1', '2', '3']) + ']', expected=['1', '2', '3'])],
  needs='an open slice on an array with more than 32767 elements', what='an open slice ends at position 32767'),
 dict(id='p08-cut-at-value', property='P08', edits=[(Q + 'file_partition.c', "if(prev==','||prev=='{'||prev=='[')", "if(prev==','||prev=='{'||prev=='['||prev==':')")],
  needs='a chunk boundary that falls directly before a string value', what='a chunk starts in the middle of a member'),
 dict(id='p07-last-byte', property='P07', edits=[(Q + 'path_processor.h', "    if(remain_size>0)\n    {\n        stream[i] = substring(", "    if(remain_size>1)\n    {\n        stream[i] = substring(")],
  needs='a text whose last boundary is its very last byte', what='a last chunk of one byte is dropped'),
 dict(id='p18-unit-split', property='P18', edits=[(Q + 'worker_automaton.c', "                    //create a new unit\n                    if(unit.unit_state==UNIT_MATCHED)\n                    {\n                        //create a new unit\n                        addRoots(&unit, qs.node, qs.num_node); \n                        addEndPosition(&unit, lexer.current_start-1);\n                        addUnit(ul, unit);\n                        initUnit(&unit);\n                        //automata resetting\n                        initSyntaxStack(&ss);\n                        initSyntaxStack(&shadow_ss);\n                        qs_elt = initQueryStacks(&qs, query_state, num_query_state);\n                    }\n                    us.token_type = RB;", "                    //create a new unit\n                    if(unit.unit_state==UNIT_MATCHED&&unit.num_root<0&&unit.count_unmatched_symbols<0)\n                    {\n                        //create a new unit\n                        addRoots(&unit, qs.node, qs.num_node); \n                        addEndPosition(&unit, lexer.current_start-1);\n                        addUnit(ul, unit);\n                        initUnit(&unit);\n                        //automata resetting\n                        initSyntaxStack(&ss);\n                        initSyntaxStack(&shadow_ss);\n                        qs_elt = initQueryStacks(&qs, query_state, num_query_state);\n                    }\n                    us.token_type = RB;")],
  needs='a chunk in which an open array ends after other values of the chunk that follow an unmatched symbol', what='the end of the array is attributed to the wrong unit of the chunk'),
 dict(id='p18-merge-start', property='P18', edits=[(Q + 'parallel_automata_execution.h', "                if(query_state == 0) continue;", "                if(query_state == 0 || tuple.state != query_state && tuple.start_position == 0) continue;")], needs='', what='', skip=1),
 dict(id='p18-level', property='P18', edits=[(Q + 'stack.h', "", "")], needs='', what='', skip=1),
 dict(id='p18-array-end', property='P18', edits=[(Q + 'parallel_automata_execution.h', "                        if(syntaxStackSecondTop(&ss)==KY)  \n                        {   \n                            val_ary_e(&qs_elt, &ss, &qs); ", "                        if(syntaxStackSecondTop(&ss)==KY)  \n                        {   \n                            if(k>0) val_ary_e(&qs_elt, &ss, &qs); else ary_e(&qs_elt, &ss, &qs);")], needs='', what='', skip=1),
 dict(id='p12-virtual-link', property='P12', edits=[(Q + 'multi_stack.h', "         addVirtualTuple(tl, query_state, matched_start, matched_end);\n         if(root.first_tuple_index>=0){\n             int tuple_index = getTupleListSize(tl)-1;\n             linkTuples(tl, root.last_tuple_index, tuple_index);\n             qs->node[root_index].last_tuple_index = tuple_index;\n         }\n         else{\n             int tuple_index = getTupleListSize(tl)-1;\n             qs->node[root_index].first_tuple_index = tuple_index;\n             qs->node[root_index].last_tuple_index = tuple_index;\n         }\n         root_s++;", "         addVirtualTuple(tl, query_state, matched_start, matched_end);\n         if(root.first_tuple_index>=0){\n             int tuple_index = getTupleListSize(tl)-1;\n             linkTuples(tl, root.first_tuple_index, tuple_index);\n             qs->node[root_index].last_tuple_index = tuple_index;\n         }\n         else{\n             int tuple_index = getTupleListSize(tl)-1;\n             qs->node[root_index].first_tuple_index = tuple_index;\n             qs->node[root_index].last_tuple_index = tuple_index;\n         }\n         root_s++;")],
  needs='three results of one start state, the third of which is an object or array', what='the second result of the start state is unlinked'),
 dict(id='p17-static-buffer', property='P17', edits=[(Q + 'lexing.c', "    char sub1[MAX_PRIMITIVE];", "    static char sub1[MAX_PRIMITIVE];")], demo={'demo.sh': """#!/bin/bash
# the workers of a parallel run must not race: ThreadSanitizer on one parallel run
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp -r "$R/JSONQuery" "$T/q"
sed -i -E 's/^#define MAX_OUTPUT .*/#define MAX_OUTPUT 2000/; s/^#define MAX_TUPLE_LIST .*/#define MAX_TUPLE_LIST 5000/' "$T"/q/*.h
L=$R/_build/lib
gcc -w -g -O1 -fsanitize=thread -D_GNU_SOURCE -std=gnu99 -mcmodel=medium -I"$T/q" -I"$R/JSONPathParser" -I"$R/_build/JSONPathParser" -I"$R/DFABuilder/include" -I"$R/DFABuilder/interface" \\
  -o "$T/drv" "$D/par.c" "$T"/q/*.c "$L/libJSONPathParser.a" "$L/libDFABuilder.a" "$L/libJSONPathParser.a" -lstdc++ -lpthread -lm || exit 3
cd "$T"; ulimit -s unlimited 2>/dev/null
for i in 1 2 3; do TSAN_OPTIONS="exitcode=66" timeout 100 "$T/drv" "$T/doc" > "$T/out" 2> "$T/err" || { head -30 "$T/err"; exit 1; }; done
exit 0
""", 'par.c': """#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "dfa_builder.h"
#include "path_processor.h"
int main(int argc, char** argv)
{
    FILE* f = fopen(argv[1], "w"); fprintf(f, "{\\"a\\":[");
    for (int i = 0; i < 400; i++) fprintf(f, "%s{\\"k\\":\\"value %d\\",\\"v\\":%d}", i ? "," : "", i, i);
    fprintf(f, "]}"); fclose(f);
    PathProcessor* pp = createPathProcessor("$.a[*].v");
    Output* o = parallelRun(pp, argv[1], 4);
    return getOutputSize(o) == 400 ? 0 : 1;
}
"""},
  needs='two workers that process text tokens at the same time', what='the scratch buffer of the lexer is shared by all workers'),
]
SEEDS = [s for s in SEEDS if not s.get('skip')]
