import json
P=[]
def p(id,title,st,over,qtext,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=list(obs)
    P.append(d)
J='JSONQuery/'
T6='The six query tests run one fixed document each; '
p('P01','Tokenization is faithful for every input text',
 'Reading a text token by token yields exactly its structural characters, keys and primitive values in order, each key without its quotes and each primitive with its exact text. Characters inside strings are never taken for structure, and a quote ends a string exactly when it is preceded by an even number of backslashes. A text that starts at a token start in the middle of a document yields the same tokens as that part of the document, and string or number tokens up to 3990 bytes are kept whole.',
 ['inputs'],'every byte string without NUL (tokens within the fixed token buffer)',T6+'escape parity, white space and token lengths are not varied.',
 [J+'lexing.c',J+'lexing.h',J+'utility.c'],[('nextToken',J+'lexing.c'),('strcopy/substring_in_place',J+'utility.c')],[('Lexer.next_start','where the next token is searched',J+'lexing.h')],['Token.token_type','Token.content'])
p('P02','The query state follows the path and is restored when a value ends',
 'At every point of a serial run the query state is the one reached from the start state along the keys and arrays that enclose the current position; entering a value advances it by exactly one step. When a value ends, the state, the element count and the pending match of the enclosing container are exactly what they were when the value began (an element of an array adds one to the count). After a complete document the automaton is back in its start state with nothing left on its stacks.',
 ['inputs'],'every well-formed document of up to 46 nested containers, every query','The tests look only at outputs of shallow documents.',
 [J+'streaming_automaton.c',J+'streaming_automaton.h',J+'stack.h','DFABuilder/include/dfa.h'],[('executeAutomaton',J+'streaming_automaton.c'),('queryStackPush/Pop, syntaxStackPush/Pop',J+'stack.h'),('dfaNextStateByStr','DFABuilder/include/dfa.h')],[('query_state, count, matched_start','current configuration',J+'streaming_automaton.h')],['tuple list','StreamingAutomaton fields after a run'])
p('P03','A serial run outputs exactly the selected values, text and order exact',
 'For every supported query and well-formed JSON document whose root is an object or array, a serial run outputs one text per selected value and nothing else. Each text is the exact source text of the value, from its first to its last character, and the outputs come in the order in which the values end in the document. Supported: names, wildcards, descendants, element wildcards, indices and slices, and filters followed by at least one further step, where descendants are not mixed with indices or filters (matched texts up to 990 bytes).',
 ['inputs','programs'],'every supported query and every well-formed document within the fixed capacities',T6+'text extents, order of nested matches and combinations of steps are not explored.',
 [J+'path_processor.h',J+'streaming_automaton.c',J+'predicate.c',J+'output.h',J+'tuple_list.h',J+'lexing.c'],[('serialRun',J+'path_processor.h'),('executeAutomaton',J+'streaming_automaton.c'),('generateFinalOutput',J+'predicate.c')],(),['Output elements'])
p('P04','Array indices and slices select by position in each array',
 'A step [i], [a:b], [a:] or [:b] selects exactly the elements whose position in their own array, counted from 0, is in the range, whatever kinds of values come before them. Counting restarts for every array and is not disturbed by arrays and objects nested inside elements. The empty slice [0:0] and mixing with descendant steps are out of scope.',
 ['inputs','programs'],'every range, every array, every nesting','Tests use a couple of small ranges on one document.',
 [J+'streaming_automaton.c',J+'stack.h','DFABuilder/include/dfa.h'],[('getMatchedType, increaseArrayCounter',J+'streaming_automaton.c'),('getDFAArrayIndex','DFABuilder/include/dfa.h')],[('count','number of elements seen in the current array',J+'stack.h')],['Output elements'])
p('P05','Predicate expressions evaluate by the documented operator semantics',
 'A filter expression has the value given by the usual precedence and left associativity of ||, &&, comparisons, + -, * / % and !, over numbers, strings, booleans and null. A reference stands for the primitive at that path in the element, for true when an object or array is there, and for null when absent; equality holds only between equal values of one type, ordering of anything but two numbers is false, and arithmetic on anything but two numbers, or modulo zero, is null. Null, false and the number 0 count as false, everything else as true.',
 ['inputs','programs'],'every expression and every assignment of values','The parser tests compare one tree shape; few operators are evaluated at all.',
 ['JSONPathParser/jsonpath_evaluator.h','JSONPathParser/jsonpath_model.h','JSONPathParser/parser_j.y'],[('calculateExpression, computeBinaryOperator, computeTypeCast','JSONPathParser/jsonpath_evaluator.h'),('stringToValue, findValueInTable','JSONPathParser/jsonpath_evaluator.h'),('evaluatorModifyReference','JSONPathParser/jsonpath_evaluator.h')],(),['evaluateExpression result','Output elements'])
p('P06','A filter releases or discards exactly the candidates of its element',
 'Candidates found inside a filtered element are output if and only if the filter expression holds on the conditions of that element and of every enclosing filtered element, decided when the element ends, in document order. Conditions seen in one element never influence another element, and a condition that is absent from an element counts as null there. Scope: a filter is followed by at least one step, the selected path is not itself a condition, and elements of arrays under nested filters are objects.',
 ['inputs','histories'],'every sequence of elements and every nesting of two filters','Tests contain no element whose verdict depends on leftovers of an earlier one.',
 [J+'predicate.c',J+'predicate.h',J+'output.h'],[('generateFinalOutput',J+'predicate.c'),('clearPredicateCondtion','JSONPathParser/jsonpath_evaluator.h')],[('predicate_conditions','condition texts of the current element',J+'predicate.h'),('buffer','candidates waiting for a verdict',J+'predicate.h')],['Output elements'])
p('P07','In-memory partitioning loses nothing and cuts only at token starts',
 'Partitioning a text for n workers gives at most n chunks, and their concatenation, in order, is the text itself. Every chunk but the first starts with a quote whose last preceding non-blank character is a comma, an opening brace or an opening bracket.',
 ['inputs','configurations'],'every text without NUL bytes below 1 GB, every number of workers','Tests never partition for more workers than tokens, or with long tokens at a cut.',
 [J+'path_processor.h',J+'utility.c'],[('partitionInputStream',J+'path_processor.h')],(),['PartitionInfo'])
p('P08','File partitioning loses nothing and cuts only at token starts',
 'Partitioning a file for n workers gives at most n chunks, and their concatenation, in order, is the content of the file. Every chunk but the first starts with a quote whose last preceding non-blank character is a comma, an opening brace or an opening bracket.',
 ['inputs','configurations'],'every non-empty file without NUL bytes below 1 GB, every number of workers','No test calls it.',
 [J+'file_partition.c',J+'file_partition.h'],[('partitionFile',J+'file_partition.c')],(),['PartitionInfo'])
p('P09','Bounded loading delivers the whole file, each byte once',
 'Loading a file piece by piece delivers pieces whose concatenation is the content of the file, then reports the end. Every piece but the first starts with a quote whose last preceding non-blank character is a comma, an opening brace or an opening bracket, however long the tokens at the boundary are.',
 ['inputs','histories'],'every file without NUL bytes below 1 GB, every sequence of loads','The piece size is 250 MB, so no test reaches a second piece.',
 [J+'path_processor.h'],[('loadBoundedInputStream',J+'path_processor.h')],[('start_pos','how much has been delivered','caller')],['returned piece, start_pos'])
p('P10','The data constraint table holds exactly the states each symbol was met in',
 'After learning from a document, the table holds for every key, and for the array symbol, exactly the query states in which that symbol was met, each once, and the unmatched state as well for containers met as array elements outside the selected range. Looking a key up gives the states of that key alone, compared by its whole name and never confused with the array symbol; a symbol never met has none.',
 ['inputs','histories'],'every document, every query, every sequence of additions and lookups (up to 1000 symbols, names up to 98 bytes)','Only the parallel tests use it, and they compare outputs on one document.',
 [J+'constraint.h',J+'streaming_automaton.c'],[('addConstraintInfo, updateStateInfo',J+'constraint.h'),('executeAutomaton with learning',J+'streaming_automaton.c')],[('ConstraintTable','symbol -> set of states',J+'constraint.h')],['ConstraintTable'])
p('P11','Speculative stacks follow every possible start state exactly',
 'After any sequence of pushes and pops, the current level of the speculative stacks holds exactly the states reached from the start states along the open symbols, each state once, each linked to precisely the parents and start states that reach it. Index ranges are applied to known counts and given the benefit of the doubt below the unknown start. Popping restores the previous level exactly, counts and pending matches included.',
 ['histories','programs'],'every query automaton, every sequence of pushes and pops within 500 nodes','No test inspects the stacks.',
 [J+'multi_stack.h','DFABuilder/include/dfa.h'],[('initQueryStacks, queryStacksPush, queryStacksPop',J+'multi_stack.h')],[('QueryStacks.node','states, parents and roots by level',J+'multi_stack.h')],['QueryStacks'])
p('P12','Merging keeps exactly the results of the true start state',
 'Results found while processing a chunk are recorded, in order, for exactly the start states under which they are matches. Merging appends the open symbols of the chunk to those of the preceding text, and of its speculative levels exactly the states, counts and pending matches that descend from the actual state at the start of the chunk.',
 ['histories','inputs'],'every pair of stacks, every sequence of recorded results','Tests compare the outputs of one document with few chunks.',
 [J+'multi_stack.h',J+'stack.h',J+'tuple_list.h'],[('addTupleInfo, addVirtualTupleInfo, combineQueryStacks',J+'multi_stack.h'),('combineSyntaxStack',J+'stack.h')],(),['QueryStacks','SyntaxStack','TupleList'])
p('P13','The compressed transition table answers as the rows that were added',
 'For every sequence of rows added to a compressed transition table, one row for each state, looking up an added state and an input gives the entry of the row that was added for that state, whatever overlaps and links the compression introduced; and the rows added before keep their entries.',
 ['inputs','histories'],'every sequence of rows, one for each state','One automaton is compressed in the tests.',['DFABuilder/src/Lexer/dfa_compressed.cpp'],[('DFACompressed','DFABuilder/src/Lexer/dfa_compressed.cpp')])
p('P14','The automaton of a pattern accepts exactly the language of the pattern',
 'For every pattern of the builder (sequences, alternatives, repetitions, character sets) and every string, the built automaton ends in an accepting state if and only if the string is in the language of the pattern.',
 ['inputs','programs'],'every pattern and string','Two patterns are tested.',['DFABuilder/src/Lexer/regex_model.cpp','DFABuilder/src/Lexer/charset.cpp'],[('regex model to automaton','DFABuilder/src/Lexer/regex_model.cpp')])
p('P15','Mixing automata keeps each language and resolves ties by priority',
 'The mixed automaton of several patterns accepts a string if and only if one of them does, and reports the one of highest priority among those that do.',
 ['inputs','programs'],'every set of patterns','One mix is tested.',['DFABuilder/src/Lexer/dfa_mixer.cpp'],[('DFAMixer','DFABuilder/src/Lexer/dfa_mixer.cpp')])
p('P16','The automaton of a query accepts a path exactly when the query matches it',
 'Following the keys and arrays of a path from the start state leads to an output state if and only if the steps of the query match the path as a whole, to a filter state exactly at the elements a filter is applied to, and to a condition state exactly at the references of the filter inside such an element. Keys are compared by their whole name. A state entered through an index or slice step carries exactly that range, every other state none.',
 ['programs','inputs'],'every supported query, every path','A handful of queries and states are compared in the tests.',
 ['DFABuilder/src/dfa_builder.cpp','JSONPathParser/parser_j.y','DFABuilder/include/dfa.h'],[('buildJSONQueryDFA','JSONPathParser/parser_j.y'),('dfaNextStateByStr','DFABuilder/include/dfa.h')],[('JSONQueryDFA.table','transitions','DFABuilder/include/dfa.h')],['dfaNextStateByStr, getDFAAcceptType, getDFAArrayIndex'])
p('P17','Workers share only data that nobody writes',
 'While the workers of a parallel run process their chunks, each writes only to its own automaton, its own result list and its own scratch memory. The query automaton, the constraint table and the chunk texts are only read, so the result of a worker does not depend on the schedule.',
 ['schedules'],'every schedule of the workers','A data race does not show in one run.',
 [J+'worker_automaton.c',J+'parallel_automata_execution.h',J+'lexing.c',J+'utility.c'],[('executeWorkerAutomaton',J+'worker_automaton.c'),('executeParallelAutomata, main_thread',J+'parallel_automata_execution.h')],(),['memory written by a worker'])
p('P18','A parallel run gives the same outputs as a serial run',
 'For every query of names, wildcards, descendants, element wildcards and filters, every document and every number of workers, a parallel run, with or without data constraints, and whatever document these were learned on, outputs the same texts in the same order as the serial run: wrong guesses about the state at the start of a chunk, and objects and arrays that span chunks, leave no trace. Scope: no index or slice step in the query, and no string of the document ends in a comma, an opening brace or an opening bracket (apart from blanks).',
 ['inputs','configurations','schedules'],'every such query, document and number of workers','The tests run one document with one number of workers.',
 [J+'parallel_automata_execution.h',J+'worker_automaton.c',J+'multi_stack.h',J+'unit.h'],[('executeWorkerAutomaton',J+'worker_automaton.c'),('combine',J+'parallel_automata_execution.h')],(),['Output elements'])
p('P20','A document loaded in pieces gives the outputs of the whole document',
 'A serial run over a document that is loaded in several pieces outputs the same texts in the same order as a run over the whole document, whatever is open at the boundary: objects, arrays, counts, filters and their conditions. Scope: no candidate object or array spans a boundary.',
 ['inputs','histories'],'every document and every position of the boundaries','Pieces are 250 MB, so no test has two.',
 [J+'path_processor.h',J+'streaming_automaton.c',J+'predicate.c'],[('serialRun, serialPartialRun',J+'path_processor.h')],[('StreamingContext','what is carried from piece to piece',J+'path_processor.h')],['Output elements'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
