"""Property -> contracts (module, function) to discharge + bounded stand-in."""
LEX = [('lex', f) for f in ('nextToken', 'substring_in_place', 'strcopy')]
DFA = [('dfa', f) for f in ('dfaNextStateByStr', 'getDFAAcceptType', 'getDFAStopState', 'getDFAArrayIndex', 'dfaNextState')]
SSTK = [('stream', f) for f in ('syntaxStackPush', 'syntaxStackPop', 'syntaxStackTop', 'syntaxStackSecondTop', 'syntaxStackSize')]
QSTK = [('stream', f) for f in ('queryStackPush', 'queryStackPop', 'queryStackTop')]
TUP = [('stream', f) for f in ('addTuple', 'getTuple', 'getTupleListSize', 'initTupleList')]
EXE = [('stream', 'getMatchedType'), ('stream', 'executeAutomaton')]
CONS = [('cons', f) for f in ('addConstraintInfo', 'updateStateInfo', 'initConstraintTable', 'createConstraintTable')]
MUL = [('multi', f) for f in ('initQueryStacks', 'queryStacksPop', 'queryStacksTop', 'queryStacksSecondTop', 'queryStacksTopUpdate', 'pruneQueryPaths', 'queryStacksPush')]
WORK = [('worker', f) for f in ('initUnit', 'initUnitList', 'getSizeUnitList', 'addStartPosition', 'addEndPosition', 'addUnmatchedSymbol', 'addRoots', 'getMatchedType', 'syntaxStackInference',
                                'obj_s', 'obj_e', 'elt_obj_e', 'val_obj_e', 'ary_s', 'ary_e', 'val_ary_e', 'elt_ary_e', 'key', 'val_pmt')] + [('worker:list', 'addUnit')]
MERGE = [('merge', f) for f in ('getMatchedType', 'shiftPendingMatches', 'textAcrossChunks')]
AST = ['ASTNodeCreate' + x for x in ('', 'Number', 'String', 'ID', 'Variable', 'Root', 'Wildcard', 'Ref', 'Concat', 'Range', 'ParentConcat', 'Predicate', 'Operator', 'OperatorOne', 'Script', 'Fliter')]
EVAL = [('eval', f) for f in ('computeTypeCast', 'computeUnaryOperator', 'computeBinaryOperator', 'stringToValue', 'findValueInTable', 'calculateExpression', 'createTableFromConditions', 'evaluateExpression')]
OUTP = [('pred', f) for f in ('addOutputElement', 'getOutputElement', 'getOutputSize', 'removeOutputElement', 'initOutput', 'createOutput')]
PRED = [('pred', f) for f in ('initPredicateStack', 'pushPredicateStack', 'popPredicateStack', 'getTopPredicateStack', 'getPredicateStackSize', 'initPredicateFilter', 'generateFinalOutput')]
NB = ' A bounded stand-in runs the real code on generated cases against an independent oracle; it is labelled bounded and never counted as proved.'
FILES = ['files and texts are below 1 GB (2^30 bytes)', 'one file is open at a time, reads do not fail, the file does not change', 'a reallocated buffer is treated as the same object, grown']
FRAMES = ['strcopy', 'substring', 'substring_in_place', 'nextToken', 'syntaxStackPush', 'syntaxStackPop', 'initSyntaxStack', 'initQueryStacks', 'queryStacksPop', 'queryStacksPush', 'pruneQueryPaths', 'addTupleInfo', 'addVirtualTupleInfo',
          'addRoots', 'addUnit', 'addUnmatchedSymbol', 'updateStateInfo', 'getMatchedType', 'syntaxStackInference', 'executeWorkerAutomaton']
PROPS = {
 'P05': dict(jobs=EVAL + [('eval', f) for f in AST], secs=20, rule='expressions of random shape over random conditions, evaluated through the parser; non-trivial: at least two operators',
   note='The value of every expression tree over every list of conditions is proved, operator by operator; doubles are IEEE, their conversion to and from integers and text is uninterpreted. The grammar (bison) that turns a query into the tree is covered by the bounded part only.' + NB,
   assume=['the conversions double <-> int64 and text -> double are uninterpreted functions', 'the grammar of the query language (bison input) is not under contract']),
 'P06': dict(jobs=PRED + OUTP + EVAL + [('eval', 'clearPredicateCondtion'), ('lex', 'strcopy'), ('lex', 'allocate_and_copy')], secs=20, rule='queries with filters, nested up to three deep, over documents with missing and repeated conditions; non-trivial: something is released and something discarded',
   note='Every tuple step of generateFinalOutput is proved to have the stated effect on open elements, conditions, candidates and outputs, for any tuple list in which opening and closing tuples nest; assumes the fixed sizes of lists and texts.' + NB,
   assume=['getContextSubtree and the other accessors of the C++ query context are assumed to be functions of their arguments', 'evaluateExpression and clearPredicateCondtion are proved on a single condition list (module eval) and used on a row of the table of lists']),
 'P01': dict(jobs=LEX + [('lex', f) for f in ('substring', 'allocate_and_copy')], rule='tokens of random documents, document suffixes and token soups; non-trivial: at least three tokens',
   note='nextToken and the string helpers are proved against a declarative tokenization for every text; assumes string tokens fit the token buffers.' + NB),
 'P02': dict(jobs=EXE + SSTK + QSTK + DFA, rule='serial runs over nested documents; non-trivial: the query selects something',
   note='Every token step of executeAutomaton is proved to have the stated effect on state, count, pending match and both stacks, for any automaton; assumes well-formed text, nesting and texts within the fixed tables.' + NB),
 'P03': dict(jobs=EXE + TUP + SSTK + QSTK + LEX + PRED + OUTP, rule='serial runs of queries of every kind; non-trivial: the query selects something',
   note='The emission of exact texts by executeAutomaton, and their passage to the outputs by generateFinalOutput, are proved step by step for any automaton; that the automaton is the one of the query is covered by the bounded part only.' + NB),
 'P04': dict(jobs=EXE + QSTK + [('dfa', 'getDFAArrayIndex')], rule='index and slice queries over arrays around the bounds; non-trivial: something is selected',
   note='Range test and counting are proved per token for any automaton and nesting.' + NB),
 'P16': dict(jobs=DFA, secs=20, level='other', rule='automata of random queries followed along paths near the query; non-trivial: a path that is selected',
   note='The accessors by which the runs follow the automaton are proved for any table (names compared as a whole, range and type of the state returned exactly); that the table is the one of the query is covered by the bounded part only (C++ builder).' + NB),
 'P18': dict(jobs=MUL + SSTK + [('stream', 'combineSyntaxStack')] + [('multi', f) for f in ('addTupleInfo', 'addVirtualTupleInfo', 'combineQueryStacks')] + WORK + MERGE + [('wexec', 'executeWorkerAutomaton'), ('comb', 'combine')], variants=['small', 'chunk'], level='other', secs=40,
   rule='parallel runs with 1 to 8 workers, no constraints or constraints learned on the same or on another document, documents in one and in several pieces, against an independent evaluator; non-trivial: several chunks and something is selected',
   note='The building blocks of a parallel run (speculative stacks, units, rules, recording of results, merging) are proved, and executeWorkerAutomaton is proved to do, for every token and every speculative state, exactly what the rule for that token says (stacks, counts, pending matches, results with their texts, pruning, units and their places in the text); combine is proved to treat every unmatched symbol, every recorded result, every unit and every chunk as stated (which results are taken, what is run again from which state, how stacks and pending matches move); that all of this together gives the serial result is decided by the bounded part only.' + NB),
 'P20': dict(jobs=EXE + SSTK + QSTK + PRED, variants=['chunk'], secs=25, rule='serial runs over documents loaded in pieces of 97 bytes; non-trivial: several pieces and something is selected',
   note='executeAutomaton is proved to continue from exactly the state, count, pending match and stacks it left, generateFinalOutput from the open elements, conditions and candidates it left, for any starting state of these.' + NB),
 'P10': dict(jobs=CONS + EXE + DFA + [('lex', 'strcopy')], rule='tables learned from random documents, then random additions and lookups; non-trivial: several symbols with several states',
   note='Addition and lookup are proved for any table, and every token step of executeAutomaton is proved to learn exactly the state it is met in (and the unmatched state outside the range); assumes the fixed sizes of the table.' + NB),
 'P11': dict(jobs=MUL + DFA, rule='random push/pop sequences over automata of random queries from all start states; non-trivial: levels with several parents or roots',
   note='Push, pop, initialisation and pruning are proved for any stacks and any automaton; assumes the node and pointer tables have room.' + NB),
 'P07': dict(jobs=[('part', f) for f in ('partitionInputStream', 'substring_in_place', 'substring', 'loadInputStream')], variants=['small', 'chunk'], rule='texts of every shape, 1 to 90 workers; non-trivial: longer than the number of workers',
   note='Concatenation, number of chunks and the cut are proved for every text without NUL bytes below 1 GB and every number of workers; the text is measured with strlen.' + NB, assume=FILES),
 'P08': dict(jobs=[('fpart', 'partitionFile'), ('part', 'substring_in_place')], variants=['small', 'chunk'], rule='files of every shape, 1 to 40 workers; non-trivial: longer than the number of workers',
   note='Concatenation, number of chunks and the cut are proved for every non-empty file without NUL bytes below 1 GB and every number of workers.' + NB, assume=FILES),
 'P09': dict(jobs=[('part', 'loadBoundedInputStream'), ('part', 'substring_in_place')], variants=['small', 'chunk'], rule='files loaded in pieces of 97 bytes and in one piece; non-trivial: several pieces',
   note='Each load is proved to deliver exactly the bytes from the position it is given to the position it leaves, to cut at a token start, and to report the end, for every file without NUL bytes below 1 GB and every position.' + NB, assume=FILES),
 'P17': dict(jobs=[('frames', f) for f in FRAMES] + [('threads', f) for f in ('createWorkerAutomaton', 'executeParallelAutomata', 'main_thread')], variants=['tsan'], secs=20,
   rule='parallel runs under ThreadSanitizer, with and without constraints; non-trivial: at least three chunks',
   note='The frame of every function a worker runs is proved: it writes only to its automaton, its result list and fresh memory, no static or global variable; each thread is proved to get an automaton, a list and a record of its own, and to be joined before its results are read. Indices are assumed to stay inside their arrays here.' + NB,
   assume=['array indices stay inside their arrays in the functions of modules frames and threads (kinds listed under loop_assumptions)', 'pthread_create, pthread_join and the C library are thread-safe and behave as documented', 'the accessors of the query automaton only read it']),

 'P13': dict(jobs=[('dfac', f) for f in ('nextState', 'getValidSize', 'compareState', 'createNewArea', 'createLinkArea', 'addEdge')], rule='tables of up to 40 rows of up to 60 inputs, added in any order, with nearly equal, sparse and dense rows; non-trivial: at least three rows',
   note='Adding a row is proved to make it found and to leave every other row as it was, for any table, any row and any order, over the current C++ source; std::vector is modelled (index, size, resize).' + NB, assume=['std::vector<int> behaves as a sequence (models __vec_at, __vec_size, __vec_resize, __vec_init)', 'the table starts empty (constructor and default member initialisers are not under contract)', 'the table stays below 2^28 cells and rows are at most 2^28 long', 'each state is added once; the entries of a row are states up to the given maximum']),
 'P12': dict(jobs=[('multi', f) for f in ('addTupleInfo', 'addVirtualTupleInfo', 'combineQueryStacks')] + [('stream', f) for f in ('combineSyntaxStack', 'addTuple', 'addVirtualTuple', 'linkTuples', 'initTupleList')] + MERGE + [('comb', 'combine')],
   rule='random stacks, recorded results and merges; non-trivial: several start states with results', level='proof',
   note='Recording and merging are proved for any stacks and lists whose levels descend from one start state, and combine is proved to use them unit by unit and chunk by chunk; assumes the tables have room.' + NB),
}
NA = {
 'P14': 'C++ class hierarchy over std::vector/std::map/shared pointers: no deductive verifier for C++ is installed',
 'P15': 'C++ class hierarchy over std::vector/std::map/shared pointers: no deductive verifier for C++ is installed',
}
