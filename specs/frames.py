"""Frame conditions of everything a worker thread runs (P17): which memory each function may write, for any argument.
Indices are taken to stay inside their arrays here (the functional contracts prove that); what is proved is where the writes go."""
from specs.common import *
from specs import dfa
SAFETY = ('bounds', 'null', 'conv', 'overflow', 'div', 'alloc', 'pre')
class Fr(Spec):
    takes = SAFETY; shared = True
    def __init__(s, name, mods=None, result=None, modular=True, setup=None): s.name, s._m, s._r, s.modular, s._s = name, mods or (lambda c: []), result, modular, setup
    def setup(s, c): s._s and s._s(c)
    def mods(s, c): return s._m(c)
    def result(s, c): return s._r(c) if s._r else None
    def post(s, c): return []
def arg(i, *f): return lambda c: [c.a(i).fld(*f) if f else c.a(i)]
def args(*ii): return lambda c: [c.a(i) for i in ii]
def buf_(i): return lambda c: [('buf', c.a(i))]
def lexmods(c):
    lx = c.a(0); p = c.old.get(lx, 'content')
    return [lx.fld(f) for f in ('current_pointer', 'current_start', 'next_start', 'lex_state')] + ([('buf', p)] if isinstance(p, Ptr) and p.root is not None else [])
def lexsetup(c):
    ex = c.ex; lx = c.a(0); b = buf(ex, 'text', CH)
    for f in ('begin_stream', 'end_stream', 'next_start', 'current_pointer', 'current_start'): ex.setraw(lx.root, (f,), Ptr(b, (('i', z3.Int('at_' + f)),), False))
    ex.setraw(lx.root, ('content',), Ptr(buf(ex, 'content', CH), (('i', iv(0)),), False))
def lexresult(c):
    r = c.ex.freshval('token', Ty('struct', 'Token')); r.leaves[('content',)] = c.old.get(c.a(0), 'content'); return r
def newtext(c): return Ptr(c.ex.newobj('text', Ty('arr', CH)), (('i', iv(0)),), False)
def wasetup(c): pass
def wamods(c):
    wa = c.a(0); tl = c.old.get(wa, 'tuple_list')
    return [wa.fld(f) for f in ('syntax_stack', 'query_stacks', 'query_stacks_element', 'unit_list', 'initial_flag')] + [tl]
LEX = [Fr('strcopy', buf_(1)), Fr('substring', result=newtext), Fr('substring_in_place', buf_(0)), Fr('nextToken', lexmods, lexresult, setup=lexsetup)]
STACKS = [Fr('syntaxStackPush', arg(0)), Fr('syntaxStackPop', arg(0)), Fr('initSyntaxStack', arg(0)),
          Fr('initQueryStacks', arg(0)), Fr('queryStacksPop', arg(0)), Fr('queryStacksPush', arg(0)), Fr('pruneQueryPaths', arg(0)),
          Fr('addTupleInfo', args(0, 4)), Fr('addVirtualTupleInfo', args(0, 5)),
          Fr('addRoots', arg(0)), Fr('addUnit', arg(0)), Fr('addUnmatchedSymbol', arg(0)), Fr('updateStateInfo', arg(1)),
          Fr('getMatchedType'), Fr('getDFAAcceptType'), Fr('getDFAArrayIndex'), Fr('dfaNextStateByStr'), Fr('getDFAStopState'),
          Fr('syntaxStackInference', lambda c: lexmods(c) + [c.a(0).fld('content'), c.a(2)], setup=lexsetup)]
WORK = [Fr('executeWorkerAutomaton', wamods, setup=wasetup)]
SPECS = LEX + STACKS + WORK
def modules():
    return Module(TU(['JSONQuery/utility.c', 'JSONQuery/worker_automaton.c', 'JSONQuery/lexing.c']), SPECS, buf=dfa.BUFS | {'TreeNode'}, untracked=('start', 'end'))
