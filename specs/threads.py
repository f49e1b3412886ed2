"""Contracts of parallel_automata_execution.h about who owns what while the workers run (P17): main_thread, executeParallelAutomata, createWorkerAutomaton.
The frame of executeWorkerAutomaton used here is the one proved in module frames."""
from specs.common import *
from specs import dfa
from specs.frames import Fr, SAFETY, args, arg, LEX, STACKS
NXT = {'wa': 'next_worker', 'tl': 'next_list'}
def fresh_ref(rg):
    def hook(ex, ref):      # references are handed out in order
        g = NXT[rg]
        if g in ex.ghost: ex.assume(ref == ex.ghost[g]); ex.setghost(g, ref + 1)
    return hook
REGIONS = {'struct:WorkerAutomaton*': 'wa', '#wa': 'WorkerAutomaton', '&wa': fresh_ref('wa'), 'struct:TupleList*': 'tl', '#tl': 'TupleList', '&tl': fresh_ref('tl'),
           'struct:JSONQueryDFA*': 'qa', '#qa': 'JSONQueryDFA', 'struct:ConstraintTable*': 'ct', '#ct': 'ConstraintTable', 'struct:QueryStatesInfo*': 'qsi', '#qsi': 'QueryStatesInfo'}
def wamods(c):
    wa = c.a(0); tl = c.old.get(wa, 'tuple_list')
    return [wa.fld(f) for f in ('syntax_stack', 'query_stacks', 'query_stacks_element', 'unit_list', 'initial_flag')] + [tl]
def tisetup(c):
    r = c.ex.mkroot('a0', Ty('arr', Ty('struct', 'ThreadInfo'))); c.args[0] = Ptr(r, (('i', iv(0)),), False)
    c.ex.setraw(r, ('[]', 'input_stream', '?'), z3.K(INT, F))
def timods(c):
    wa = c.old.get(c.a(0), 'worker_automaton')
    return [c.a(0).fld('execution_time')] + [wa.fld(f) for f in ('syntax_stack', 'query_stacks', 'query_stacks_element', 'unit_list', 'initial_flag')] + [c.old.get(wa, 'tuple_list')]
G = ('workers', 'lists', 'slots', 'handles', 'joined')
def inrng(k, n): return And(k >= 0, k < n)
def m_create(ex, n, argn):
    """a thread starts: from here on the memory it may write is its own until it is joined"""
    h, _, f, a = [ex.ev(x) for x in argn]
    from jpv.core import FnVal
    isptr = isinstance(a, Ptr) and a.root is not None
    ex.oblige('pre', 'pthread_create: the thread runs main_thread', T if isinstance(f, FnVal) and f.name == 'main_thread' else F)
    if not isptr: raise Undecided('thread argument')
    if len(a.path) != 1: raise Undecided('thread argument is not an element of the thread table')
    slot = a.path[0][1]; k = ex.ghost['started']; w = View(ex).get(a, 'worker_automaton'); tl = View(ex).get(w, 'tuple_list'); j, = K('j')
    g = ex.ghost; wr, tr = ex.toref(w), ex.toref(tl)
    none = lambda arr, x: FA([j], Implies(inrng(j, k), z3.Select(arr, j) != x), z3.Select(arr, j))
    ex.oblige('pre', 'pthread_create: the automaton of the thread belongs to no other thread', And(wr > 0, none(g['workers'], wr)))
    ex.oblige('pre', 'pthread_create: the result list of the thread belongs to no other thread', And(tr > 0, none(g['lists'], tr)))
    ex.oblige('pre', 'pthread_create: the thread record belongs to no other thread', none(g['slots'], slot))
    ex.oblige('pre', 'pthread_create: the thread record is complete', And(View(ex).get(a, 'thread_id') == k, View(ex).get(w, 'id') == k))
    hd = ex.fresh('handle'); ex.assume(none(g['handles'], hd)); ex.store(h, hd, check=False)
    for nm, x in (('workers', wr), ('lists', tr), ('slots', slot), ('handles', hd)): ex.setghost(nm, z3.Store(g[nm], k, x))
    ex.setghost('joined', z3.Store(g['joined'], hd, 0)); ex.setghost('started', k + 1)
    return iv(0)
def m_join(ex, n, argn):
    h = ex.asint(ex.ev(argn[0])); ex.setghost('joined', z3.Store(ex.ghost['joined'], h, 1)); return iv(0)
class combine(Spec):
    """merging (its frame is not needed: nothing runs beside it)"""
    name = 'combine'
    def pre(s, c):
        j, = K('j'); g = c.ex.ghost
        if 'started' not in g: return []
        return [('every thread has been joined before its results are read', FA([j], Implies(inrng(j, g['started']), z3.Select(g['joined'], z3.Select(g['handles'], j)) == 1), z3.Select(g['handles'], j)))]
    def result(s, c): r = c.ex.fresh('merged'); c.ex.assume(r >= 0); return c.ex.refto('tl', r)
class executeParallelAutomata(Spec):
    name = 'executeParallelAutomata'; takes = tuple(x for x in SAFETY if x != 'pre')
    def setup(s, c):
        ex = c.ex
        for g in G: ex.setghost(g, z3.Const(g + '0', ARR))
        ex.setghost('started', iv(0)); ex.setghost('next_worker', z3.Int('next_worker0')); ex.setghost('next_list', z3.Int('next_list0'))
    def pre(s, c):
        ex = c.ex; w = c.cur.get(c.a(0), 'major_automaton'); x = ex.toref(w)
        return [('counters', And(ex.ghost['next_worker'] > 0, ex.ghost['next_list'] > 0)),
                ('the automaton that is kept', Implies(x != 0, And(x > 0, x < ex.ghost['next_worker'], ex.toref(c.cur.get(w, 'tuple_list')) > 0, ex.toref(c.cur.get(w, 'tuple_list')) < ex.ghost['next_list'], c.cur.get(w, 'id') == 0)))]
    def mods(s, c): return None      # nothing calls it: what it may change is not part of the property
    def inv_create(c):
        ex = c.ex; g = ex.ghost; i = c.v('i'); j, = K('j'); ti = c.vp('ti')
        th = c.cur.arr(ti, '[]', 'thread')
        n = c.v('num_cores'); w0 = z3.Int('next_worker0'); r, = K('r'); wr = ex.region('wa').ptr() if hasattr(ex.region('wa'), 'ptr') else Ptr(ex.region('wa'), (), False)
        idn, ido = c.cur.arr(wr, '[]', 'id'), c.entry.arr(wr, '[]', 'id'); tln, tlo = c.cur.arr(wr, '[]', 'tuple_list'), c.entry.arr(wr, '[]', 'tuple_list')
        return [('one thread per round', And(i >= 0, Or(i <= n, i == 0), g['started'] == i, g['next_worker'] >= w0, g['next_list'] >= z3.Int('next_list0'))),
                ('automata that existed before keep their id and list', FA([r], Implies(And(r > 0, r < w0), And(z3.Select(idn, r) == z3.Select(ido, r), z3.Select(tln, r) == z3.Select(tlo, r))), z3.Select(idn, r))),
                ('owners', FA([j], Implies(inrng(j, i), And(z3.Select(g['workers'], j) < g['next_worker'], z3.Select(g['lists'], j) < g['next_list'])), z3.Select(g['workers'], j), z3.Select(g['lists'], j))),
                ('records', FA([j], Implies(inrng(j, i), z3.Select(g['slots'], j) == j), z3.Select(g['slots'], j))),
                ('handles', FA([j], Implies(inrng(j, i), z3.Select(g['handles'], j) == z3.Select(th, j)), z3.Select(g['handles'], j)))]
    def inv_join(c):
        g = c.ex.ghost; i = c.v('i'); j, = K('j')
        return [('range', And(i >= 0, Or(i <= c.v('num_cores'), i == 0))), ('joined so far', FA([j], Implies(And(j >= 0, j < i, j < g['started']), z3.Select(g['joined'], z3.Select(g['handles'], j)) == 1), z3.Select(g['handles'], j)))]
    loops = {0: Loop(inv=inv_create), 1: Loop(inv=inv_join)}
    def post(s, c): return []
def create(c): return []
class createWorkerAutomaton(Spec):
    """a fresh automaton with a fresh, empty result list of its own"""
    name = 'createWorkerAutomaton'; modular = False; takes = SAFETY
    def setup(s, c):
        c.ex.setghost('next_worker', z3.Int('next_worker0')); c.ex.setghost('next_list', z3.Int('next_list0'))
    def post(s, c):
        ex = c.ex
        if not isinstance(c.res, Ptr) or c.res.root is None: return [('an automaton', F)]
        w = ex.toref(c.res); tl = c.cur.get(c.res, 'tuple_list')
        return [('fresh', w == z3.Int('next_worker0')), ('with a list of its own', ex.toref(tl) == z3.Int('next_list0')), ('empty', c.cur.get(tl, 'count') == -1), ('identified', c.cur.get(c.res, 'id') == c.a(1))]
    def mods(s, c): return [c.res, c.cur.get(c.res, 'tuple_list')] if isinstance(c.res, Ptr) and c.res.root is not None else []
SPECS = [Fr('executeWorkerAutomaton', wamods), combine(), createWorkerAutomaton(), Fr('main_thread', timods, setup=tisetup), executeParallelAutomata()]
def modules():
    return Module(TU(['JSONQuery/utility.c', 'JSONQuery/parallel_automata_execution.h']), SPECS, buf=dfa.BUFS, regions=REGIONS, opaque_calls={'pthread_create': m_create, 'pthread_join': m_join}, untracked=('input_stream',))
