"""Contracts of DFABuilder/include/dfa.h: the flat query automaton."""
from specs.common import *
from jpv import libc
A2 = z3.ArraySort(INT, ARR)
NX = z3.Function('next_by_name', ARR, A2, INT, INT, INT, INT)   # table, names, inputs, state, key -> next state
NI = z3.Function('input_of_name', ARR, A2, INT, INT, INT, INT)  # the input symbol a key stands for in a state

class DV:
    """view of a JSONQueryDFA (pointer p) in `view`"""
    def __init__(v, view, p):
        v.N = view.get(p, 'states_num'); v.n = view.get(p, 'inputs_num')
        g = lambda f, *r: view.arr(view.get(p, f).fld(iv(0)) if False else view.get(p, f), *r)
        tp = view.get(p, 'table'); v.tp = tp
        v.tab = view.chars(tp)[0]
        ap = view.get(p, 'accept_type'); v.acc = view.chars(ap)[0]; v.ap = ap
        sp = view.get(p, 'stop_state'); v.stop = view.chars(sp)[0]; v.sp = sp
        ip = view.get(p, 'array_index'); v.ip = ip
        v.lo = view.ex.leafterm(ip.root, ('[]', 'lower'), view.snap); v.up = view.ex.leafterm(ip.root, ('[]', 'upper'), view.snap)
        nm = view.get(p, 'names'); v.nm = nm
        v.nroot = view.ex.childptr(nm.root, ('[]',), Ty('ptr', CH), [iv(0)], F).root
        v.names = view.ex.leafterm(v.nroot, ('[]', '[]'), view.snap)
        v.nameless = view.ex.leafterm(nm.root, ('[]', '?'), view.snap)
        v.ptrs = [tp, ap, sp, ip, nm]
    def wf(v):
        k, = K('d')
        return [('automaton sizes', And(v.N >= 1, v.n >= 3, v.N <= 2**15, v.n <= 2**15)),
                ('automaton tables exist', And(*[Not(Z(p.null)) for p in v.ptrs])),
                ('every input from 3 on has a name', FA([k], Implies(And(k >= 3, k < v.n), Not(z3.Select(v.nameless, k))), z3.Select(v.nameless, k))),
                ('every transition leads to a state', FA([k], And(z3.Select(v.tab, k) >= 0, z3.Select(v.tab, k) < v.N), z3.Select(v.tab, k))),
                ('index ranges are not negative', FA([k], And(z3.Select(v.lo, k) >= -2**31, z3.Select(v.up, k) >= -2**31, z3.Select(v.up, k) < 2**31, z3.Select(v.lo, k) < 2**31), z3.Select(v.lo, k)))]
    def name(v, i): return libc.CID(z3.Select(v.names, i), iv(0))
    def hit(v, q, key, i): return And(i >= 3, i < v.n, z3.Select(v.tab, q * v.n + i) != 0, v.name(i) == key)
    def next(v, q, key): return z3.Select(v.tab, q * v.n + v.inp(q, key))
    def inp(v, q, key): return NI(v.tab, v.names, v.n, q, key)
    def defs(v, q, key):
        """input_of_name = the first named input with a transition, or 1 (any other name)"""
        k, = K('h'); i = v.inp(q, key)
        return [Or(And(i == 1, FA([k], Implies(And(k >= 3, k < v.n), Or(z3.Select(v.tab, q * v.n + k) == 0, v.name(k) != key)), z3.Select(v.names, k))),
                   And(v.hit(q, key, i), FA([k], Implies(And(k >= 3, k < i), Or(z3.Select(v.tab, q * v.n + k) == 0, v.name(k) != key)), z3.Select(v.names, k))))]
    def next_array(v, q): return z3.Select(v.tab, q * v.n + 2)

def dfa_setup(s, c, i=0):
    p = c.a(i); v = DV(c.cur, p)
    for q, n in ((v.tp, v.N * v.n), (v.ap, v.N), (v.sp, v.N), (v.ip, v.N), (v.nm, v.n)): q.root.sizes[0] = n
def inrange(v, q): return And(q >= 0, q < v.N)

class dfaNextStateByStr(Spec):
    """the transition of a key (NULL: an array) is the one stored for its name, else the one for other names"""
    name = 'dfaNextStateByStr'
    def setup(s, c):
        dfa_setup(s, c)
        p = c.a(2); c.args[2] = Ptr(p.root, p.path, z3.Bool('key_is_null'))
    def pre(s, c):
        v = DV(c.cur, c.a(0)); q = c.a(1)
        return v.wf() + [('state', And(inrange(v, q), q * v.n <= v.N * v.n - v.n, v.N * v.n < 2**31))]
    def lemma(s, c):
        v = DV(c.old, c.a(0)); q = c.a(1); p = c.a(2)
        if p.root is None: return []
        return v.defs(q, libc.cid(c.ex, p))
    def post(s, c):
        v = DV(c.old, c.a(0)); q = c.a(1); p = c.a(2)
        nul = T if p.root is None else Z(p.null)
        out = [('array step', Implies(nul, c.res == v.next_array(q)))]
        if p.root is not None: out.append(('key step', Implies(Not(nul), c.res == v.next(q, libc.cid(c.ex, p)))))
        return out
    nloops = 1
    def inv(c):
        v = DV(c.old, c.a(0)); q = c.a(1); i = c.v('cinput'); k, = K('i'); key = libc.cid(c.ex, c.a(2))
        return [('range', And(i >= 3, i <= v.n)), ('not found', Not(c.ex.truth(c.v('found')))),
                ('no earlier match', FA([k], Implies(And(k >= 3, k < i), Or(z3.Select(v.tab, q * v.n + k) == 0, v.name(k) != key)), z3.Select(v.names, k)))]
    def lem(c):
        v = DV(c.old, c.a(0)); q = c.a(1); i = c.v('cinput')
        return [Implies(And(i >= 0, i < v.n), And(q * v.n + i < v.N * v.n, q * v.n + i >= 0))]   # nonlinear fact: q <= N-1
    loops = {0: Loop(inv=inv)}
class acc_get(Spec):
    field = None
    def setup(s, c): dfa_setup(s, c)
    def pre(s, c):
        v = DV(c.cur, c.a(0)); return v.wf() + [('state', inrange(v, c.a(1)))]
class getDFAAcceptType(acc_get):
    name = 'getDFAAcceptType'
    def post(s, c): return [('accept type', c.res == z3.Select(DV(c.old, c.a(0)).acc, c.a(1)))]
class getDFAStopState(acc_get):
    name = 'getDFAStopState'
    def post(s, c): return [('stop state', c.res == z3.Select(DV(c.old, c.a(0)).stop, c.a(1)))]
class getDFAArrayIndex(acc_get):
    name = 'getDFAArrayIndex'
    def post(s, c):
        v = DV(c.old, c.a(0))
        return [('index range', And(c.res.leaves[('lower',)] == z3.Select(v.lo, c.a(1)), c.res.leaves[('upper',)] == z3.Select(v.up, c.a(1))))]
class dfaNextState(acc_get):
    name = 'dfaNextState'
    def pre(s, c):
        v = DV(c.cur, c.a(0)); q = c.a(1); i = c.a(2)
        return v.wf() + [('state and input', And(inrange(v, q), i >= 0, i < v.n, q * v.n <= v.N * v.n - v.n, v.N * v.n < 2**31))]
    def post(s, c):
        v = DV(c.old, c.a(0)); return [('transition', c.res == z3.Select(v.tab, c.a(1) * v.n + c.a(2)))]
class createJSONQueryDFA(Spec):
    """a fresh automaton of the given size, all entries zero"""
    name = 'createJSONQueryDFA'
    def pre(s, c): return [('sizes', And(c.a(0) >= 1, c.a(1) >= 3, c.a(0) <= 2**15, c.a(1) <= 2**15, c.a(0) * c.a(1) < 2**30))]
    def result(s, c):
        r = c.ex.newobj('dfa', Ty('struct', 'JSONQueryDFA')); return Ptr(r)
    def post(s, c):
        v = DV(c.cur, c.res); k, = K('z')
        return [('sizes', And(v.N == c.a(0), v.n == c.a(1))), ('no transitions', FA([k], z3.Select(v.tab, k) == 0, z3.Select(v.tab, k))),
                ('no stop states', FA([k], And(z3.Select(v.stop, k) == 0, z3.Select(v.acc, k) == 0), z3.Select(v.stop, k))),
                ('no index ranges', FA([k], And(z3.Select(v.lo, k) == 0, z3.Select(v.up, k) == 0), z3.Select(v.lo, k)))]
SPECS = [dfaNextStateByStr(), getDFAAcceptType(), getDFAStopState(), getDFAArrayIndex(), dfaNextState(), createJSONQueryDFA()]
def modules():
    return Module(TU(['JSONQuery/streaming_automaton.c']), SPECS, buf=BUFS)
BUFS = {'JSONQueryIndexPair', 'PredicateCondition', 'JSONPathKeyValuePair', 'ThreadInfo', 'JSONQueryIntVecPair'}
