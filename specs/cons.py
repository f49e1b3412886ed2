"""Contracts of constraint.h: the states every symbol was met in."""
from specs.common import *
from jpv import libc
KYT, LBT = 6, 3
MAXE, MAXS, MAXK = 1000, 100, 98
class CTV:
    """view of a ConstraintTable"""
    def __init__(v, view, p):
        g = lambda *f: view.arr(p, *f)
        v.num = view.get(p, 'num_constraint_info'); v.ty = g('constraint_info', '[]', 'type'); v.ns = g('constraint_info', '[]', 'num_state')
        v.st = g('constraint_info', '[]', 'state_set', '[]'); v.nm = g('constraint_info', '[]', 'token_name', '[]')
    def cid(v, k): return libc.CID(S(v.nm, k), iv(0))
    def wf(v):
        k, = K('w')
        return And(v.num >= 0, v.num <= MAXE, FA([k], Implies(And(k >= 0, k < v.num), And(Or(S(v.ty, k) == KYT, S(v.ty, k) == LBT), S(v.ns, k) >= 1, S(v.ns, k) <= MAXS)), S(v.ty, k), S(v.ns, k)))
    def room(v, n):
        k, = K('r'); return And(v.num <= MAXE - n, FA([k], Implies(And(k >= 0, k < v.num), S(v.ns, k) <= MAXS - n), S(v.ns, k)))
    def match(v, k, ty, key): return And(S(v.ty, k) == ty, Or(ty != KYT, v.cid(k) == key))
    def none(v, lo, hi, ty, key):
        k, = K('n')
        return FA([k], Implies(And(k >= lo, k < hi), Not(v.match(k, ty, key))), S(v.ty, k), S(v.nm, k))
    def index(v, ix, ty, key):
        """ix = first entry of the symbol, or num"""
        return And(ix >= 0, ix <= v.num, v.none(0, ix, ty, key), Implies(ix < v.num, v.match(ix, ty, key)))
    def place(v, ix, p, q):
        """p = position of the state q in entry ix, or the length of its set"""
        k, = K('j')
        return And(p >= 0, p <= S(v.ns, ix), FA([k], Implies(And(k >= 0, k < p), S(S(v.st, ix), k) != q), S(S(v.st, ix), k)), Implies(p < S(v.ns, ix), S(S(v.st, ix), p) == q))
def added(o, n, ix, p, q, ty, key, ex):
    """n is o after the state q was met before the symbol (ty, key); ix, p: index of the symbol, place of the state"""
    known = ix < o.num; k, j = K('k', 'j')
    there = And(known, p < S(o.ns, ix))
    keep = lambda k: And(S(n.ty, k) == S(o.ty, k), S(n.ns, k) == S(o.ns, k), S(n.nm, k) == S(o.nm, k), S(n.st, k) == S(o.st, k))
    return [('number of symbols', n.num == If(known, o.num, o.num + 1)),
            ('other symbols keep their states', FA([k], Implies(And(k >= 0, k < o.num, k != ix), keep(k)), S(n.ty, k), S(n.ns, k), S(n.st, k), S(n.nm, k))),
            ('the symbol keeps its name', Implies(known, And(S(n.ty, ix) == S(o.ty, ix), S(n.nm, ix) == S(o.nm, ix)))),
            ('a state that is there is not added again', Implies(there, And(S(n.ns, ix) == S(o.ns, ix), S(n.st, ix) == S(o.st, ix)))),
            ('a new state is added once', Implies(And(known, Not(there)), And(S(n.ns, ix) == S(o.ns, ix) + 1, S(n.st, ix) == z3.Store(S(o.st, ix), S(o.ns, ix), q)))),
            ('a new symbol is added with its state alone', Implies(Not(known), And(S(n.ty, ix) == ty, S(n.ns, ix) == 1, S(S(n.st, ix), 0) == q, Implies(ty == KYT, n.cid(ix) == key))))]
def learned(o, n, ix, pq, pz, q, ty, key, zero):
    """n is o after the state q, and the state 0 as well when zero, was met before the symbol"""
    known = ix < o.num; k, j = K('k', 'j')
    keep = lambda k: And(S(n.ty, k) == S(o.ty, k), S(n.ns, k) == S(o.ns, k), S(n.nm, k) == S(o.nm, k), S(n.st, k) == S(o.st, k))
    ns0 = If(known, S(o.ns, ix), 0); hasq = And(known, pq < S(o.ns, ix)); n1 = ns0 + If(hasq, 0, 1); addz = And(zero, q != 0, Not(And(known, pz < S(o.ns, ix))))
    return [('number of symbols', n.num == If(known, o.num, o.num + 1)),
            ('other symbols keep their states', FA([k], Implies(And(k >= 0, k < o.num, k != ix), keep(k)), S(n.ty, k), S(n.ns, k), S(n.st, k), S(n.nm, k))),
            ('the symbol', And(S(n.ty, ix) == ty, Implies(known, S(n.nm, ix) == S(o.nm, ix)), Implies(ty == KYT, n.cid(ix) == key))),
            ('number of states', S(n.ns, ix) == n1 + If(addz, 1, 0)),
            ('earlier states', FA([j], Implies(And(j >= 0, j < ns0), S(S(n.st, ix), j) == S(S(o.st, ix), j)), S(S(n.st, ix), j))),
            ('the state', Implies(Not(hasq), S(S(n.st, ix), ns0) == q)), ('the unmatched state', Implies(addz, S(S(n.st, ix), n1) == 0))]
class ADD:
    def __init__(v, c):
        v.o = CTV(c.old, c.a(0)); v.q, v.ty = c.a(1), c.a(2); p = c.a(3)
        v.key = libc.cid(c.ex, p) if isinstance(p, Ptr) and p.root is not None and getattr(p, 'path', None) else iv(-1)
        sfx = '' if not c.call else str(c.ex.fresh('add'))
        v.ix, v.pl = z3.Int('IX' + sfx), z3.Int('PL' + sfx)
    def defs(v): return [v.o.index(v.ix, v.ty, v.key), v.o.place(v.ix, v.pl, v.q)]
class addConstraintInfo(Spec):
    """the symbol's set gets the state, once; a symbol is known by its kind and whole name"""
    name = 'addConstraintInfo'
    def pre(s, c):
        v = ADD(_o(c)) if not c.call else ADD(c); p = c.a(3)
        o = [('table', v.o.wf()), ('kind', Or(v.ty == KYT, v.ty == LBT))]
        k, = K('r')
        if not c.call: o += [('index', f) for f in v.defs()] + [('room', And(v.o.num < MAXE, Implies(v.ix < v.o.num, S(v.o.ns, v.ix) < MAXS)))]
        else: o.append(('room', v.o.room(1)))
        if isinstance(p, Ptr) and p.root is not None: o.append(('names fit', Implies(v.ty == KYT, libc.slen(c.ex, p) <= MAXK)))
        return o
    def mods(s, c): return [c.a(0)]
    def lemma(s, c): return []
    def post(s, c):
        v = ADD(c); n = CTV(c.cur, c.a(0)); o = added(v.o, n, v.ix, v.pl, v.q, v.ty, v.key, c.ex)
        if c.call: o = [('first entry of the symbol, place of the state', And(*v.defs()))] + [(l, f) for l, f in o]
        return o + [('table', n.wf())]
    nloops = 3
    def inv01(c):
        v = ADD(c); i = c.v('i')
        return [('range', And(i >= 0, i <= v.o.num, i <= v.ix, c.v('last') == v.o.num, c.v('index') == v.o.num))]
    def inv2(c):
        v = ADD(c); i = c.v('state_index')
        return [('range', And(i >= 0, i <= v.pl))]
    loops = {0: Loop(inv=inv01), 1: Loop(inv=inv01), 2: Loop(inv=inv2)}
class _o:
    def __init__(s, c): s.c = c; s.old = c.cur; s.call = c.call; s.ex = c.ex
    def a(s, i): return s.c.a(i)
class updateStateInfo(Spec):
    """looks a symbol up: exactly its states, none for a symbol never met"""
    name = 'updateStateInfo'
    def sym(s, c):
        p = c.a(1); ty = c.old.get(p, 'type'); nm = c.old.arr(p, 'token_name', '[]'); libc.strfacts(c.ex, nm, iv(0))
        return CTV(c.old, c.a(0)), ty, libc.CID(nm, iv(0))
    def pre(s, c):
        v, ty, key = s.sym(c if c.call else _o(c)); return [('table', v.wf())] + ([] if c.call else [('index', v.index(z3.Int('IX'), ty, key))])
    def mods(s, c):
        p = c.a(1); return [p.fld('num_state'), ('leaf', p.fld('state_set', iv(0)))]
    def post(s, c):
        v, ty, key = s.sym(c); p = c.a(1); ns = c.cur.get(p, 'num_state'); st = c.cur.arr(p, 'state_set', '[]'); k, = K('k')
        ix = z3.Int('IX') if not c.call else c.ex.fresh('ix')
        o = [('first entry', v.index(ix, ty, key))] if c.call else []
        f = And(Or(ty == KYT, ty == LBT), ix < v.num)
        return o + [('a symbol never met has no states', Implies(Not(f), ns == -1)), ('number of states', Implies(f, ns == S(v.ns, ix))),
                    ('exactly the states of the symbol', Implies(f, FA([k], Implies(And(k >= 0, k < ns), S(st, k) == S(S(v.st, ix), k)), S(st, k))))]
    nloops = 4
    def find(c):
        i = c.v('i'); v, ty, key = updateStateInfo().sym(c)
        return [('range', And(i >= 0, i <= v.num, i <= z3.Int('IX'), c.v('last') == v.num)), ('none yet', c.cur.get(c.a(1), 'num_state') == -1)]
    def copy(c):
        i, j = c.v('i'), c.v('j'); v, ty, key = updateStateInfo().sym(c); p = c.a(1); st = c.cur.arr(p, 'state_set', '[]'); k, = K('k')
        return [('range', And(j >= 0, j <= S(v.ns, i), i == z3.Int('IX'))), ('number', c.cur.get(p, 'num_state') == S(v.ns, i)), ('states', FA([k], Implies(And(k >= 0, k < j), S(st, k) == S(S(v.st, i), k)), S(st, k)))]
    loops = {0: Loop(inv=find), 1: Loop(inv=copy), 2: Loop(inv=find), 3: Loop(inv=copy)}
class initConstraintTable(Spec):
    name = 'initConstraintTable'; modular = False
    def mods(s, c): return [c.a(0).fld('num_constraint_info')]
    def post(s, c): return [('empty', CTV(c.cur, c.a(0)).num == 0)]
class createConstraintTable(Spec):
    name = 'createConstraintTable'; modular = False
    def post(s, c): return [('empty', CTV(c.cur, c.res).num == 0)] if isinstance(c.res, Ptr) and c.res.root is not None else [('a table', F)]
CONS = [addConstraintInfo(), updateStateInfo(), initConstraintTable(), createConstraintTable()]
def modules():
    from specs import lex, dfa
    return Module(TU(['JSONQuery/worker_automaton.c']), [x for x in lex.SPECS if x.name == 'strcopy'] + CONS, buf=dfa.BUFS)
