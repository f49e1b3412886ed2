"""Contracts of DFACompressed (P13): the row-displacement table.  `look` is what a lookup of (state, input) gives on the four vectors."""
from specs.common import *
from jpv.cxx import CxxTU, VECOPS
B31 = 2**31
class V:
    """view of a DFACompressed"""
    def __init__(v, view, p):
        a = lambda f: view.arr(p, f, 'd', '[]'); n = lambda f: view.get(p, f, 'n')
        v.df, v.bs, v.nx, v.ck = a('m_default'), a('m_base'), a('m_next'), a('m_check')
        v.nd, v.nb, v.nn, v.nc = n('m_default'), n('m_base'), n('m_next'), n('m_check')
        v.top, v.bot = view.get(p, 'Top'), view.get(p, 'Bottom')
    def hit(v, s, ch):
        k = S(v.bs, s) + ch; return And(k >= 0, k < v.bot, S(v.ck, k) == s), S(v.nx, k)
    def flat(v, s, ch):
        h, x = v.hit(s, ch); return If(h, x, -S(v.df, s))
    def look(v, s, ch):
        h, x = v.hit(s, ch); d = S(v.df, s)
        return If(Or(s == 0, ch == 0), 0, If(h, x, If(d > 0, v.flat(d, ch), -d)))
    def wf(v):
        k, = K('w')
        return [('sizes', And(v.nb == v.nd, v.nc == v.nn, v.nd >= 0, v.nd < B31, v.top >= 0, v.top <= v.bot, v.bot <= v.nn, v.nn < B31)),
                ('cells', FA([k], Implies(And(k >= 0, k < v.nn), And(S(v.ck, k) >= 0, S(v.nx, k) >= 0, S(v.nx, k) < B31)), S(v.ck, k), S(v.nx, k))),
                ('free beyond the bottom', FA([k], Implies(And(k >= v.bot, k < v.nn), S(v.ck, k) == 0), S(v.ck, k))),
                ('defaults', FA([k], Implies(And(k >= 0, k < v.nd), And(S(v.df, k) > -B31, S(v.df, k) < v.nd, S(v.bs, k) >= -B31, S(v.bs, k) < 2**30)), S(v.df, k), S(v.bs, k))),
                ('links lead to a state with a row of its own', FA([k], Implies(And(k >= 0, k < v.nd, S(v.df, k) > 0), S(v.df, S(v.df, k)) <= 0), S(v.df, k)))]
    def own(v, AD):
        """only added states own cells, defaults and links"""
        k, = K('a')
        return [('cells belong to added states', FA([k], Implies(And(k >= 0, k < v.nn, S(v.ck, k) != 0), z3.Select(AD, S(v.ck, k))), S(v.ck, k))),
                ('a state without a row is empty', FA([k], Implies(And(k >= 0, k < v.nd, Not(z3.Select(AD, k))), S(v.df, k) == 0), S(v.df, k), z3.Select(AD, k))),
                ('links lead to added states', FA([k], Implies(And(k >= 0, k < v.nd, S(v.df, k) > 0), z3.Select(AD, S(v.df, k))), S(v.df, k)))]
AD = z3.Const('added', z3.ArraySort(INT, z3.BoolSort()))
def vec(c, i, view=None):
    view = view or c.old
    return view.arr(c.a(i), 'd', '[]'), view.get(c.a(i), 'n')
def vals(ar, n, hi):
    k, = K('v'); return FA([k], Implies(And(k >= 0, k < n), And(S(ar, k) >= 0, S(ar, k) < hi)), S(ar, k))
def kept(o, v, s, df=None):
    """everything but the row of s is kept; cells are only taken for s"""
    k, = K('k')
    return [('cells in use are kept', FA([k], Implies(And(k >= 0, k < o.nn, S(o.ck, k) != 0), And(S(v.ck, k) == S(o.ck, k), S(v.nx, k) == S(o.nx, k))), S(v.ck, k), S(o.ck, k), S(v.nx, k))),
            ('free cells are only taken for the new row', FA([k], Implies(And(k >= 0, k < v.nn), Or(S(v.ck, k) == 0, S(v.ck, k) == s, And(k < o.nn, S(v.ck, k) == S(o.ck, k)))), S(v.ck, k))),
            ('other rows', And(FA([k], Implies(k != s, S(v.df, k) == S(o.df, k)), S(v.df, k)), FA([k], Implies(k != s, S(v.bs, k) == S(o.bs, k)), S(v.bs, k)), v.nd == o.nd, v.nb == o.nb, v.bot >= o.bot, v.nn >= o.nn, v.nc == v.nn))]
def rowmods(c): return [c.a(0).fld(f) for f in ('m_default', 'm_base', 'm_next', 'm_check', 'Top', 'Bottom')]

class nextState(Spec):
    """a lookup"""
    name = 'nextState'
    def pre(s, c):
        v = V(c.cur, c.a(0)); return [x for x in v.wf() if x[0] != 'free beyond the bottom'] + [('state and input', And(c.a(1) >= 0, c.a(1) < v.nd, c.a(2) >= 0, c.a(2) < 2**30))]
    def post(s, c):
        v = V(c.old, c.a(0)); return [('the entry of the row', c.res == v.look(c.a(1), c.a(2)))]
ZC = z3.Function('zeros', ARR, INT, INT)     # number of zeros among the first i entries
def zc(ar, i): return [ZC(ar, 0) == 0, Implies(i >= 0, ZC(ar, i + 1) == ZC(ar, i) + If(S(ar, i) == 0, 1, 0)), ZC(ar, i) >= 0]
class getValidSize(Spec):
    """the number of entries that differ from the most frequent one"""
    name = 'getValidSize'
    def pre(s, c):
        v = V(c.cur, c.a(0)); ar, n = vec(c, 1, c.cur)
        return [('row', And(n >= 1, n < 2**29, vals(ar, n, v.nd + 1))), ('states', And(v.nd >= 0, v.nd < 2**29))]
    def mods(s, c): return [('buf', c.a(3))]
    def post(s, c):
        v = V(c.old, c.a(0)); ar, n = vec(c, 1); m = c.cur.get(c.a(3))
        return [('the most frequent entry is a state', And(m >= 0, m <= v.nd)), ('not more than the entries that are not 0', And(c.res >= 0, c.res <= n - ZC(ar, n)))]
    nloops = 2
    def inv0(c):
        v = V(c.old, c.a(0)); ar, n = vec(c, 1); i = c.v('__pos'); k, = K('q')
        sm, sn = c.cur.arr(c.vp('sum'), 'd', '[]'), c.cur.get(c.vp('sum'), 'n')
        return [('range', And(i >= 0, i <= n, sn == v.nd + 1)), ('counts', FA([k], Implies(And(k >= 0, k < sn), And(S(sm, k) >= 0, S(sm, k) <= i)), S(sm, k))),
                ('zeros', S(sm, 0) == ZC(ar, i)), ('first', Implies(i >= 1, S(sm, S(ar, 0)) >= 1))]
    def lem0(c):
        ar, n = vec(c, 1); i = c.v('__pos'); return zc(ar, i)
    def inv1(c):
        v = V(c.old, c.a(0)); ar, n = vec(c, 1); a, m = c.v('a'), c.v('most'); k, = K('q'); f = c.cur.get(c.a(3))
        sm, sn = c.cur.arr(c.vp('sum'), 'd', '[]'), c.cur.get(c.vp('sum'), 'n')
        return [('range', And(a >= 0, a <= sn, m >= 0, m <= n, sn == v.nd + 1)), ('most', FA([k], Implies(And(k >= 0, k < a), S(sm, k) <= m), S(sm, k))), ('state', Implies(m > 0, And(f >= 0, f < a)))]
    loops = {0: Loop(inv=inv0, lemma=lem0), 1: Loop(inv=inv1)}
class compareState(Spec):
    """a state to link to: it has a row of its own, and is no state without row unless the new row is sparse"""
    name = 'compareState'
    def pre(s, c):
        v = V(c.cur, c.a(0)); ar, n = vec(c, 2, c.cur)
        return v.wf() + v.own(AD) + [('state', And(c.a(1) >= 1, c.a(1) < v.nd)), ('row', And(n >= 1, n < 2**29, vals(ar, n, v.nd)))]
    def post(s, c):
        v = V(c.old, c.a(0)); ar, n = vec(c, 2); q = c.a(1); r = c.res != 0 if not z3.is_bool(c.res) else c.res
        return [('has a row of its own', Implies(r, S(v.df, q) <= 0)), ('has been added, or the row is sparse', Implies(r, Or(z3.Select(AD, q), n - ZC(ar, n) <= 10)))]
    nloops = 1
    def inv(c):
        ar, n = vec(c, 2); a, q = c.v('a'), c.a(1)
        return [('range', And(a >= 1, a <= n)), ('a row of its own', S(V(c.old, c.a(0)).df, q) <= 0), ('differences to a state without row', And(c.v('counter') <= 10, c.v('counter') > 0, Implies(Not(z3.Select(AD, q)), c.v('counter') == 10 - (a - 1 - (ZC(ar, a) - ZC(ar, 1))))))]
    def lem(c):
        ar, n = vec(c, 2); return zc(ar, c.v('a')) + zc(ar, iv(0))
    loops = {0: Loop(inv=inv, lemma=lem)}

class Area(Spec):
    """adds the row of s: the entries that differ from the default D(a) get cells of their own"""
    def D(s, c, v, a): raise NotImplementedError
    def pre(s, c):
        v = V(c.cur, c.a(0)); ar, n = vec(c, 3, c.cur); q = c.a(2)
        return v.wf() + v.own(AD) + [('state', And(q >= 1, q < v.nd, Not(z3.Select(AD, q)))), ('row', And(n >= 1, n < 2**28, vals(ar, n, B31))), ('the table stays below 2^28 cells', And(v.nn < 2**28, v.nd < 2**28))] + s.base(c, v)
    def mods(s, c): return rowmods(c)
    def post(s, c):
        o, v = V(c.old, c.a(0)), V(c.cur, c.a(0)); ar, n = vec(c, 3); q = c.a(2); k, = K('j')
        AD2 = z3.Store(AD, q, T)
        return [('the row is found', FA([k], Implies(And(k >= 1, k < n), v.look(q, k) == S(ar, k)), S(ar, k)))] + kept(o, v, q) + v.wf() + v.own(AD2)
    nloops = 5
    def start(s, c):
        """the table while the place is sought: as before, apart from the default of s and further free cells"""
        o, v = V(c.old, c.a(0)), V(c.cur, c.a(0)); k, = K('k'); q = c.a(2)
        return [('table', And(v.df == z3.Store(o.df, q, s.default(c)), v.bs == o.bs, v.nd == o.nd, v.nb == o.nb, v.bot == o.bot, v.top == o.top, v.nn >= o.nn, v.nc == v.nn, v.nn < 2**29 + 2**28)),
                ('cells', And(FA([k], Implies(And(k >= 0, k < o.nn), And(S(v.ck, k) == S(o.ck, k), S(v.nx, k) == S(o.nx, k))), S(v.ck, k), S(v.nx, k)), FA([k], Implies(And(k >= o.nn, k < v.nn), And(S(v.ck, k) == 0, S(v.nx, k) == 0)), S(v.ck, k), S(v.nx, k))))]
    def inv0(s, c):
        o = V(c.old, c.a(0)); i = c.v('i')
        return [('place', And(i >= 0, i <= o.bot))] + s.start(c)
    def inv1(s, c):
        o = V(c.old, c.a(0)); i, a, off, last = c.v('i'), c.v('a'), c.v('offset'), c.v('last_valid'); ar, n = vec(c, 3); k, = K('j'); f = c.v('is_first'); f = f if z3.is_bool(f) else f != 0
        return [('range', And(a >= 1, Or(a <= n, a == 1))), ('first', (last == -1) == f), ('last', Implies(Not(f), And(last >= 1, last < a, S(ar, last) != s.D(c, o, last), off < i, off >= i - a))),
                ('none yet', Implies(f, FA([k], Implies(And(k >= 1, k < a), S(ar, k) == s.D(c, o, k)), S(ar, k)))),
                ('covered', Implies(Not(f), FA([k], Implies(And(k >= 1, k < a, S(ar, k) != s.D(c, o, k)), And(off + k >= i, k <= last)), S(ar, k))))] + s.start(c)
    def inv2(s, c):
        o, v = V(c.old, c.a(0)), V(c.cur, c.a(0)); a, off = c.v('a'), c.v('offset'); ar, n = vec(c, 3); k, = K('j'); b = c.v('b'); b = b if z3.is_bool(b) else b != 0
        return [('range', And(a >= 1, a <= n, b)), ('free', FA([k], Implies(And(k >= 1, k < a, S(ar, k) != s.D(c, o, k)), S(v.ck, off + k) == 0), S(ar, k), S(v.ck, off + k)))]
    def inv3(s, c):
        o, v, e = V(c.old, c.a(0)), V(c.cur, c.a(0)), V(c.entry, c.a(0)); a, off = c.v('a'), c.v('offset'); ar, n = vec(c, 3); k, = K('k')
        mine = And(k - off >= 1, k - off < a, S(ar, k - off) != s.D(c, o, k - off))
        return [('range', And(a >= 1, a <= n)), ('cells', FA([k], And(S(v.ck, k) == If(mine, c.a(2), S(e.ck, k)), S(v.nx, k) == If(mine, S(ar, k - off), S(e.nx, k))), S(v.ck, k), S(v.nx, k)))]
    def inv4(s, c):
        v, e = V(c.cur, c.a(0)), V(c.entry, c.a(0)); return [('top', And(v.top >= 0, v.top <= v.bot))]
    def mk(s):
        w = lambda f: (lambda c: f(c))
        s.loops = {i: Loop(inv=w(getattr(s, 'inv%d' % i))) for i in range(5)}; return s
class createNewArea(Area):
    name = 'createNewArea'
    def D(s, c, v, a): return c.a(1)
    def default(s, c): return -c.a(1)
    def base(s, c, v): return [('default', And(c.a(1) >= 0, c.a(1) <= v.nd))]
class createLinkArea(Area):
    name = 'createLinkArea'
    def D(s, c, v, a): return v.look(c.a(1), a)
    def default(s, c): return c.a(1)
    def base(s, c, v): b = c.a(1); return [('state to link to', And(b >= 1, b < v.nd, b != c.a(2), S(v.df, b) <= 0, z3.Select(AD, b)))]
class addEdge(Spec):
    """the row of s is found, every other row is found as before"""
    name = 'addEdge'
    def pre(s, c):
        v = V(c.cur, c.a(0)); ar, n = vec(c, 2, c.cur); q, mx = c.a(1), c.a(3); k, = K('k')
        return v.wf() + v.own(AD) + [('state', And(q >= 1, q <= mx, Not(z3.Select(AD, q)), mx < 2**28 - 1)), ('states beyond the vectors have no row', FA([k], Implies(k >= v.nd, Not(z3.Select(AD, k))), z3.Select(AD, k))),
                ('row', And(n >= 1, n < 2**28, vals(ar, n, mx + 1))), ('the table stays below 2^28 cells', And(v.nn < 2**28, v.nd < 2**28))]
    def mods(s, c): return rowmods(c) + [c.a(0).fld('stopState')]
    def post(s, c):
        o, v = V(c.old, c.a(0)), V(c.cur, c.a(0)); ar, n = vec(c, 2); q = c.a(1); k, j = K('j', 'q')
        return [('the row is found', FA([k], Implies(And(k >= 1, k < n), v.look(q, k) == S(ar, k)), S(ar, k))),
                ('every other row is found as before', FA([j, k], Implies(And(j >= 0, j < o.nd, j != q, k >= 0), v.look(j, k) == o.look(j, k)), z3.MultiPattern(S(o.df, j), S(ar, k))))] + v.wf() + v.own(z3.Store(AD, q, T))
    nloops = 1
    def inv(c):
        o, v = V(c.old, c.a(0)), V(c.cur, c.a(0)); i = c.v('i'); e = V(c.entry, c.a(0))
        return [('range', i >= 1)]
    loops = {0: Loop(inv=inv)}
SPECS = [nextState(), getValidSize(), compareState(), createNewArea().mk(), createLinkArea().mk(), addEdge()]
def modules():
    tu = CxxTU(['DFABuilder/src/Lexer/dfa_compressed.cpp'], 'DFACompressed', 'DFACompressed', base=[('stopState', 'std::vector<int>')])
    m = Module(tu, SPECS, buf=()); m.models.update(VECOPS); return m
