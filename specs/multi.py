"""Contracts of multi_stack.h: the speculative query stacks."""
from specs.common import *
from specs import lex, dfa, stream
from specs.dfa import DV, inrange
from specs.stream import TL, TF, MAXTL, SS
from jpv import libc
MAXN, MAXI = 500, 100
NF = ('query_state', 'count', 'matched_start', 'first_tuple_index', 'last_tuple_index')
class MS:
    """view of a QueryStacks"""
    def __init__(v, view, p):
        v.p = p
        g = lambda *f: view.arr(p, *f)
        v.n = {f: g('node', '[]', f) for f in NF}
        v.ps, v.pe, v.rs, v.re = g('node', '[]', 'parent_range', 'start'), g('node', '[]', 'parent_range', 'end'), g('node', '[]', 'root_range', 'start'), g('node', '[]', 'root_range', 'end')
        v.st, v.cnt, v.ms, v.ft, v.lt = [v.n[f] for f in NF]
        v.nn, v.npp, v.nrp, v.top = [view.get(p, f) for f in ('num_node', 'num_parent_pointers', 'num_root_pointers', 'top_item')]
        v.pp, v.rp = g('parent_pointers', '[]'), g('root_pointers', '[]')
        v.is_, v.ie = g('item', '[]', 'start'), g('item', '[]', 'end')
        v.allnode = [v.n[f] for f in NF] + [v.ps, v.pe, v.rs, v.re]
    def wf(v):
        k, = K('w')
        return And(v.nn >= 0, v.nn <= MAXN, v.npp >= 0, v.npp <= MAXN, v.nrp >= 0, v.nrp <= MAXN, v.top >= -1, v.top < MAXI,
                   FA([k], Implies(And(k >= 0, k < v.nrp), And(S(v.rp, k) >= 0, S(v.rp, k) < MAXN)), S(v.rp, k)))
    def level(v, a, b):
        """[a, b] is the last level of the tree"""
        return And(a >= 0, a <= b, b < MAXN, v.nn == b + 1, v.npp == S(v.pe, b) + 1, v.nrp == S(v.re, b) + 1)
    def item(v, i): return S(v.is_, i), S(v.ie, i)
def rng(sv): return sv.leaves[('start',)], sv.leaves[('end',)]
def isroot(v, i): return S(v.re, i) == -1
def RL(v, i): return If(isroot(v, i), 1, S(v.re, i) - S(v.rs, i) + 1)
def pres(n, o, hi, what):
    """arrays in what agree below hi"""
    k, = K('p'); return And(*[FA([k], Implies(And(k >= 0, k < hi), S(x, k) == S(y, k)), S(x, k)) for x, y in zip(what(n), what(o))])

class initQueryStacks(Spec):
    """one root node per start state"""
    name = 'initQueryStacks'
    def pre(s, c): return [('start states', And(c.a(2) >= 0, c.a(2) <= MAXN))]
    def setup(s, c): c.a(1).root.sizes[0] = c.a(2)
    def mods(s, c): return [c.a(0)]
    def lv(s, c, n):
        v = MS(c.cur, c.a(0)); ar, o = c.cur.chars(c.a(1)); k, = K('i')
        return FA([k], Implies(And(k >= 0, k < n), And(S(v.st, k) == S(ar, o + k), S(v.cnt, k) == 0, S(v.ms, k) == -1, S(v.ps, k) == 0, S(v.pe, k) == -1, S(v.rs, k) == 0, S(v.re, k) == -1, S(v.ft, k) == -1, S(v.lt, k) == -1)), S(v.st, k), S(v.pe, k), S(v.re, k), S(v.rs, k))
    def post(s, c):
        v = MS(c.cur, c.a(0)); n = c.a(2); r = rng(c.res)
        return [('one fresh root for every start state', s.lv(c, n)), ('nothing else', And(v.nn == n, v.npp == 0, v.nrp == 0, v.top == -1)), ('the current level', And(r[0] == 0, r[1] == n - 1))]
    nloops = 1
    def inv(c):
        i = c.v('i'); v = MS(c.cur, c.a(0)); n = c.a(2)
        return [('range', And(i >= 0, i <= n, v.nn == i, v.npp == 0, v.nrp == 0, v.top == -1)), ('roots', initQueryStacks.lv(None, c, i))]
    loops = {0: Loop(inv=inv)}

class queryStacksPop(Spec):
    """back to the level on top of the stack"""
    name = 'queryStacksPop'; modular = False
    def pre(s, c):
        v = MS(c.cur, c.a(0)); t = v.item(v.top)
        return [('stacks', v.wf()), ('saved level', Implies(v.top >= 0, And(t[0] >= 0, t[0] <= t[1], t[1] < v.nn, S(v.pe, t[1]) >= -1, S(v.pe, t[1]) < MAXN, S(v.re, t[1]) >= -1, S(v.re, t[1]) < v.nrp)))]
    def mods(s, c): return [c.a(0).fld(f) for f in ('num_node', 'num_parent_pointers', 'num_root_pointers', 'top_item')]
    def post(s, c):
        o, n = MS(c.old, c.a(0)), MS(c.cur, c.a(0)); r = rng(c.res); t = o.item(o.top); ne = o.top >= 0
        return [('the saved level is current again', Implies(ne, And(r[0] == t[0], r[1] == t[1], n.top == o.top - 1))), ('exactly its nodes and pointers are left', Implies(ne, n.level(*t))), ('stacks', n.wf()),
                ('empty: nothing to restore', Implies(Not(ne), And(r[1] == -1, n.top == o.top, n.nn == o.nn, n.npp == o.npp, n.nrp == o.nrp)))]
class queryStacksTop(Spec):
    name = 'queryStacksTop'; modular = False
    def pre(s, c): return [('stacks', MS(c.cur, c.a(0)).wf())]
    def post(s, c):
        o = MS(c.old, c.a(0)); r = rng(c.res); t = o.item(o.top)
        return [('top', Implies(o.top >= 0, And(r[0] == t[0], r[1] == t[1]))), ('empty', Implies(o.top < 0, r[1] == -1))]
class queryStacksSecondTop(Spec):
    name = 'queryStacksSecondTop'; modular = False
    def pre(s, c): return [('stacks', MS(c.cur, c.a(0)).wf())]
    def post(s, c):
        o = MS(c.old, c.a(0)); r = rng(c.res); t = o.item(o.top - 1)
        return [('second', Implies(o.top >= 1, And(r[0] == t[0], r[1] == t[1]))), ('none', Implies(o.top < 1, r[1] == -1))]
class queryStacksTopUpdate(Spec):
    name = 'queryStacksTopUpdate'; modular = False
    def pre(s, c):
        v = MS(c.cur, c.a(0)); return [('not empty', And(v.top >= 0, v.top < MAXI))]
    def mods(s, c): return [('leaf', c.a(0).fld('item'))] if False else [('leaf', c.a(0).fld('item', iv(0), 'start')), ('leaf', c.a(0).fld('item', iv(0), 'end'))]
    def post(s, c):
        o, n = MS(c.old, c.a(0)), MS(c.cur, c.a(0)); r = rng(c.a(1))
        return [('replaced', And(n.is_ == z3.Store(o.is_, o.top, r[0]), n.ie == z3.Store(o.ie, o.top, r[1])))]

class pruneQueryPaths(Spec):
    """keeps the listed root nodes, in their order (an empty list keeps all)"""
    name = 'pruneQueryPaths'
    def setup(s, c): c.a(1).root.sizes[0] = If(c.a(2) > 0, c.a(2), 0)
    def pre(s, c):
        v = MS(c.cur, c.a(0)); ar, o = c.cur.chars(c.a(1)); k, = K('i')
        return [('nodes', And(v.nn >= 0, v.nn <= MAXN, c.a(2) <= v.nn, FA([k], Implies(And(k >= 0, k < c.a(2)), And(S(ar, o + k) >= 0, S(ar, o + k) < v.nn)), S(ar, o + k))))]
    def mods(s, c): return [c.a(0).fld('num_node')] + [('leaf', c.a(0).fld('node', iv(0), f)) for f in NF] + [('leaf', c.a(0).fld('node', iv(0), r, f)) for r in ('parent_range', 'root_range') for f in ('start', 'end')]
    def lv(s, c, n):
        v, o = MS(c.cur, c.a(0)), MS(c.old, c.a(0)); ar, f = c.cur.chars(c.a(1)); k, = K('i')
        return FA([k], Implies(And(k >= 0, k < n), And(*[S(x, k) == S(y, S(ar, f + k)) for x, y in zip(v.allnode, o.allnode)])), S(v.st, k), S(v.pe, k), S(v.re, k), S(v.rs, k))
    def post(s, c):
        o, v = MS(c.old, c.a(0)), MS(c.cur, c.a(0)); n = c.a(2); r = rng(c.res)
        return [('no list: all kept', Implies(n <= 0, And(r[0] == 0, r[1] == o.nn - 1, v.nn == o.nn, *[x == y for x, y in zip(v.allnode, o.allnode)]))),
                ('exactly the listed nodes are kept', Implies(n > 0, And(s.lv(c, n), v.nn == n, r[0] == 0, r[1] == n - 1)))]
    nloops = 1
    def inv(c):
        i = c.v('i'); v = MS(c.cur, c.a(0))
        back = MS(c.cur, c.vp('back_qs')); o = MS(c.old, c.a(0))
        return [('range', And(i >= 0, i <= c.a(2), v.nn == i)), ('copied', pruneQueryPaths.lv(None, c, i))]
    loops = {0: Loop(inv=inv)}

# ---------------------------------------------------------------- push
class PUSH:
    """the level reached from the level [a, b] of `o`: state NX(i) of each node, and by recursion over i
    IX(s, i): node of state s after the nodes a..i-1 (or -1), D(i): number of new nodes, PC(s, i): parents of s among a..i-1, RC(s, i): their roots"""
    def __init__(v, c):
        sfx = '' if not c.call else str(c.ex.fresh('push')); v.o = o = MS(c.old, c.a(0)); v.a, v.b = rng(c.a(1)); v.B = v.b + 1
        v.d = DV(c.old, c.a(2)); v.key = c.a(3)
        f = lambda n, *s: z3.Function(n + sfx, *s)
        v.NX = f('NX', INT, INT); v.IX = f('IX', INT, INT, INT); v.D = f('D', INT, INT); v.PC = f('PC', INT, INT, INT); v.RC = f('RC', INT, INT, INT)
        p = v.key; v.nul = T if p.root is None else Z(p.null)
        v.kid = libc.cid(c.ex, p) if p.root is not None else None
    def nx(v, i):
        o, d = v.o, v.d; q = S(o.st, i); lo, up = z3.Select(d.lo, q), z3.Select(d.up, q); n = S(o.cnt, i)
        ok = Or(And(lo == 0, up == 0), And(n < up, Or(isroot(o, i), n >= lo)))
        t = d.next_array(q) if v.kid is None else If(v.nul, d.next_array(q), d.next(q, v.kid))
        return If(ok, t, 0)
    def base(v):
        s, = K('s'); a = v.a
        return [FA([s], And(v.IX(s, a) == -1, v.PC(s, a) == 0, v.RC(s, a) == 0), m) for m in ()] + \
               [FA([s], v.IX(s, a) == -1, v.IX(s, a)), FA([s], v.PC(s, a) == 0, v.PC(s, a)), FA([s], v.RC(s, a) == 0, v.RC(s, a)), v.D(a) == 0]
    def step(v, i):
        s, = K('s'); n = v.NX(i); j = z3.simplify(i + 1)
        new = v.IX(n, i) == -1
        return [n == v.nx(i), v.D(j) == v.D(i) + If(new, 1, 0)] + [
            FA([s], v.IX(s, j) == If(And(n == s, new), v.b + 1 + v.D(i), v.IX(s, i)), v.IX(s, j)),
            FA([s], v.PC(s, j) == v.PC(s, i) + If(n == s, 1, 0), v.PC(s, j)),
            FA([s], v.RC(s, j) == v.RC(s, i) + If(n == s, RL(v.o, i), 0), v.RC(s, j)),
            v.IX(n, j) == If(new, v.b + 1 + v.D(i), v.IX(n, i)), v.PC(n, j) == v.PC(n, i) + 1, v.RC(n, j) == v.RC(n, i) + RL(v.o, i)]
class queryStacksPush(Spec):
    """saves the current level and moves every one of its states along a key (NULL: into an array)"""
    name = 'queryStacksPush'
    def setup(s, c):
        s2 = c.args; c.args = [c.a(2)]; dfa.dfa_setup(s, c); c.args = s2
        p = c.a(3); c.args[3] = Ptr(p.root, p.path, z3.Bool('key_is_null'))
    def pre(s, c):
        v = MS(c.cur, c.a(0)); a, b = rng(c.a(1)); d = DV(c.cur, c.a(2)); k, q = K('i', 'q')
        P = PUSH(c) if c.call else PUSH(_old(c))
        return d.wf() + [('automaton table', And(d.N * d.n < 2**31, d.N <= MAXN)), ('stacks', v.wf()), ('the current level is the last', v.level(a, b)), ('room in the stack', v.top < MAXI - 1),
                ('room for the nodes', v.nn + (b - a + 1) <= MAXN),
                ('states', FA([k], Implies(And(k >= a, k <= b), And(inrange(d, S(v.st, k)), Or(isroot(v, k), And(S(v.rs, k) >= 0, S(v.rs, k) <= S(v.re, k), S(v.re, k) < v.nrp)))), S(v.st, k)))] + \
               ([] if c.call else [('room for the roots', FA([q, k], And(P.RC(q, k) >= 0, P.RC(q, k) <= MAXN), P.RC(q, k)))])
    def mods(s, c): return [c.a(0)]
    def lemma(s, c):
        P = PUSH(c); return P.base()
    @staticmethod
    def rows(c, P, i, e):
        """what the temporary tables hold after the nodes a..i-1"""
        g = lambda n, *d: c.cur.arr(c.vp(n), *d)
        pl, npl, rl, nrl = g('parent_pointer', '[]', '[]'), g('num_parent_pointer', '[]'), g('root_pointer', '[]', '[]'), g('num_root_pointer', '[]')
        k, q, m = K('i', 'q', 'm'); o = P.o; n = P.NX(k)
        return pl, npl, rl, nrl
    def post(s, c):
        P = PUSH(c); o, v = P.o, MS(c.cur, c.a(0)); r = rng(c.res); k, q, m = K('i', 'q', 'm'); B = P.B; e = r[1]
        n = P.NX(k); J = P.IX(n, B)
        return [('the current level is saved', And(v.top == o.top + 1, v.is_ == z3.Store(o.is_, o.top + 1, P.a), v.ie == z3.Store(o.ie, o.top + 1, P.b))),
                ('the new level follows', And(r[0] == P.b + 1, e == P.b + P.D(B))), ('the new level is the last', v.level(r[0], e)),
                ('one fresh node for each state', FA([k], Implies(And(k > P.b, k <= e), And(inrange(P.d, S(v.st, k)), S(v.cnt, k) == 0, S(v.ms, k) == -1, P.IX(S(v.st, k), B) == k)), S(v.st, k))),
                ('every state moves on', FA([k], Implies(And(k >= P.a, k <= P.b), And(J > P.b, J <= e, S(v.st, J) == n)), n)),
                ('each node has exactly its parents', FA([k], Implies(And(k > P.b, k <= e), S(v.pe, k) - S(v.ps, k) + 1 == P.PC(S(v.st, k), B)), S(v.st, k))),
                ('every parent is linked', FA([k], Implies(And(k >= P.a, k <= P.b), And(S(v.pp, S(v.ps, J) + P.PC(n, k)) == k, P.PC(n, k) < P.PC(n, B), P.PC(n, k) >= 0)), n)),
                ('each node has exactly its roots', FA([k], Implies(And(k > P.b, k <= e), S(v.re, k) - S(v.rs, k) + 1 == P.RC(S(v.st, k), B)), S(v.st, k))),
                ('every start state is linked', FA([k], Implies(And(k >= P.a, k <= P.b, isroot(o, k)), And(S(v.rp, S(v.rs, J) + P.RC(n, k)) == k, P.RC(n, k) < P.RC(n, B))), n)),
                ('the roots of the parents are linked', FA([k, m], Implies(And(k >= P.a, k <= P.b, Not(isroot(o, k)), m >= S(o.rs, k), m <= S(o.re, k)), And(S(v.rp, S(v.rs, J) + P.RC(n, k) + m - S(o.rs, k)) == S(o.rp, m), P.RC(n, k) + RL(o, k) <= P.RC(n, B))), z3.MultiPattern(n, S(o.rp, m)))),
                ('links lie in the tables', FA([k], Implies(And(k > P.b, k <= e), And(S(v.ps, k) >= o.npp, S(v.ps, k) <= S(v.pe, k), S(v.pe, k) < v.npp, S(v.rs, k) >= o.nrp, S(v.rs, k) <= S(v.re, k), S(v.re, k) < v.nrp)), S(v.re, k), S(v.pe, k), S(v.rs, k))),
                ('earlier levels are kept', pres(v, o, P.B, lambda x: x.allnode)), ('earlier pointers are kept', And(pres(v, o, o.npp, lambda x: [x.pp]), pres(v, o, o.nrp, lambda x: [x.rp]))), ('stacks', v.wf())]
    nloops = 7
    def lem0(c):
        P = PUSH(c); return P.base() + P.step(c.v('i'))
    def end(c, P):
        r = rng(c.v('next_qs_elt')); return r[0], r[1], If(r[1] == -1, P.b, r[1])
    def common(c, P, i, st, en, e):
        o, v = P.o, MS(c.cur, c.a(0)); k, q, m = K('i', 'q', 'm'); n = P.NX(k)
        pl, npl, rl, nrl = queryStacksPush.rows(c, P, i, e)
        return [('the new level', And(st == P.b + 1, Or(en == -1, en >= st), v.nn == e + 1, P.D(i) == e - P.b, e - P.b <= i - P.a, (en == -1) == (i == P.a))),
                ('earlier levels', pres(v, o, P.B, lambda x: x.allnode)),
                ('fresh nodes', FA([k], Implies(And(k > P.b, k <= e), And(inrange(P.d, S(v.st, k)), S(v.cnt, k) == 0, S(v.ms, k) == -1, P.IX(S(v.st, k), i) == k)), S(v.st, k))),
                ('node of each state', FA([q], And(Or(P.IX(q, i) == -1, And(P.IX(q, i) > P.b, P.IX(q, i) <= e, S(v.st, P.IX(q, i)) == q)), (P.IX(q, i) != -1) == (P.PC(q, i) > 0), P.PC(q, i) >= 0, P.PC(q, i) <= i - P.a, P.RC(q, i) >= 0, (P.IX(q, i) == -1) == (P.RC(q, i) == 0)), P.IX(q, i))),
                ('lengths', FA([q], Implies(P.IX(q, i) != -1, And(S(npl, q) == P.PC(q, i), S(nrl, q) == P.RC(q, i))), P.IX(q, i))),
                ('moved on', FA([k], Implies(And(k >= P.a, k < i), And(P.IX(n, i) != -1, P.PC(n, k) >= 0, P.PC(n, k) < P.PC(n, i), S(S(pl, n), P.PC(n, k)) == k)), n)),
                ('places of the roots', FA([k], Implies(And(k >= P.a, k < i), And(P.RC(n, k) >= 0, P.RC(n, k) + RL(o, k) <= P.RC(n, i))), n)),
                ('start states', FA([k], Implies(And(k >= P.a, k < i, isroot(o, k)), S(S(rl, n), P.RC(n, k)) == k), n)),
                ('inherited roots', FA([k, m], Implies(And(k >= P.a, k < i, Not(isroot(o, k)), m >= S(o.rs, k), m <= S(o.re, k)), S(S(rl, n), P.RC(n, k) + m - S(o.rs, k)) == S(o.rp, m)), z3.MultiPattern(n, S(o.rp, m)))),
                ('roots are nodes', FA([q, m], Implies(And(P.IX(q, i) != -1, m >= 0, m < P.RC(q, i)), And(S(S(rl, q), m) >= 0, S(S(rl, q), m) < MAXN)), S(S(rl, q), m)))]
    def inv0(c):
        P = PUSH(c); i = c.v('i'); st, en, e = queryStacksPush.end(c, P)
        return [('range', And(i >= P.a, i <= P.b + 1))] + queryStacksPush.common(c, P, i, st, en, e)
    def inv1(c):
        P = PUSH(c); v = MS(c.cur, c.a(0)); j, nx = c.v('j'), c.v('next_state'); st, en, e = queryStacksPush.end(c, P); k, = K('j')
        return [('range', And(j >= st, j <= e + 1)), ('not found', FA([k], Implies(And(k >= st, k < j), S(v.st, k) != nx), S(v.st, k)))]
    def inv2(c):
        P = PUSH(c); o = P.o; i, k, s = c.v('i'), c.v('k'), c.v('next_state'); m, q = K('m', 'q')
        g = lambda w, n, *d: w.arr(c.vp(n), *d)
        rl, nrl, rl0, nrl0 = g(c.cur, 'root_pointer', '[]', '[]'), g(c.cur, 'num_root_pointer', '[]'), g(c.entry, 'root_pointer', '[]', '[]'), g(c.entry, 'num_root_pointer', '[]')
        r0 = P.RC(s, i)
        return [('range', And(k >= S(o.rs, i), k <= S(o.re, i) + 1, S(nrl, s) == r0 + k - S(o.rs, i), nrl == z3.Store(nrl0, s, S(nrl, s)))), ('other lists', rl == z3.Store(rl0, s, S(rl, s))),
                ('list', FA([m], Implies(And(m >= 0, m < r0), S(S(rl, s), m) == S(S(rl0, s), m)), S(S(rl, s), m))),
                ('inherited', FA([m], Implies(And(m >= S(o.rs, i), m < k), S(S(rl, s), r0 + m - S(o.rs, i)) == S(o.rp, m)), S(o.rp, m))),
                ('nodes', FA([m], Implies(And(m >= r0, m < r0 + k - S(o.rs, i)), And(S(S(rl, s), m) >= 0, S(S(rl, s), m) < MAXN)), S(S(rl, s), m)))]
    def inv4(c):
        P = PUSH(c); o, v = P.o, MS(c.cur, c.a(0)); i = c.v('i'); st, en, e = queryStacksPush.end(c, P); B = P.B; k, m = K('i', 'm')
        pl, npl, rl, nrl = queryStacksPush.rows(c, P, B, e)
        x = S(v.st, k)
        return [('range', And(i >= st, i <= e + 1, v.npp >= o.npp, v.nrp >= o.nrp, v.npp <= MAXN, v.nrp <= MAXN)), ('last', And(v.npp == If(i == st, o.npp, S(v.pe, i - 1) + 1), v.nrp == If(i == st, o.nrp, S(v.re, i - 1) + 1))),
                ('parents', FA([k], Implies(And(k >= st, k < i), And(S(v.ps, k) >= o.npp, S(v.pe, k) - S(v.ps, k) + 1 == P.PC(x, B), S(v.pe, k) < v.npp)), S(v.pe, k), S(v.ps, k))),
                ('roots', FA([k], Implies(And(k >= st, k < i), And(S(v.rs, k) >= o.nrp, S(v.re, k) - S(v.rs, k) + 1 == P.RC(x, B), S(v.re, k) < v.nrp)), S(v.re, k), S(v.rs, k))),
                ('parent list', FA([k, m], Implies(And(k >= st, k < i, m >= 0, m < P.PC(x, B)), S(v.pp, S(v.ps, k) + m) == S(S(pl, x), m)), z3.MultiPattern(S(v.ps, k), S(S(pl, x), m)))),
                ('root list', FA([k, m], Implies(And(k >= st, k < i, m >= 0, m < P.RC(x, B)), S(v.rp, S(v.rs, k) + m) == S(S(rl, x), m)), z3.MultiPattern(S(v.rs, k), S(S(rl, x), m)))),
                ('earlier pointers', And(pres(v, o, o.npp, lambda z: [z.pp]), pres(v, o, o.nrp, lambda z: [z.rp]))),
                ('earlier levels', pres(v, o, P.B, lambda z: [z.ps, z.pe, z.rs, z.re])),
                ('roots are nodes', FA([k], Implies(And(k >= 0, k < v.nrp), And(S(v.rp, k) >= 0, S(v.rp, k) < MAXN)), S(v.rp, k)))]
    def inner(num, ptr, start, end, tab, cnt, vals):
        def inv(c):
            P = PUSH(c); v, h = MS(c.cur, c.a(0)), MS(c.entry, c.a(0)); i, j, s = c.v('i'), c.v('j'), c.v('query_state'); k, = K('k')
            t = c.cur.arr(c.vp(tab), '[]', '[]'); N, N0 = getattr(v, num), getattr(h, num); a, a0 = getattr(v, ptr), getattr(h, ptr); en, en0 = getattr(v, end), getattr(h, end)
            o = [('range', And(j >= 0, j <= getattr(P, cnt)(s, P.B), N == N0 + j, en == z3.Store(en0, i, N0 + j - 1))), ('below', pres(v, h, N0, lambda x: [getattr(x, ptr)])),
                 ('list', FA([k], Implies(And(k >= 0, k < j), S(a, N0 + k) == S(S(t, s), k)), S(S(t, s), k)))]
            if vals: o.append(('nodes', FA([k], Implies(And(k >= 0, k < N), And(S(a, k) >= 0, S(a, k) < MAXN)), S(a, k))))
            return o
        return inv
    def room(f):
        def g(c): return [('the pointer tables have room (MAX_NODE)', getattr(MS(c.cur, c.a(0)), f) < MAXN)]
        return g
    def lem4(c):
        return PUSH(c).base()
    loops = {0: Loop(inv=inv0, lemma=lem0), 1: Loop(inv=inv1), 2: Loop(inv=inv2), 3: Loop(inv=inv2), 4: Loop(inv=inv4),
             5: Loop(inv=inner('npp', 'pp', 'ps', 'pe', 'parent_pointer', 'PC', False), assume=room('npp')), 6: Loop(inv=inner('nrp', 'rp', 'rs', 're', 'root_pointer', 'RC', True), assume=room('nrp'))}
class _old:
    """the state at entry is the old state"""
    def __init__(s, c): s.c = c; s.old = c.cur; s.call = c.call; s.ex = c.ex
    def a(s, i): return s.c.a(i)

# ---------------------------------------------------------------- results of speculative paths
class RES:
    """one result recorded for every start state that reaches node i: root R(k), k < n"""
    def __init__(v, c):
        v.o = MS(c.old, c.a(0)); v.t = TL(c.old, c.a(v.TLARG)); v.i = c.a(1); v.root = isroot(v.o, v.i); v.rs = S(v.o.rs, v.i); v.n = RL(v.o, v.i)
        sfx = '' if not c.call else str(c.ex.fresh('res'))
        v.POS = z3.Function('POS' + sfx, INT, INT); v.OWN = z3.Function('OWN' + sfx, INT, INT); v.c0 = v.t.count
    def R(v, k): return If(v.root, v.i, S(v.o.rp, v.rs + k))
    def among(v, r, m): return And(v.POS(r) >= 0, v.POS(r) < m, v.R(v.POS(r)) == r)
    def done(v, c, cur, tl, m):
        """effect of the first m roots"""
        o, t, c0 = v.o, v.t, v.c0; r, k, x = K('r', 'k', 'x')
        ow = v.OWN(x)
        return [('tuples', tl.count == c0 + m),
                ('first results', FA([r], S(cur.ft, r) == If(And(v.among(r, m), S(o.ft, r) < 0), c0 + 1 + v.POS(r), S(o.ft, r)), S(cur.ft, r))),
                ('last results', FA([r], S(cur.lt, r) == If(v.among(r, m), c0 + 1 + v.POS(r), S(o.lt, r)), S(cur.lt, r))),
                ('new tuples', FA([k], Implies(And(k > c0, k <= c0 + m), And(*(v.entry(c, tl, k) + [S(tl.f['next_index'], k) == -1]))), S(tl.f['next_index'], k), S(tl.f['state'], k))),
                ('links', FA([x], Implies(And(x >= 0, x <= c0), S(tl.f['next_index'], x) == If(And(v.among(ow, m), S(o.ft, ow) >= 0, S(o.lt, ow) == x), c0 + 1 + v.POS(ow), S(t.f['next_index'], x))), S(tl.f['next_index'], x))),
                ('earlier tuples', FA([x], Implies(And(x >= 0, x <= c0), And(*[S(a, x) == S(b, x) for a, b in v.kept(tl)])), *[S(a, x) for a, b in v.kept(tl)]))]
class RESL(RES):
    TLARG = 4
    def entry(v, c, tl, k): return [S(tl.f['state'], k) == c.a(2), S(tl.f['start_position'], k) == -1, libc.CID(tl.txt(k), iv(0)) == libc.cid(c.ex, c.a(3))]
    def kept(v, tl): return [(tl.f['state'], v.t.f['state']), (tl.f['start_position'], v.t.f['start_position']), (tl.text, v.t.text)]
class RESV(RES):
    TLARG = 5
    def entry(v, c, tl, k): return [S(tl.f['state'], k) == c.a(2), S(tl.f['start_position'], k) == c.a(3), S(tl.f['end_position'], k) == c.a(4)]
    def kept(v, tl): return [(tl.f[f], v.t.f[f]) for f in ('state', 'start_position', 'end_position')]
class addTupleInfo(Spec):
    """a result is recorded, in order, for exactly the start states under which it is a match"""
    name = 'addTupleInfo'; RS = RESL
    def pre(s, c):
        v = MS(c.cur, c.a(0)); P = s.RS(c if c.call else _old(c)); r, k = K('r', 'k'); t = P.t
        o = [('stacks', v.wf()), ('node', And(P.i >= 0, P.i < v.nn, S(v.rs, P.i) >= 0, Or(P.root, And(S(v.rs, P.i) <= S(v.re, P.i), S(v.re, P.i) < v.nrp)))),
             ('room', And(t.count >= -1, t.count < MAXTL - 2 * MAXN)), ('recorded results', FA([r], Implies(S(v.ft, r) >= 0, And(S(v.lt, r) >= 0, S(v.lt, r) <= t.count)), S(v.lt, r)))]
        if not c.call: o += [('every start state once', FA([k], Implies(And(k >= 0, k < P.n), P.POS(P.R(k)) == k), S(v.rp, P.rs + k)) if False else And(Implies(P.root, P.POS(P.i) == 0), FA([k], Implies(And(Not(P.root), k >= P.rs, k < P.rs + P.n), P.POS(S(v.rp, k)) == k - P.rs), S(v.rp, k)))),
                             ('separate lists', FA([r], Implies(S(v.ft, r) >= 0, P.OWN(S(v.lt, r)) == r), S(v.lt, r)))]
        return o + s.textpre(c)
    def textpre(s, c): return [('text fits a tuple', libc.slen(c.ex, c.a(3)) < 998)]
    def mods(s, c):
        q, p = c.a(0), c.a(s.RS.TLARG)
        return [('leaf', q.fld('node', iv(0), f)) for f in ('first_tuple_index', 'last_tuple_index')] + [p.fld('count')] + [('leaf', p.fld('element', iv(0), f)) for f in TF] + [('leaf', p.fld('element', iv(0), 'text', iv(0)))]
    def post(s, c):
        P = s.RS(c); return P.done(c, MS(c.cur, c.a(0)), TL(c.cur, c.a(P.TLARG)), P.n)
    nloops = 1
    def mkinv(RS):
        def inv(c):
            P = RS(c); i = c.v('root_s'); m = i - P.rs
            return [('range', And(i >= P.rs, Implies(P.root, i == P.rs), i <= If(P.root, i, S(P.o.re, P.i) + 1)))] + P.done(c, MS(c.cur, c.a(0)), TL(c.cur, c.a(P.TLARG)), If(P.root, 0, m))
        return inv
    loops = {0: Loop(inv=mkinv(RESL))}
class addVirtualTupleInfo(addTupleInfo):
    name = 'addVirtualTupleInfo'; RS = RESV
    def textpre(s, c): return []
    loops = {0: Loop(inv=addTupleInfo.mkinv(RESV))}

# ---------------------------------------------------------------- merging
class CMB:
    def __init__(v, c):
        v.d, v.q = MS(c.old, c.a(0)), MS(c.old, c.a(2)); sv = lambda p: (c.old.get(p, 'start'), c.old.get(p, 'end')); v.de, v.qe = sv(c.a(1)), sv(c.a(3))
        v.T = v.q.top + 1; v.IS, v.IE = z3.Store(v.q.is_, v.T, v.qe[0]), z3.Store(v.q.ie, v.T, v.qe[1]); v.s0 = S(v.d.st, v.de[0])
        sfx = '' if not c.call else str(c.ex.fresh('cmb'))
        v.RI = z3.Int('RI' + sfx); v.W = z3.Function('W' + sfx, INT, INT); v.P = z3.Function('P' + sfx, INT, INT)
        v.found = v.RI != -1; pend = S(v.q.ms, v.RI)      # a match pending at the start state is pending at the current state
        v.ms = If(And(v.found, pend != -1), z3.Store(v.d.ms, v.de[0], pend), v.d.ms)
    def rootdef(v):
        j, = K('j'); q = v.q; no = lambda hi: FA([j], Implies(And(j >= S(v.IS, 0), j < hi), S(q.st, j) != v.s0), S(q.st, j))
        return Or(And(v.RI == -1, no(S(v.IE, 0) + 1)), And(v.RI >= S(v.IS, 0), v.RI <= S(v.IE, 0), S(q.st, v.RI) == v.s0, no(v.RI)))
    def pathdef(v):
        l, j, m = K('l', 'j', 'm'); q, W = v.q, v.W(l)
        return Implies(v.found, And(FA([l], Implies(And(l >= 1, l <= v.T), And(W >= S(v.IS, l), W <= S(v.IE, l), v.P(l) >= S(q.rs, W), v.P(l) <= S(q.re, W), S(q.rp, v.P(l)) == v.RI)), W),
                FA([l, j, m], Implies(And(l >= 1, l <= v.T, j >= S(v.IS, l), j < W, m >= S(q.rs, j), m <= S(q.re, j)), S(q.rp, m) != v.RI), z3.MultiPattern(W, S(q.rs, j), S(q.rp, m)))))
    def done(v, cur, elt, n):
        """the levels 1..n are appended"""
        d, q = v.d, v.q; l, = K('l'); w = v.W(l); x = lambda a, i: S(a, i)
        return [('size', And(cur.top == d.top + n, cur.nn == d.nn + n)), ('current level', And(*[e == If(n == 0, e0, d.nn + n - 1) for e, e0 in zip(elt, v.de)])),
                ('saved levels', FA([l], Implies(And(l >= 1, l <= n), And(S(cur.is_, d.top + l) == If(l == 1, v.de[0], d.nn + l - 2), S(cur.ie, d.top + l) == If(l == 1, v.de[1], d.nn + l - 2))), v.W(l))),
                ('states, counts and pending matches of the path', FA([l], Implies(And(l >= 1, l <= n), And(*[S(cur.n[f], d.nn + l - 1) == S(q.n[f], w) for f in NF[:3]])), w)),
                ('earlier nodes', pres(cur, d, d.nn, lambda z: [z.st, z.cnt, v.ms if z is d else z.ms])), ('earlier levels', pres(cur, d, d.top + 1, lambda z: [z.is_, z.ie]))]
class combineQueryStacks(Spec):
    """appends the levels of src that descend from the current state of dst, and hands over the match pending at that state"""
    name = 'combineQueryStacks'
    def pre(s, c):
        v = CMB(c if c.call else _old(c)); k, = K('k'); d, q = v.d, v.q
        o = [('room', And(d.top >= -1, q.top >= -1, q.top + 1 < MAXI, d.top + q.top + 1 < MAXI - 1, d.nn >= 0, d.nn + q.top + 1 <= MAXN)), ('current state', And(v.de[0] >= 0, v.de[0] < v.d.nn, v.d.nn <= MAXN)),
             ('levels', FA([k], Implies(And(k >= 0, k <= v.T), And(S(v.IS, k) >= 0, S(v.IS, k) <= S(v.IE, k), S(v.IE, k) < MAXN)), S(q.is_, k), S(v.IS, k))),
             ('pointers', FA([k], And(S(q.rs, k) >= 0, S(q.re, k) < MAXN), S(q.rs, k), S(q.re, k)))]
        return o if c.call else o + [('start state', v.rootdef()), ('each level has one node of the path', v.pathdef())]
    def mods(s, c): return [c.a(0), c.a(1), c.a(2).fld('top_item'), ('leaf', c.a(2).fld('item', iv(0), 'start')), ('leaf', c.a(2).fld('item', iv(0), 'end'))]
    def elt(c): return (c.cur.get(c.a(1), 'start'), c.cur.get(c.a(1), 'end'))
    def post(s, c):
        v = CMB(c); cur = MS(c.cur, c.a(0)); e = combineQueryStacks.elt(c)
        return [('%s%s' % (lab, w), Implies(g, f)) for w, g, n in ((' of the path', v.found, v.T), (' without a path', Not(v.found), iv(0))) for lab, f in v.done(cur, e, n)]
    nloops = 4
    def srcsame(c):
        v = CMB(c); q = MS(c.cur, c.a(2)); return ('source', And(q.top == v.T, q.is_ == v.IS, q.ie == v.IE))
    def inv0(c):
        v = CMB(c); k = c.v('root_start'); j, = K('j')
        return [('range', And(k >= S(v.IS, 0), k <= S(v.IE, 0) + 1, c.v('root_end') == S(v.IE, 0), c.v('root_index') == -1)), ('not found', FA([j], Implies(And(j >= S(v.IS, 0), j < k), S(v.q.st, j) != v.s0), S(v.q.st, j)))]
    def inv1(c):
        v = CMB(c); i = c.v('i')
        return [('range', And(i >= 1, i <= v.T + 1, c.v('root_index') == v.RI, v.found, v.T >= 0)), combineQueryStacks.srcsame(c)] + v.done(MS(c.cur, c.a(0)), combineQueryStacks.elt(c), If(i == 1, 0, i - 1) if False else i - 1)
    def inv2(c):
        v = CMB(c); i, st = c.v('i'), c.v('start'); return [('range', And(st >= S(v.IS, i), st <= v.W(i), c.v('end') == S(v.IE, i)))]
    def inv3(c):
        v = CMB(c); st, k = c.v('start'), c.v('root_start'); m, = K('m')
        return [('range', And(k >= S(v.q.rs, st), k <= If(S(v.q.re, st) + 1 >= S(v.q.rs, st), S(v.q.re, st) + 1, k), c.v('root_end') == S(v.q.re, st))), ('not found', FA([m], Implies(And(m >= S(v.q.rs, st), m < k), S(v.q.rp, m) != v.RI), S(v.q.rp, m)))]
    def lem2(c):
        v = CMB(c); i = c.v('i'); return [v.P(i) == v.P(i), v.W(i) == v.W(i)]
    loops = {0: Loop(inv=inv0), 1: Loop(inv=inv1), 2: Loop(inv=inv2), 3: Loop(inv=inv3)}

SPECS = [x for x in stream.SPECS if x.name not in ('executeAutomaton', 'getMatchedType', 'createJSONQueryDFA')] + [initQueryStacks(), queryStacksPop(), queryStacksTop(), queryStacksSecondTop(), queryStacksTopUpdate(), pruneQueryPaths(), queryStacksPush(),
    addTupleInfo(), addVirtualTupleInfo(), combineQueryStacks()]
def modules():
    return Module(TU(['JSONQuery/worker_automaton.c']), SPECS, buf=dfa.BUFS)
