"""Contracts of stack.h, tuple_list.h and streaming_automaton.c."""
from specs.common import *
from specs import lex, dfa
from specs.lex import Tok, LexView, isstr, MAXTOK
from specs.dfa import DV, inrange
from jpv import libc
from specs.cons import CTV, CONS, learned
LCB, RCB, LB, RB, COM, KY, PRI, END = 1, 2, 3, 4, 5, 6, 7, -1
OUT, COND, PRED = 1, 2, 3
MAXST = 100

# ---------------------------------------------------------------- stack.h
class SS:
    def __init__(v, view, p): v.top = view.get(p, 'top_item'); v.sym = view.arr(p, 'symbol', '[]'); v.p = p
    def at(v, i): return z3.Select(v.sym, i)
    def wf(v): return And(v.top >= -1, v.top < MAXST)
class QS:
    F = ('query_state', 'count', 'matched_start')
    def __init__(v, view, p):
        v.top = view.get(p, 'top_item'); v.p = p
        v.a = [view.arr(p, 'item', '[]', f) for f in v.F]
    def at(v, i): return [z3.Select(a, i) for a in v.a]
    def wf(v): return And(v.top >= -1, v.top < MAXST)
def elt(sv): return [sv.leaves[(f,)] for f in QS.F]
def alleq(x, y): return And(*[a == b for a, b in zip(x, y)])
def stored(new, old, i, vals): return And(*[n == z3.Store(o, i, v) for n, o, v in zip(new.a, old.a, vals)])

class syntaxStackPush(Spec):
    name = 'syntaxStackPush'; modular = False
    def pre(s, c): return [('stack', SS(c.cur, c.a(0)).wf())]
    def mods(s, c): return [c.a(0)]
    def post(s, c):
        o, n = SS(c.old, c.a(0)), SS(c.cur, c.a(0))
        return [('pushed', Implies(o.top < MAXST - 1, And(n.top == o.top + 1, n.sym == z3.Store(o.sym, o.top + 1, c.a(1))))),
                ('full: unchanged', Implies(o.top >= MAXST - 1, And(n.top == o.top, n.sym == o.sym)))]
class syntaxStackPop(Spec):
    name = 'syntaxStackPop'; modular = False
    def pre(s, c): return [('stack', SS(c.cur, c.a(0)).wf())]
    def mods(s, c): return [c.a(0).fld('top_item')]
    def post(s, c):
        o, n = SS(c.old, c.a(0)), SS(c.cur, c.a(0))
        return [('popped', Implies(o.top >= 0, And(n.top == o.top - 1, c.res == o.at(o.top)))), ('empty', Implies(o.top < 0, And(n.top == o.top, c.res == -1)))]
class syntaxStackTop(Spec):
    name = 'syntaxStackTop'; modular = False
    def pre(s, c): return [('stack', SS(c.cur, c.a(0)).wf())]
    def post(s, c):
        o = SS(c.old, c.a(0)); return [('top', c.res == If(o.top >= 0, o.at(o.top), iv(-1)))]
class syntaxStackSecondTop(Spec):
    name = 'syntaxStackSecondTop'; modular = False
    def pre(s, c): return [('stack', SS(c.cur, c.a(0)).wf())]
    def post(s, c):
        o = SS(c.old, c.a(0)); return [('second', c.res == If(o.top >= 1, o.at(o.top - 1), iv(-1)))]
class syntaxStackSize(Spec):
    name = 'syntaxStackSize'; modular = False
    def pre(s, c): return [('stack', SS(c.cur, c.a(0)).wf())]
    def post(s, c): return [('size', c.res == SS(c.old, c.a(0)).top + 1)]
class queryStackPush(Spec):
    name = 'queryStackPush'; modular = False
    def pre(s, c): return [('stack', QS(c.cur, c.a(0)).wf())]
    def mods(s, c): return [c.a(0)]
    def post(s, c):
        o, n = QS(c.old, c.a(0)), QS(c.cur, c.a(0))
        return [('pushed', Implies(o.top < MAXST - 1, And(n.top == o.top + 1, stored(n, o, o.top + 1, elt(c.a(1)))))),
                ('full: unchanged', Implies(o.top >= MAXST - 1, And(n.top == o.top, *[x == y for x, y in zip(n.a, o.a)])))]
class queryStackPop(Spec):
    name = 'queryStackPop'; modular = False
    def pre(s, c): return [('stack', QS(c.cur, c.a(0)).wf())]
    def mods(s, c): return [c.a(0).fld('top_item')]
    def post(s, c):
        o, n = QS(c.old, c.a(0)), QS(c.cur, c.a(0))
        return [('popped', Implies(o.top >= 0, And(n.top == o.top - 1, alleq(elt(c.res), o.at(o.top))))),
                ('empty', Implies(o.top < 0, And(n.top == o.top, alleq(elt(c.res), [iv(-1), iv(0), iv(-1)]))))]
class queryStackTop(Spec):
    name = 'queryStackTop'; modular = False
    def pre(s, c): return [('stack', QS(c.cur, c.a(0)).wf())]
    def post(s, c):
        o = QS(c.old, c.a(0))
        return [('top', Implies(o.top >= 0, alleq(elt(c.res), o.at(o.top)))), ('empty', Implies(o.top < 0, alleq(elt(c.res), [iv(-1), iv(0), iv(-1)])))]
class combineSyntaxStack(Spec):
    """the open brackets of src are appended to those of dst"""
    name = 'combineSyntaxStack'
    def pre(s, c):
        d, q = SS(c.cur, c.a(0)), SS(c.cur, c.a(1))
        return [('stacks', And(d.wf(), q.wf())), ('nesting fits the stack', d.top + q.top + 1 < MAXST)]
    def mods(s, c): return [c.a(0)]
    def post(s, c):
        d, q, n = SS(c.old, c.a(0)), SS(c.old, c.a(1)), SS(c.cur, c.a(0)); k, = K('k')
        return [('size', n.top == d.top + q.top + 1), ('lower part kept', FA([k], Implies(And(k >= 0, k <= d.top), n.at(k) == d.at(k)), n.at(k))),
                ('upper part is the source', FA([k], Implies(And(k > d.top, k <= n.top), n.at(k) == q.at(k - d.top - 1)), n.at(k)))]
    nloops = 1
    def inv(c):
        d, q, n = SS(c.old, c.a(0)), SS(c.old, c.a(1)), SS(c.cur, c.a(0)); k, = K('k'); i = c.v('i')
        return [('range', And(i >= 0, i <= q.top + 1, n.top == d.top + i)), ('lower', FA([k], Implies(And(k >= 0, k <= d.top), n.at(k) == d.at(k)), n.at(k))),
                ('upper', FA([k], Implies(And(k > d.top, k <= n.top), n.at(k) == q.at(k - d.top - 1)), n.at(k)))]
    loops = {0: Loop(inv=inv)}

# ---------------------------------------------------------------- tuple_list.h
MAXTL = 5000000
TF = ('start_position', 'end_position', 'state', 'next_index')
class TL:
    def __init__(v, view, p):
        v.count = view.get(p, 'count')
        v.f = {f: view.arr(p, 'element', '[]', f) for f in TF}
        v.text = view.arr(p, 'element', '[]', 'text', '[]') if False else view.ex.leafterm(p.root, view.ex.keyof(p.path)[0] + ('element', '[]', 'text', '[]'), view.snap)
        for i in view.ex.keyof(p.path)[1]: v.text = sel(v.text, i)
    def txt(v, i): return z3.Select(v.text, i)
    def at(v, f, i): return z3.Select(v.f[f], i)
def same_tl(n, o): return And(n.count == o.count, n.text == o.text, *[n.f[f] == o.f[f] for f in TF])
class addTuple(Spec):
    """one more entry (state, text), the others unchanged"""
    name = 'addTuple'
    def pre(s, c):
        t = TL(c.cur, c.a(0)); x = libc.cid(c.ex, c.a(2)); n = libc.slen(c.ex, c.a(2))
        return [('tuple list not full', And(t.count >= -1, t.count < MAXTL - 1)), ('text fits a tuple', n < 998)]
    def mods(s, c):
        p = c.a(0); return [p.fld('count')] + [('leaf', p.fld('element', iv(0), f)) for f in ('start_position', 'state', 'next_index')] + [('leaf', p.fld('element', iv(0), 'text', iv(0)))]
    def post(s, c):
        o, n = TL(c.old, c.a(0)), TL(c.cur, c.a(0)); i = o.count + 1
        x = n.txt(i); sa, so = c.old.chars(c.a(2)); k, = K('k')
        libc.strfacts(c.ex, x, iv(0)); libc.strfacts(c.ex, sa, so)
        ln = libc.SLEN(sa, so)
        return [('count', n.count == o.count + 1),
                ('state', n.f['state'] == z3.Store(o.f['state'], i, c.a(1))), ('literal text', n.f['start_position'] == z3.Store(o.f['start_position'], i, -1)),
                ('unlinked', n.f['next_index'] == z3.Store(o.f['next_index'], i, -1)),
                ('other texts kept', n.text == z3.Store(o.text, i, x)),
                ('text', And(libc.CID(x, iv(0)) == libc.CID(sa, so), libc.SLEN(x, iv(0)) == ln, FA([k], Implies(And(k >= 0, k < ln), z3.Select(x, k) == z3.Select(sa, so + k)), z3.Select(x, k)), z3.Select(x, ln) == 0))]
class addVirtualTuple(Spec):
    name = 'addVirtualTuple'
    def pre(s, c):
        t = TL(c.cur, c.a(0)); return [('tuple list not full', And(t.count >= -1, t.count < MAXTL - 1))]
    def mods(s, c):
        p = c.a(0); return [p.fld('count')] + [('leaf', p.fld('element', iv(0), f)) for f in TF]
    def post(s, c):
        o, n = TL(c.old, c.a(0)), TL(c.cur, c.a(0)); i = o.count + 1
        return [('count', n.count == o.count + 1), ('state', n.f['state'] == z3.Store(o.f['state'], i, c.a(1))),
                ('start', n.f['start_position'] == z3.Store(o.f['start_position'], i, c.a(2))), ('end', n.f['end_position'] == z3.Store(o.f['end_position'], i, c.a(3))),
                ('unlinked', n.f['next_index'] == z3.Store(o.f['next_index'], i, -1))]
class linkTuples(Spec):
    name = 'linkTuples'; modular = False
    def pre(s, c): return [('index', And(c.a(1) >= 0, c.a(1) < MAXTL))]
    def mods(s, c): return [('leaf', c.a(0).fld('element', iv(0), 'next_index'))]
    def post(s, c):
        o, n = TL(c.old, c.a(0)), TL(c.cur, c.a(0)); return [('linked', n.f['next_index'] == z3.Store(o.f['next_index'], c.a(1), c.a(2)))]
class getTuple(Spec):
    name = 'getTuple'; modular = False
    def pre(s, c): return [('index', And(c.a(1) >= 0, c.a(1) < MAXTL))]
    def post(s, c):
        o = TL(c.old, c.a(0)); i = c.a(1)
        return [('fields', And(*[c.res.leaves[(f,)] == o.at(f, i) for f in TF])), ('text', c.res.leaves[('text', '[]')] == o.txt(i))]
class getTupleListSize(Spec):
    name = 'getTupleListSize'; modular = False
    def pre(s, c): return [('list', TL(c.cur, c.a(0)).count < MAXTL)]
    def post(s, c): return [('size', c.res == TL(c.old, c.a(0)).count + 1)]
class initTupleList(Spec):
    name = 'initTupleList'; modular = False
    def mods(s, c): return [c.a(0).fld('count')]
    def post(s, c): return [('empty', TL(c.cur, c.a(0)).count == -1)]

# ---------------------------------------------------------------- streaming_automaton.c
def selected(d, q, cnt):
    lo, up = z3.Select(d.lo, q), z3.Select(d.up, q)
    return Or(And(lo == 0, up == 0), And(cnt >= lo, cnt < up))
def mtype(d, q, cnt):
    a = z3.Select(d.acc, q)
    return If(And(a == OUT, Not(selected(d, q, cnt))), iv(0), a)
class getMatchedType(Spec):
    """the kind of the current state, with output candidates outside their index range masked"""
    name = 'getMatchedType'; modular = False
    def setup(s, c): dfa.dfa_setup(s, c)
    def pre(s, c):
        d = DV(c.cur, c.a(0)); q = c.cur.get(c.a(1), 'query_state'); return d.wf() + [('state', inrange(d, q))]
    def post(s, c):
        d = DV(c.old, c.a(0)); q = c.old.get(c.a(1), 'query_state'); n = c.old.get(c.a(1), 'count')
        return [('matched type', c.res == mtype(d, q, n))]
CN = z3.Function('openstates', ARR, INT, INT)    # number of KY / LB entries among the first i symbols
def d_cn(sym, i): return [Implies(i > 0, CN(sym, i) == CN(sym, i - 1) + If(Or(z3.Select(sym, i - 1) == KY, z3.Select(sym, i - 1) == LB), 1, 0)), Implies(i <= 0, CN(sym, i) == 0), CN(sym, i) >= 0]

class executeAutomaton(Spec):
    name = 'executeAutomaton'
    def setup(s, c):
        ex = c.ex; sa = c.a(0)
        qa = c.cur.get(sa, 'query_automaton')
        s2 = c.args; c.args = [qa] + list(c.args); dfa.dfa_setup(s, c); c.args = s2
        c.args[1].root.sizes[0] = z3.Int('L') + 1
        ct = c.cur.get(sa, 'constraint_table')
    def pre(s, c):
        sa = c.a(0); d = DV(c.cur, c.cur.get(sa, 'query_automaton')); ss, qs = SS(c.cur, sa.fld('syntax_stack')), QS(c.cur, sa.fld('query_stack'))
        tl = TL(c.cur, c.cur.get(sa, 'tuple_list')); txt, _ = c.cur.chars(c.a(1)); L = libc.slen(c.ex, c.a(1)); k, = K('m')
        q = [c.cur.get(sa, f) for f in ('query_state', 'count', 'matched_start')]
        return d.wf() + [('automaton table', d.N * d.n < 2**31), ('pointers', And(Not(Z(c.cur.get(sa, 'query_automaton').null)), Not(Z(c.cur.get(sa, 'tuple_list').null)))),
                ('text', And(L == z3.Int('L') if not c.call else T, L < 2**30)), ('stacks', And(ss.wf(), qs.wf())),
                ('current state', And(inrange(d, q[0]), q[1] >= 0, q[1] < 2**30, q[2] == -1)),
                ('saved states', FA([k], Implies(And(k >= 0, k <= qs.top), And(inrange(d, qs.at(k)[0]), qs.at(k)[1] >= 0, qs.at(k)[1] < 2**30, qs.at(k)[2] == -1)), qs.at(k)[0])),
                ('one saved state per open array or key', qs.top + 1 == CN(ss.sym, ss.top + 1)),
                ('tuple list', And(tl.count >= -1, tl.count < MAXTL - 8)), ('constraints', Or(c.a(2) == 0, c.a(2) == 1))]
    def mods(s, c):
        sa = c.a(0); tl = c.old.get(sa, 'tuple_list')
        out = [sa.fld(f) for f in ('syntax_stack', 'query_stack', 'query_state', 'count', 'matched_start', 'constraint_flag', 'constraint_table')] + [tl]
        ct = c.old.get(sa, 'constraint_table')
        if isinstance(ct, Ptr) and ct.root is not None: out.append(ct)
        return out
    def post(s, c):
        sa = c.a(0)
        q = [c.cur.get(sa, f) for f in ('query_state', 'count', 'matched_start')]
        e = elt(c.cur.get(c.ex.local(c.frame, 'qs_element') and Ptr(c.ex.local(c.frame, 'qs_element')))) if not c.call else q
        return [('the final state is kept for the next chunk', alleq(q, e))]
    nloops = 1
    class St:
        """state of the automaton at a loop head"""
        def __init__(t, c, view):
            g = lambda n: view.get(Ptr(c.ex.local(c.frame, n)))
            sa = c.a(0); t.c, t.view = c, view
            t.ss, t.qs = SS(view, sa.fld('syntax_stack')), QS(view, sa.fld('query_stack'))
            t.q = elt(view.get(Ptr(c.ex.local(c.frame, 'qs_element'))))
            t.tl = TL(view, c.old.get(sa, 'tuple_list'))
            t.tt = g('token_type'); tok = view.get(Ptr(c.ex.local(c.frame, 'token')))
            t.ctype = tok.leaves[('token_type',)]; t.cp = tok.leaves[('content',)]
            lx = Ptr(c.ex.local(c.frame, 'lexer'))
            class A: pass
            a = A(); a.a = lambda i: lx
            t.lx = LexView(a, view)
            t.d = DV(c.old, c.old.get(sa, 'query_automaton'))
            t.ctp = g('ct'); t.ct = CTV(view, t.ctp) if isinstance(t.ctp, Ptr) and t.ctp.root is not None else None
        def content(t):
            if not isinstance(t.cp, Ptr) or t.cp.root is None: return None
            ar, o = t.view.chars(t.cp); libc.strfacts(t.c.ex, ar, o)
            return libc.CID(ar, o)
    def inv(c):
        t = executeAutomaton.St(c, c.cur); ss, qs, q, d = t.ss, t.qs, t.q, t.d; k, = K('m'); sa = c.a(0)
        if not t.lx.ok or not isinstance(t.lx.content, Ptr): return [('lexer works on the text', F)]
        txt, _ = c.old.chars(c.a(1)); L = libc.slen(c.ex, c.a(1)); ctp = t.cp
        same = isinstance(ctp, Ptr) and ctp.root is t.lx.content.root
        csz = libc.size(c.ex, t.lx.content)
        B = 2**30 + t.lx.n + If(t.tt == END, 1, 0)
        ms = lambda m: Or(m == -1, And(m >= 0, m < t.lx.n))
        # pointers the loop must not redirect
        fixed = all(isinstance(c.v(n), Ptr) for n in ('ss', 'qs', 'tl', 'qs_elt', 'qa')) and c.v('ss').root is sa.root and c.v('qs').root is sa.root and c.v('tl').root is c.old.get(sa, 'tuple_list').root and c.v('qs_elt').root is c.ex.local(c.frame, 'qs_element')
        out = [('lexer', And(t.lx.s == txt, t.lx.L == L, t.lx.b == 0, t.lx.n >= 0, t.lx.n <= L, t.lx.state == 0, t.lx.cp.off >= 0, t.lx.cp.off <= L + 1, t.lx.sp.off >= 0, t.lx.sp.off <= L + 2, t.lx.content.off == 0)),
               ('working pointers', T if fixed and c.cur.get(sa, 'tuple_list').root is c.old.get(sa, 'tuple_list').root else F),
               ('token', And(t.tt == t.ctype, Or(*[t.tt == x for x in (LCB, RCB, LB, RB, COM, KY, PRI, END)]))),
               ('token content', Implies(Or(t.tt == KY, t.tt == PRI), T if same else F)),
               ('token has been read', Implies(And(t.tt != END), t.lx.n >= 1)),
               ('stacks', And(ss.wf(), qs.wf())),
               ('current state', And(inrange(d, q[0]), q[1] >= 0, q[1] < B, ms(q[2]))),
               ('saved states', FA([k], Implies(And(k >= 0, k <= qs.top), And(inrange(d, qs.at(k)[0]), qs.at(k)[1] >= 0, qs.at(k)[1] < B, ms(qs.at(k)[2]))), qs.at(k)[0])),
               ('one saved state per open array or key', qs.top + 1 == CN(ss.sym, ss.top + 1)),
               ('tuple list', And(t.tl.count >= -1))]
        ct = t.ctp; own = c.cur.get(sa, 'constraint_table')
        if isinstance(ct, Ptr) and ct.root is not None:
            out.append(('constraint table', Implies(c.a(2) == 1, And(t.ct.wf(), T if isinstance(own, Ptr) and own.root is ct.root else F))))
        else: out.append(('constraint table', c.a(2) != 1))
        return out
    def lemma1(c):
        t = executeAutomaton.St(c, c.cur); ss = t.ss; o = []
        for i in (ss.top + 1, ss.top, ss.top - 1, ss.top + 2): o += d_cn(ss.sym, i)
        if c.head is not None:       # CN only depends on the first i symbols
            h = SS(c.head, c.a(0).fld('syntax_stack')); k, = K('n')
            for i in (h.top + 1, h.top, h.top - 1):
                o += d_cn(h.sym, i) + d_cn(ss.sym, i)
                j = c.fresh('cnw')
                o.append(Or(CN(h.sym, i) == CN(ss.sym, i), And(j >= 0, j < i, z3.Select(h.sym, j) != z3.Select(ss.sym, j))))
        return o
    def wellformed(c):
        t = executeAutomaton.St(c, c.cur); ss, qs, tt = t.ss, t.qs, t.tt
        top, sec = z3.Select(ss.sym, ss.top), z3.Select(ss.sym, ss.top - 1)
        val = Or(ss.top == -1, top == KY, top == LB)
        o = [('nesting depth below the stack size', And(ss.top < MAXST - 3, qs.top < MAXST - 3)), ('the tuple list has room', t.tl.count < MAXTL - 8),
             ('the text is well-formed: brackets match and keys occur in objects', And(
                 Implies(tt == RCB, And(ss.top >= 0, top == LCB)), Implies(tt == RB, And(ss.top >= 0, top == LB)), Implies(tt == KY, And(ss.top >= 0, top == LCB)),
                 Implies(Or(tt == LCB, tt == LB, tt == PRI), val),
                 Implies(And(ss.top >= 1, Or(top == LCB, top == LB)), Or(sec == KY, sec == LB))))]
        cont = t.content()
        if t.ct is not None: o.append(('the constraint table has room', Implies(c.a(2) == 1, t.ct.room(2))))
        if cont is not None:
            ar, oo = t.view.chars(t.cp)
            o.append(('learned keys fit the table (MAX_KEY_TEXT)', Implies(And(tt == KY, c.a(2) == 1), libc.SLEN(ar, oo) <= 98)))
            o.append(('texts of matches fit a tuple (MAX_TEXT)', Implies(tt == PRI, libc.SLEN(ar, oo) < 998)))
        o.append(('texts of matches fit a tuple (MAX_TEXT)', And(Implies(t.q[2] != -1, t.lx.n - t.q[2] < 998), Implies(And(qs.top >= 0, qs.at(qs.top)[2] != -1), t.lx.n - qs.at(qs.top)[2] < 998))))
        return o
    def step(c):
        """effect of one token"""
        h, n = executeAutomaton.St(c, c.head), executeAutomaton.St(c, c.cur)
        d, ss, qs, q, tt = h.d, h.ss, h.qs, h.q, h.tt
        pos = h.lx.n; top, sec = z3.Select(ss.sym, ss.top), z3.Select(ss.sym, ss.top - 1)
        m = mtype(d, q[0], q[1]); tl = h.tl; i = tl.count + 1; out = []
        txt = h.lx.s; k, = K('x')
        def added(st, lit=None, cont=None):
            x = n.tl.txt(i)
            cidv = libc.litid(lit) if lit is not None else cont
            libc.strfacts(c.ex, x, iv(0))
            return And(n.tl.count == i, n.tl.f['state'] == z3.Store(tl.f['state'], i, st), n.tl.f['start_position'] == z3.Store(tl.f['start_position'], i, -1), n.tl.text == z3.Store(tl.text, i, x), libc.CID(x, iv(0)) == cidv)
        def cut(st, a, b):      # the exact text [a, b)
            x = n.tl.txt(i); libc.strfacts(c.ex, x, iv(0))
            return And(n.tl.count == i, n.tl.f['state'] == z3.Store(tl.f['state'], i, st), n.tl.text == z3.Store(tl.text, i, x),
                       FA([k], Implies(And(k >= 0, k < b - a), z3.Select(x, k) == z3.Select(txt, a + k)), z3.Select(x, k)), z3.Select(x, b - a) == 0)
        keep = same_tl(n.tl, tl)
        def nss(*push, pop=0):
            a = ss.sym; tp = ss.top - pop
            for p in push: tp = tp + 1; a = z3.Store(a, tp, iv(p))
            kk, = K('s')
            return And(n.ss.top == tp, FA([kk], Implies(And(kk >= 0, kk <= tp), z3.Select(n.ss.sym, kk) == z3.Select(a, kk)), z3.Select(n.ss.sym, kk)))
        def nqs(push=None, pop=0):
            tp = qs.top - pop; kk, = K('s')
            if push is not None:
                return And(n.qs.top == tp + 1, alleq(n.qs.at(tp + 1), push), FA([kk], Implies(And(kk >= 0, kk <= tp), alleq(n.qs.at(kk), qs.at(kk))), n.qs.at(kk)[0]))
            return And(n.qs.top == tp, FA([kk], Implies(And(kk >= 0, kk <= tp), alleq(n.qs.at(kk), qs.at(kk))), n.qs.at(kk)[0]))
        def R(name, cond, *what):
            for lab, w in what: out.append(('%s: %s' % (name, lab), Implies(cond, w)))
        sel_ = selected(d, q[0], q[1])
        # {
        R("'{'", tt == LCB, ('opens an object', And(nss(LCB), nqs())), ('state kept, start of a match remembered', And(n.q[0] == q[0], n.q[1] == q[1], n.q[2] == If(m == OUT, pos - 1, q[2]))))
        R("'{' of a predicate element", And(tt == LCB, m == PRED), ('opens a predicate scope', added(q[0], '{')))
        R("'{' of a condition", And(tt == LCB, m == COND), ('condition present', added(q[0], '')))
        R("'{' otherwise", And(tt == LCB, m != PRED, m != COND), ('emits nothing', keep))
        # }
        mt1 = And(q[2] != -1, m == OUT)
        q2 = If(mt1, iv(-1), q[2])
        single, inkey, inarr = ss.top == 0, And(ss.top >= 1, sec == KY), And(ss.top >= 1, sec == LB)
        R("'}'", And(tt == RCB, single), ('closes the root', And(nss(pop=1), nqs(), alleq(n.q, [q[0], q[1], q2]))))
        R("'}' of a key", And(tt == RCB, inkey), ('restores the state of the enclosing object', And(nss(pop=2), nqs(pop=1), alleq(n.q, qs.at(qs.top)))))
        R("'}' of an array element", And(tt == RCB, inarr), ('counts the element', And(nss(pop=1), nqs(), alleq(n.q, [q[0], q[1] + 1, q2]))))
        pm = mtype(d, q[0], q[1] + 1)
        R("'}' of a matched object", And(tt == RCB, mt1, Not(And(inarr, pm == PRED))), ('emits its exact text', cut(q[0], q[2], pos)))
        R("'}' of a predicate element", And(tt == RCB, inarr, pm == PRED, Not(mt1)), ('closes the predicate scope', added(q[0], '}')))
        R("'}' otherwise", And(tt == RCB, Not(mt1), Not(And(inarr, pm == PRED))), ('emits nothing', keep))
        # [
        nxt = If(sel_, d.next_array(q[0]), iv(0))
        R("'['", tt == LB, ('opens an array', And(nss(LB), nqs(push=[q[0], q[1], If(m == OUT, pos - 1, q[2])]))), ('moves to the state of its elements, counting from 0', alleq(n.q, [nxt, iv(0), iv(-1)])))
        R("'[' of a condition", And(tt == LB, m == COND), ('condition present', added(q[0], '')))
        R("'[' otherwise", And(tt == LB, m != COND), ('emits nothing', keep))
        # ]
        tq = qs.at(qs.top); mt2 = And(tq[2] != -1, mtype(d, tq[0], tq[1]) == OUT)
        R("']'", And(tt == RB, single), ('closes the root', And(nss(pop=1), nqs(pop=1), alleq(n.q, tq))))
        R("']' of a key", And(tt == RB, inkey), ('restores the state of the enclosing object', And(nss(pop=2), nqs(pop=2), alleq(n.q, qs.at(qs.top - 1)))))
        R("']' of an array element", And(tt == RB, inarr), ('restores the state of the enclosing array and counts', And(nss(pop=1), nqs(pop=1), alleq(n.q, [tq[0], tq[1] + 1, tq[2]]))))
        R("']' of a matched array", And(tt == RB, mt2), ('emits its exact text', cut(tq[0], tq[2], pos)))
        R("']' otherwise", And(tt == RB, Not(mt2)), ('emits nothing', keep))
        # , and key
        R("','", tt == COM, ('changes nothing', And(nss(), nqs(), alleq(n.q, q), keep)))
        ck = h.content()
        if ck is not None:
            R('key', tt == KY, ('remembers the state of the object', And(nss(KY), nqs(push=q))), ('moves along the key', alleq(n.q, [If(sel_, d.next(q[0], ck), iv(0)), iv(0), iv(-1)])), ('emits nothing', keep))
            inside = ss.top >= 0
            R('primitive', And(tt == PRI, inside, Or(m == OUT, m == COND)), ('is emitted with its exact text', added(q[0], None, ck)))
            R('primitive', And(tt == PRI, Not(And(inside, Or(m == OUT, m == COND)))), ('is not emitted', keep))
            R('primitive value of a key', And(tt == PRI, inside, top == KY), ('restores the state of the enclosing object', And(nss(pop=1), nqs(pop=1), alleq(n.q, qs.at(qs.top)))))
            R('primitive element', And(tt == PRI, inside, top == LB), ('counts the element', And(nss(), nqs(), alleq(n.q, [q[0], q[1] + 1, q[2]]))))
            R('root primitive', And(tt == PRI, Not(inside)), ('changes nothing', And(nss(), nqs(), alleq(n.q, q))))
        # the constraint table
        if h.ct is not None and n.ct is not None:
            ix, pq, pz = c.fresh('ix'), c.fresh('pq'), c.fresh('pz'); o = h.ct; learn = c.a(2) == 1; zero = Not(sel_)
            for nm, ty, key in (('key', KY, ck), ("'['", LB, iv(-1))):
                if key is None: continue
                df = And(o.index(ix, iv(ty), key), o.place(ix, pq, q[0]), o.place(ix, pz, iv(0)))
                for lab, w in learned(o, n.ct, ix, pq, pz, q[0], iv(ty), key, zero):
                    out.append(('%s: learned: %s' % (nm, lab), Implies(And(learn, tt == ty, df), w)))
            same = And(*[getattr(n.ct, f) == getattr(o, f) for f in ('num', 'ty', 'ns', 'st', 'nm')])
            out.append(('nothing learned', Implies(And(learn, tt != KY, tt != LB), same)))
        # the next token
        tk = Tok(h.lx.s, h.lx.L, h.lx.n)
        out.append(('the next token is read', And(n.tt == tk.type, n.lx.n == tk.next)))
        return out
    loops = {0: Loop(inv=inv, lemma=lemma1, assume=wellformed, step=step)}

SPECS = [x for x in lex.SPECS if x.name in ('strcopy', 'substring', 'substring_in_place', 'allocate_and_copy', 'nextToken')] + dfa.SPECS + \
    [syntaxStackPush(), syntaxStackPop(), syntaxStackTop(), syntaxStackSecondTop(), syntaxStackSize(), queryStackPush(), queryStackPop(), queryStackTop(), combineSyntaxStack(),
     addTuple(), addVirtualTuple(), linkTuples(), getTuple(), getTupleListSize(), initTupleList(), getMatchedType(), executeAutomaton()] + CONS
def modules():
    return Module(TU(['JSONQuery/streaming_automaton.c']), SPECS, buf=dfa.BUFS)
