"""Contracts of JSONQuery/predicate.c and JSONQuery/output.h: candidates under filters."""
from specs.common import *
from specs import lex, dfa, stream, eval as ev
from specs.eval import rows, COND, REGIONS
from specs.stream import TL, MAXTL
from jpv import libc
MAXO, MAXS, MAXP, MAXE = 800000, 1000, 100, 100
LIM = MAXS - 2
SUB = z3.Function('subtree_of_state', INT, INT)          # the expression or reference a state of the query stands for (0: none)
NC = z3.Function('number_of_conditions', INT, INT)
B1 = z3.ArraySort(INT, z3.BoolSort()); A2 = z3.ArraySort(INT, ARR)
EVB = z3.Function('expression_holds', INT, A2, B1, A2, z3.BoolSort())   # expression, names, absent?, texts
def quoted(t):
    """length limits of a text, and both quotes of a quoted one"""
    n = libc.SLEN(t, iv(0)); return And(n >= 0, n <= LIM, Implies(S(t, 0) == 34, n >= 2))
# ---------------------------------------------------------------- output.h
class OV:
    """view of an Output"""
    def __init__(v, view, p):
        v.p = p; v.count = view.get(p, 'count'); e = view.get(p, 'element'); v.ep = e
        v.rnull, v.rows = rows(view, e.root, ('[]',)); v.rowroot = view.ex.childptr(e.root, ('[]',), Ty('ptr', CH), [iv(0)], F).root
    def row(v, i): return S(v.rows, i)
    def cid(v, i): return libc.CID(v.row(i), iv(0))
    def wf(v, quote=True):
        k, = K('o')
        return [('output list', And(v.count >= -1, v.count < MAXO, Not(Z(v.ep.null)), FA([k], Implies(And(k >= 0, k < MAXO), Not(S(v.rnull, k))), S(v.rnull, k)))),
                ('texts of the list', FA([k], Implies(And(k >= 0, k <= v.count), quoted(v.row(k))), v.row(k)))]
def osize(c, p):
    e = c.cur.get(p, 'element'); e.root.sizes[0] = iv(MAXO); r = c.ex.childptr(e.root, ('[]',), Ty('ptr', CH), [iv(0)], F).root; r.sizes[0] = iv(MAXO); r.sizes[1] = iv(MAXS)
def same_out(n, o): return And(n.count == o.count, n.rows == o.rows)
class ospec(Spec):
    def setup(s, c): osize(c, c.a(0))
class addOutputElement(ospec):
    """one more text at the end, the others unchanged"""
    name = 'addOutputElement'
    def pre(s, c):
        o = OV(c.cur, c.a(0)); n = libc.slen(c.ex, c.a(1)); f, t = libc.chars(c.ex, c.a(1))
        return o.wf()[:1] + [('room', o.count < MAXO - 1), ('text fits an output', n <= LIM)]
    def mods(s, c):
        p = c.a(0); o = OV(c.old, p)
        return [p.fld('count'), ('buf', Ptr(o.rowroot, (('i', o.count + 1), ('i', iv(0))), False))]
    def post(s, c):
        o, n = OV(c.old, c.a(0)), OV(c.cur, c.a(0)); sa, so = c.old.chars(c.a(1)); x = n.row(o.count + 1); libc.strfacts(c.ex, x, iv(0)); libc.strfacts(c.ex, sa, so)
        return [('count', n.count == o.count + 1), ('the other texts are kept', n.rows == z3.Store(o.rows, o.count + 1, x)),
                ('the text', And(libc.CID(x, iv(0)) == libc.CID(sa, so), libc.SLEN(x, iv(0)) == libc.SLEN(sa, so), z3.Select(x, 0) == z3.Select(sa, so)))]
class getOutputElement(ospec):
    name = 'getOutputElement'; modular = False
    def pre(s, c): return OV(c.cur, c.a(0)).wf() + [('index', And(c.a(1) >= 0, c.a(1) < MAXO))]
    def post(s, c):
        o = OV(c.old, c.a(0)); return [('the text at the index', o.row(c.a(1)) == c.cur.chars(c.res)[0]), ('from its start', c.res.off == 0)]
class getOutputSize(ospec):
    name = 'getOutputSize'; modular = False
    def pre(s, c): return OV(c.cur, c.a(0)).wf()
    def post(s, c): return [('size', c.res == OV(c.old, c.a(0)).count + 1)]
class removeOutputElement(ospec):
    """the last ones are dropped"""
    name = 'removeOutputElement'; modular = False
    def pre(s, c): return OV(c.cur, c.a(0)).wf() + [('number', And(c.a(1) >= 0, c.a(1) <= OV(c.cur, c.a(0)).count + 1))]
    def mods(s, c): return [c.a(0).fld('count')]
    def post(s, c): return [('shorter', OV(c.cur, c.a(0)).count == OV(c.old, c.a(0)).count - c.a(1))]
class initOutput(Spec):
    """empty, with room for MAX_OUTPUT texts"""
    name = 'initOutput'; modular = False
    def mods(s, c): return [c.a(0).fld('element'), c.a(0).fld('count')]
    def post(s, c):
        if not isinstance(c.cur.get(c.a(0), 'element'), Ptr): return [('has a list', F)]
        n = OV(c.cur, c.a(0)); return n.wf()[:1] + [('empty', n.count == -1)]
    nloops = 1
    def inv(c):
        i = c.v('i'); e = c.cur.get(c.v('output'), 'element'); k, = K('k')
        if not isinstance(e, Ptr): return [('list', F)]
        nul, _ = rows(c.cur, e.root, ('[]',))
        return [('range', And(i >= 0, i <= MAXO)), ('rows', FA([k], Implies(And(k >= 0, k < i), Not(S(nul, k))), S(nul, k)))]
    def step(c):
        e = c.cur.get(c.v('output'), 'element'); z = c.ex.movedin.get((e.root.id, ('[]',)))
        return [('the row holds MAX_STRING characters', T if z is not None and is_num(Z(z)) and Z(z).as_long() >= MAXS else F)]
    loops = {0: Loop(inv=inv, step=step)}
class createOutput(Spec):
    name = 'createOutput'
    def result(s, c):
        r = c.ex.newobj('output', Ty('struct', 'Output')); x = c.ex.newobj('outputrows', Ty('arr', Ty('ptr', CH))); c.ex.setraw(r, ('element',), Ptr(x, (('i', iv(0)),), False)); osize(c, Ptr(r)); return Ptr(r, (), False)
    def post(s, c):
        if not isinstance(c.res, Ptr) or not isinstance(c.cur.get(c.res, 'element'), Ptr): return [('a list', F)]
        n = OV(c.cur, c.res); return n.wf()[:1] + [('empty', n.count == -1)]
    nloops = 1
    loops = {0: Loop(inv=initOutput.inv, step=initOutput.step)}
# ---------------------------------------------------------------- predicate.h: the stack of open filtered elements
class PS:
    def __init__(v, view, p):
        v.st, v.first = view.arr(p, 'elements', '[]', 'predicate_state'), view.arr(p, 'elements', '[]', 'output_buffer_pointer'); v.top = view.get(p, 'top_element')
    def wf(v): return [('stack', And(v.top >= -1, v.top < MAXE))]
class pspec(Spec):
    modular = False
    def pre(s, c): return PS(c.cur, c.a(0)).wf()
def pelt(x): return x.leaves[('predicate_state',)], x.leaves[('output_buffer_pointer',)]
class initPredicateStack(Spec):
    name = 'initPredicateStack'; modular = False
    def mods(s, c): return [c.a(0).fld('top_element')]
    def post(s, c): return [('empty', PS(c.cur, c.a(0)).top == -1)]
class pushPredicateStack(pspec):
    name = 'pushPredicateStack'
    def pre(s, c): return PS(c.cur, c.a(0)).wf() + [('room', PS(c.cur, c.a(0)).top < MAXE - 1)]
    def mods(s, c): return [c.a(0)]
    def post(s, c):
        o, n = PS(c.old, c.a(0)), PS(c.cur, c.a(0)); e = pelt(c.a(1)); return [('pushed', And(n.top == o.top + 1, n.st == z3.Store(o.st, n.top, e[0]), n.first == z3.Store(o.first, n.top, e[1])))]
class popPredicateStack(pspec):
    name = 'popPredicateStack'
    def pre(s, c): return PS(c.cur, c.a(0)).wf() + [('not empty', PS(c.cur, c.a(0)).top >= 0)]
    def mods(s, c): return [c.a(0).fld('top_element')]
    def post(s, c):
        o, n = PS(c.old, c.a(0)), PS(c.cur, c.a(0)); e = pelt(c.res); return [('popped', And(n.top == o.top - 1, e[0] == S(o.st, o.top), e[1] == S(o.first, o.top)))]
class getTopPredicateStack(pspec):
    name = 'getTopPredicateStack'
    def pre(s, c): return PS(c.cur, c.a(0)).wf() + [('not empty', PS(c.cur, c.a(0)).top >= 0)]
    def post(s, c): o = PS(c.old, c.a(0)); e = pelt(c.res); return [('the top', And(e[0] == S(o.st, o.top), e[1] == S(o.first, o.top)))]
class getPredicateStackSize(pspec):
    name = 'getPredicateStackSize'
    def post(s, c): return [('size', c.res == PS(c.old, c.a(0)).top + 1)]
# ---------------------------------------------------------------- conditions
DP = z3.Function('depth_of', ARR, INT, INT, INT)         # where on the stack the element of a filter is
def d_dp(st, *also):
    j, = K('j'); q = S(st.st, j); d = DP(st.st, st.top, q)
    return [FA([j], Implies(And(j >= 0, j <= st.top), And(d >= 0, d <= st.top, S(st.st, d) == q)), S(st.st, j), *[S(x.st, j) for x in also])]
class CV:
    """view of the condition lists of a PredicateFilter"""
    def __init__(v, view, pf):
        ex = view.ex; ch = ex.childptr(pf.root, ('predicate_conditions', '[]'), Ty('ptr', Ty('struct', 'PredicateCondition')), [iv(0)], F).root; v.root = ch
        v.none = ex.leafterm(pf.root, ('predicate_conditions', '[]', '?'), view.snap)
        v.nnull, v.nm = rows(view, ch, ('[]', '[]', 'name')); v.tnull, v.tx = rows(view, ch, ('[]', '[]', 'text'))
    def cid(v, s, k): return libc.CID(S(S(v.nm, s), k), iv(0))
    def tcid(v, s, k): return libc.CID(S(S(v.tx, s), k), iv(0))
    def wf(v):
        s, k = K('s', 'k')
        return [('condition lists have an end', FA([s], Implies(And(s >= 0, s < MAXP, Not(S(v.none, s))), And(NC(s) >= 0, NC(s) < 2**20, S(S(v.nnull, s), NC(s)), SUB(s) > 0)), S(v.none, s))),
                ('every condition has a name', FA([s, k], Implies(And(s >= 0, s < MAXP, Not(S(v.none, s)), k >= 0, k < NC(s)), Not(S(S(v.nnull, s), k))), S(S(v.nnull, s), k), S(S(v.nm, s), k)))]
    def texts(v):
        s, k = K('s', 'k')
        return [('texts of conditions', FA([s, k], Implies(And(s >= 0, s < MAXP, Not(S(v.none, s)), k >= 0, k < NC(s), Not(S(S(v.tnull, s), k))), quoted(S(S(v.tx, s), k))), S(S(v.tx, s), k), S(S(v.tnull, s), k)))]
    def closed(v, st):
        """the conditions of every filter that is not open are absent"""
        s, k = K('s', 'k'); d = DP(st.st, st.top, s)
        return [('conditions of elements that are not open are absent', FA([s, k], Implies(And(s >= 0, s < MAXP, Not(S(v.none, s)), k >= 0, k < NC(s)), Or(S(S(v.tnull, s), k), And(d >= 0, d <= st.top, S(st.st, d) == s))), S(S(v.tnull, s), k)))]
    def same(v, o): return And(v.tnull == o.tnull, v.tx == o.tx)
class getContextSubtree(Spec):
    """dfa_builder.cpp (C++)"""
    name = 'getContextSubtree'; trusted = True
    def result(s, c): return c.ex.refto('ast', SUB(c.a(1)))
    def post(s, c): return [('reference', SUB(c.a(1)) >= 0)]
class getContextSizeOfPredicateStates(Spec):
    name = 'getContextSizeOfPredicateStates'; trusted = True
    def result(s, c): return NPS
    def post(s, c): return [('number', And(NPS >= 0, NPS <= MAXP))]
NPS = z3.Int('number_of_filters'); PST = z3.Function('filter_state', INT, INT); CST = z3.Function('condition_state', INT, INT, INT)
class getContextPredicateStates(Spec):
    name = 'getContextPredicateStates'; trusted = True
    def result(s, c): return PST(c.a(1))
    def post(s, c): i = c.a(1); return [('a state', Implies(And(i >= 0, i < NPS), And(PST(i) >= 0, PST(i) < MAXP)))]
class getContextSizeOfMapping(Spec):
    name = 'getContextSizeOfMapping'; trusted = True
    def result(s, c): return NC(c.a(1))
    def post(s, c): return [('number', And(NC(c.a(1)) >= 0, NC(c.a(1)) < 2**20))]
class getContextValueOfMapping(Spec):
    name = 'getContextValueOfMapping'; trusted = True
    def result(s, c): return CST(c.a(1), c.a(2))
    def post(s, c): return [('a condition', Implies(And(c.a(2) >= 0, c.a(2) < NC(c.a(1))), SUB(CST(c.a(1), c.a(2))) > 0))]
class evaluateExpression(Spec):
    """proved in specs/eval.py; here the truth is a function of the expression, the names and the texts"""
    name = 'evaluateExpression'
    def parts(s, c, view):
        v = COND(view, c.a(1)); st = v.pre[0] if v.pre else None; return v, st
    def pre(s, c):
        v, st = s.parts(c, c.cur); r = c.ex.toref(c.a(0)); k, = K('k')
        if st is None: return [('conditions of a filter', F)]
        return [('expression', r > 0), ('offset', v.off == 0), ('condition list has an end', And(NC(st) >= 0, NC(st) < 2**20, S(v.nnull, NC(st)))), ('names', FA([k], Implies(And(k >= 0, k < NC(st)), Not(S(v.nnull, k))), S(v.nnull, k))),
                ('texts', FA([k], Implies(And(k >= 0, k < NC(st), Not(S(v.tnull, k))), quoted(S(v.tx, k))), S(v.tx, k)))]
    def post(s, c):
        v, st = s.parts(c, c.old); return [('truth of the expression', c.ex.truth(c.res) == EVB(c.ex.toref(c.a(0)), v.nm, v.tnull, v.tx))]
class clearPredicateCondtion(ev.clearPredicateCondtion):
    def ncond(s, c):
        v = COND(c.cur, c.a(0)); return NC(v.pre[0])
    def post(s, c):
        v, o = COND(c.cur, c.a(0)), COND(c.old, c.a(0)); k, = K('x'); return ev.clearPredicateCondtion.post(s, c) 
# ---------------------------------------------------------------- the filter
class generateFinalOutput(Spec):
    """releases the candidates of the elements whose filters hold"""
    name = 'generateFinalOutput'
    def setup(s, c):
        pf = c.a(0); osize(c, c.cur.get(pf, 'output')); osize(c, c.cur.get(pf, 'buffer'))
        v = CV(c.cur, pf); v.root.sizes[0] = iv(MAXP); v.root.sizes[1] = lambda lead: NC(lead[0]) + 1
    class St:
        def __init__(t, c, view, local=True):
            pf = c.a(0); t.tl = TL(view, c.old.get(pf, 'tuple_list')); t.cv = CV(view, pf); t.out = OV(view, c.old.get(pf, 'output'))
            b = view.get(Ptr(c.ex.local(c.frame, 'buffer'))) if local else view.get(pf, 'buffer'); t.b = b
            t.buf = OV(view, b) if isinstance(b, Ptr) and b.root is not None else None
            t.ps = PS(view, Ptr(c.ex.local(c.frame, 'ps')) if local else pf.fld('pstack'))
        def open(t):
            k, j = K('k', 'j'); p = t.ps
            return p.wf() + [('open elements', FA([k], Implies(And(k >= 0, k <= p.top), And(S(p.st, k) >= 0, S(p.st, k) < MAXP, Not(S(t.cv.none, S(p.st, k))), S(p.first, k) >= 0, S(p.first, k) <= t.buf.count + 1)), S(p.st, k), S(p.first, k))),
                             ('candidates of inner elements come last', z3.ForAll([k, j], Implies(And(k >= 0, k <= j, j <= p.top), S(p.first, k) <= S(p.first, j)), patterns=[z3.MultiPattern(S(p.first, k), S(p.first, j))])),
                             ('one open element per filter', z3.ForAll([k, j], Implies(And(k >= 0, k < j, j <= p.top), S(p.st, k) != S(p.st, j)), patterns=[z3.MultiPattern(S(p.st, k), S(p.st, j))]))]
    def pre(s, c):
        pf = c.a(0); t = s.St(c, c.cur, local=False); k, = K('k')
        f = lambda n: Not(Z(c.cur.get(pf, n).null))
        return [('pointers', And(f('tuple_list'), f('output'), f('ctx')))] + t.cv.wf() + t.cv.texts() + t.cv.closed(t.ps) + t.out.wf() + t.buf.wf() + t.open() + \
               [('nothing is open before the buffer exists', Implies(Z(c.cur.get(pf, 'buffer').null), t.ps.top == -1)),
                ('tuple list', And(t.tl.count >= -1, t.tl.count < MAXTL)), ('texts of tuples', FA([k], Implies(And(k >= 0, k <= t.tl.count), quoted(t.tl.txt(k))), t.tl.txt(k))), ('references have a name', s.named(c))]
    @staticmethod
    def named(c):
        tr = ev.TREE(c.cur, c.ex); k, = K('q'); pf = c.a(0); v = CV(c.cur, pf)
        return FA([k], Implies(And(SUB(k) > 0, Or(k < 0, k >= MAXP, S(v.none, k))), Not(S(tr.snull, SUB(k)))), SUB(k))
    def mods(s, c):
        pf = c.a(0); v = CV(c.old, pf); out, buf = c.old.get(pf, 'output'), c.old.get(pf, 'buffer'); z = ('i', iv(0)); tr = c.ex.childptr(v.root, ('[]', '[]', 'text'), Ty('ptr', CH), [iv(0), iv(0)], F).root
        return [pf.fld('buffer'), pf.fld('pstack'), out.fld('count'), buf.fld('count'), ('leaf', Ptr(v.root, (z, z, ('f', 'text')), False)), ('leaf', Ptr(tr, (z, z, z), False))] + [('leaf', Ptr(OV(c.old, x).rowroot, (z, z), False)) for x in (out, buf)]
    def post(s, c):
        pf = c.a(0); v = CV(c.cur, pf); k, = K('s'); o, n = OV(c.old, c.old.get(pf, 'output')), OV(c.cur, c.old.get(pf, 'output')); tl = TL(c.old, c.old.get(pf, 'tuple_list'))
        none = FA([k], Implies(And(k >= 0, k < MAXP), S(v.none, k)), S(v.none, k)); j, = K('j')
        out = [('returns the outputs', T if isinstance(c.res, Ptr) and c.res.root is n.p.root else F),
               ('without filters every text is output, in order', Implies(none, And(n.count == o.count + tl.count + 1, FA([j], Implies(And(j >= 0, j <= tl.count), n.cid(o.count + 1 + j) == libc.CID(tl.txt(j), iv(0))), tl.txt(j)))))]
        ps = PS(c.cur, Ptr(c.ex.local(c.frame, 'ps'))) if c.has('ps') else None
        if ps is not None:
            p2 = PS(c.cur, pf.fld('pstack')); out.append(('what is open is kept for the next piece', And(p2.top == ps.top, p2.st == ps.st, p2.first == ps.first)))
            b = c.cur.get(pf, 'buffer'); out.append(('the candidates are kept for the next piece', T if isinstance(b, Ptr) and isinstance(c.v('buffer'), Ptr) and b.root is c.v('buffer').root else F))
        return out
    nloops = 5
    # 0: is there a filter
    def inv_s(c):
        i = c.v('s'); v = CV(c.old, c.a(0)); k, = K('k')
        return [('range', And(i >= 0, i <= MAXP)), ('none so far', FA([k], Implies(And(k >= 0, k < i), S(v.none, k)), S(v.none, k)))]
    # 1: no filter
    def inv_copy(c):
        i = c.v('i'); pf = c.a(0); o, n = OV(c.old, c.old.get(pf, 'output')), OV(c.cur, c.old.get(pf, 'output')); tl = TL(c.old, c.old.get(pf, 'tuple_list')); k, = K('k')
        return [('range', And(i >= 0, i <= tl.count + 1, n.count == o.count + i))] + n.wf() + [('texts so far', FA([k], Implies(And(k >= 0, k < i), n.cid(o.count + 1 + k) == libc.CID(tl.txt(k), iv(0))), tl.txt(k)))]
    def as_copy(c):
        return [('the output list has room (MAX_OUTPUT)', OV(c.cur, c.old.get(c.a(0), 'output')).count < MAXO - 2)]
    def lem_copy(c):
        i = c.v('i'); tl = TL(c.old, c.old.get(c.a(0), 'tuple_list')); libc.strfacts(c.ex, tl.txt(i), iv(0)); return []
    # 2: tuples
    def inv_main(c):
        t = generateFinalOutput.St(c, c.cur); i = c.v('i')
        if t.buf is None or not isinstance(c.v('output'), Ptr) or c.v('output').root is not t.out.p.root: return [('lists', F)]
        return [('range', And(i >= 0, i <= t.tl.count + 1))] + t.cv.texts() + t.cv.closed(t.ps) + t.out.wf() + t.buf.wf() + t.open()
    def as_main(c):
        t = generateFinalOutput.St(c, c.cur); i = c.v('i'); x = t.tl.txt(i); q = S(t.tl.f['state'], i); k, = K('k'); op, cl = is_(x, '{'), is_(x, '}')
        return [('the lists have room (MAX_OUTPUT)', And(t.out.count + t.buf.count < MAXO - 3)), ('filters nest within MAX_STACK_ELEMENT', t.ps.top < MAXE - 1),
                ('opening and closing tuples nest, and filters do not nest in themselves', And(Implies(cl, t.ps.top >= 0), Implies(op, And(q >= 0, q < MAXP, Not(S(t.cv.none, q)), FA([k], Implies(And(k >= 0, k <= t.ps.top), S(t.ps.st, k) != q), S(t.ps.st, k)))))),
                ('texts come from states that are no filters', Implies(And(Not(op), Not(cl)), Or(q < 0, q >= MAXP, S(t.cv.none, q))))]
    def lem_main(c):
        t = generateFinalOutput.St(c, c.cur); i = c.v('i'); libc.strfacts(c.ex, t.tl.txt(i), iv(0)); known(c, t.tl.txt(i)); return d_dp(t.ps) + (d_dp(t.ps, PS(c.head, Ptr(c.ex.local(c.frame, 'ps')))) if c.head is not None else [])
    def step_main(c):
        St = generateFinalOutput.St; h, n = St(c, c.head), St(c, c.cur); i = c.head.get(Ptr(c.ex.local(c.frame, 'i'))); x = h.tl.txt(i); q = S(h.tl.f['state'], i)
        known(c, x); op, cl = is_(x, '{'), is_(x, '}'); out = []; k, j = K('k', 'j')
        def R(name, cond, *what):
            for lab, w in what: out.append(('%s: %s' % (name, lab), Implies(cond, w)))
        keepbuf, keepout, keepcond = same_out(n.buf, h.buf), same_out(n.out, h.out), n.cv.same(h.cv)
        keepps = And(n.ps.top == h.ps.top, n.ps.st == h.ps.st, n.ps.first == h.ps.first)
        # {
        R('element opens', op, ('it is remembered with its first candidate', And(n.ps.top == h.ps.top + 1, n.ps.st == z3.Store(h.ps.st, n.ps.top, q), n.ps.first == z3.Store(h.ps.first, n.ps.top, h.buf.count + 1))), ('candidates unchanged', keepbuf), ('outputs unchanged', keepout), ('conditions unchanged', keepcond),
          ('its conditions are absent', FA([k], Implies(And(k >= 0, k < NC(q)), S(S(n.cv.tnull, q), k)), S(S(n.cv.tnull, q), k))))
        # }
        ps, first = S(h.ps.st, h.ps.top), S(h.ps.first, h.ps.top)
        v = EVB(SUB(ps), S(h.cv.nm, ps), S(h.cv.tnull, ps), S(h.cv.tx, ps)); m = h.buf.count + 1 - first; o0 = h.out.count
        R('element ends', cl, ('back to the enclosing element', And(n.ps.top == h.ps.top - 1, n.ps.st == h.ps.st, n.ps.first == h.ps.first)),
          ('its conditions are absent again', FA([k], Implies(And(k >= 0, k < NC(ps)), S(S(n.cv.tnull, ps), k)), S(S(n.cv.tnull, ps), k))),
          ('conditions of other elements unchanged', And(n.cv.tnull == z3.Store(h.cv.tnull, ps, S(n.cv.tnull, ps)), n.cv.tx == h.cv.tx)))
        R('filter holds, no enclosing filter', And(cl, v, h.ps.top == 0), ('exactly its candidates are output, in order', And(n.out.count == o0 + m, FA([k], Implies(And(k >= 0, k < m), n.out.cid(o0 + 1 + k) == h.buf.cid(first + k)), h.buf.row(first + k)))),
          ('earlier outputs are kept', FA([k], Implies(And(k >= 0, k <= o0), n.out.row(k) == h.out.row(k)), n.out.row(k))), ('and leave the buffer', And(n.buf.count == first - 1, n.buf.rows == h.buf.rows)))
        R('filter holds, inside another filter', And(cl, v, h.ps.top > 0), ('candidates wait', keepbuf), ('outputs unchanged', keepout))
        R('filter fails', And(cl, Not(v)), ('its candidates are discarded', And(n.buf.count == first - 1, n.buf.rows == h.buf.rows)), ('outputs unchanged', keepout))
        # texts
        txt = And(Not(op), Not(cl)); inside = h.ps.top >= 0; tr = ev.TREE(c.head, c.ex); nmid = tr.cid(SUB(q)); ix = c.fresh('ix')
        found = And(SUB(q) > 0, ix >= 0, ix < NC(ps), h.cv.cid(ps, ix) == nmid, FA([k], Implies(And(k >= 0, k < ix), h.cv.cid(ps, k) != nmid), S(S(h.cv.nm, ps), k)))
        cand = Or(SUB(q) == 0, FA([k], Implies(And(k >= 0, k < NC(ps)), h.cv.cid(ps, k) != nmid), S(S(h.cv.nm, ps), k)))
        R('condition', And(txt, inside, found), ('gets the text', And(Not(S(S(n.cv.tnull, ps), ix)), n.cv.tcid(ps, ix) == libc.CID(x, iv(0)))),
          ('the others are unchanged', And(n.cv.tnull == z3.Store(h.cv.tnull, ps, z3.Store(S(h.cv.tnull, ps), ix, F)), n.cv.tx == z3.Store(h.cv.tx, ps, z3.Store(S(h.cv.tx, ps), ix, S(S(n.cv.tx, ps), ix))))), ('no candidate', keepbuf), ('outputs unchanged', keepout), ('stack', keepps))
        R('candidate', And(txt, inside, cand), ('waits at the end of the buffer', And(n.buf.count == h.buf.count + 1, n.buf.rows == z3.Store(h.buf.rows, h.buf.count + 1, n.buf.row(h.buf.count + 1)), n.buf.cid(h.buf.count + 1) == libc.CID(x, iv(0)))), ('conditions unchanged', keepcond), ('outputs unchanged', keepout), ('stack', keepps))
        R('text outside every filtered element', And(txt, Not(inside)), ('nothing changes', And(keepbuf, keepout, keepcond, keepps)))
        out.append(('tuples in order', c.v('i') == i + 1))
        return out
    # 3: release
    def inv_rel(c):
        St = generateFinalOutput.St; e, n = St(c, c.entry), St(c, c.cur); j = c.v('j'); f, b = c.v('first_idx'), c.v('buf_size'); k, = K('k')
        return [('range', And(j >= f, j <= b, n.out.count == e.out.count + (j - f)))] + n.out.wf() + [('earlier outputs', FA([k], Implies(And(k >= 0, k <= e.out.count), n.out.row(k) == e.out.row(k)), n.out.row(k))),
                ('released so far', FA([k], Implies(And(k >= 0, k < j - f), n.out.cid(e.out.count + 1 + k) == e.buf.cid(f + k)), e.buf.row(f + k)))]
    def lem_rel(c):
        t = generateFinalOutput.St(c, c.cur); libc.strfacts(c.ex, t.buf.row(c.v('j')), iv(0)); return []
    # 4: which condition
    def inv_cond(c):
        t = generateFinalOutput.St(c, c.cur); ix = c.v('index'); k, = K('k'); ps = c.v('pred_state'); nd = c.ex.toref(c.v('node')); tr = ev.TREE(c.cur, c.ex)
        return [('range', And(ix >= 0, ix <= NC(ps))), ('not yet', FA([k], Implies(And(k >= 0, k < ix, nd > 0), t.cv.cid(ps, k) != tr.cid(nd)), S(S(t.cv.nm, ps), k)))]
    def lem_cond(c):
        t = generateFinalOutput.St(c, c.cur); ps = c.v('pred_state'); nd = c.ex.toref(c.v('node')); tr = ev.TREE(c.cur, c.ex); libc.strfacts(c.ex, S(S(t.cv.nm, ps), c.v('index')), iv(0)); libc.strfacts(c.ex, S(tr.str, nd), iv(0)); return []
    loops = {0: Loop(inv=inv_s), 1: Loop(inv=inv_copy, assume=as_copy, lemma=lem_copy), 2: Loop(inv=inv_main, assume=as_main, step=step_main, lemma=lem_main), 3: Loop(inv=inv_rel, lemma=lem_rel), 4: Loop(inv=inv_cond, lemma=lem_cond)}
class initPredicateFilter(Spec):
    """a condition list for each filter of the query, everything absent, nothing open"""
    name = 'initPredicateFilter'
    def setup(s, c):
        v = CV(c.cur, c.a(0)); v.root.sizes[0] = iv(MAXP); v.root.sizes[1] = lambda lead: NC(lead[0]) + 1
    def pre(s, c):
        k, j = K('k', 'j'); tr = ev.TREE(c.cur, c.ex)
        return [('filters of the query', And(NPS >= 0, NPS <= MAXP, FA([k], Implies(And(k >= 0, k < NPS), And(PST(k) >= 0, PST(k) < MAXP, NC(PST(k)) >= 0, NC(PST(k)) < 2**20)), PST(k)))),
                ('each filter once', z3.ForAll([k, j], Implies(And(k >= 0, k < j, j < NPS), PST(k) != PST(j)), patterns=[z3.MultiPattern(PST(k), PST(j))])),
                ('references have a name', FA([k, j], Implies(And(k >= 0, k < MAXP, j >= 0, j < NC(k)), And(SUB(CST(k, j)) > 0, Not(S(tr.snull, SUB(CST(k, j)))))), CST(k, j)))]
    @staticmethod
    def lists(c, v, st, n):
        """the first n conditions of filter st"""
        k, = K('k'); tr = ev.TREE(c.cur, c.ex)
        return FA([k], Implies(And(k >= 0, k < n), And(Not(S(S(v.nnull, st), k)), S(S(v.tnull, st), k), v.cid(st, k) == tr.cid(SUB(CST(st, k))))), S(S(v.nnull, st), k), S(S(v.tnull, st), k), S(S(v.nm, st), k))
    @staticmethod
    def done(c, v, i):
        j, k, s = K('j', 'k', 's'); tr = ev.TREE(c.cur, c.ex); st = PST(j); ok = And(j >= 0, j < i, k >= 0, k < NC(st))
        return [('a list for each filter', FA([j], Implies(And(j >= 0, j < i), And(Not(S(v.none, PST(j))), S(S(v.nnull, PST(j)), NC(PST(j))))), PST(j))),
                ('its conditions, by name and absent', FA([j, k], Implies(ok, And(Not(S(S(v.nnull, st), k)), S(S(v.tnull, st), k), v.cid(st, k) == tr.cid(SUB(CST(st, k))))), S(S(v.nnull, st), k), S(S(v.tnull, st), k), S(S(v.nm, st), k))),
                ('and no other list', FA([s], Implies(And(s >= 0, s < MAXP, FA([j], Implies(And(j >= 0, j < i), PST(j) != s), PST(j))), S(v.none, s)), S(v.none, s)))]
    def mods(s, c):
        v = CV(c.old, c.a(0)); z = ('i', iv(0)); ex = c.ex; ch = lambda f: ex.childptr(v.root, ('[]', '[]', f), Ty('ptr', CH), [iv(0), iv(0)], F).root
        return [c.a(0)] + [('leaf', Ptr(v.root, (z, z, ('f', f)), False)) for f in ('name', 'text')] + [('leaf', Ptr(ch(f), (z, z, z), False)) for f in ('name', 'text')]
    def post(s, c):
        pf = c.a(0); v = CV(c.cur, pf); out = c.cur.get(pf, 'output'); b = c.cur.get(pf, 'buffer')
        if not isinstance(out, Ptr) or not isinstance(c.cur.get(out, 'element'), Ptr): return [('output list', F)]
        return initPredicateFilter.done(c, v, NPS) + [('no outputs yet', OV(c.cur, out).count == -1), ('no candidates yet', T if isinstance(b, Ptr) and b.root is None else F), ('nothing open', PS(c.cur, pf.fld('pstack')).top == -1),
                ('reads the given tuples', T if c.cur.get(pf, 'tuple_list').root is c.a(1).root else F)]
    nloops = 3
    def inv0(c):
        i = c.v('i'); v = CV(c.cur, c.a(0)); k, = K('k'); return [('range', And(i >= 0, i <= MAXP)), ('none', FA([k], Implies(And(k >= 0, k < i), S(v.none, k)), S(v.none, k)))]
    def inv1(c):
        i = c.v('i'); return [('range', And(i >= 0, i <= NPS))] + initPredicateFilter.done(c, CV(c.cur, c.a(0)), i)
    def inv2(c):
        i, j = c.v('i'), c.v('j'); st = c.v('pred_state'); v, e = CV(c.cur, c.a(0)), CV(c.entry, c.a(0))
        return [('range', And(j >= 0, j <= NC(st))), ('conditions so far', initPredicateFilter.lists(c, v, st, j)), ('the list', Not(S(v.none, st))), ('others unchanged', And(*[getattr(v, f) == z3.Store(getattr(e, f), st, S(getattr(v, f), st)) for f in ('nnull', 'nm', 'tnull', 'tx', 'none')]))]
    loops = {0: Loop(inv=inv0), 1: Loop(inv=inv1), 2: Loop(inv=inv2)}
def is_(t, w): return libc.CID(t, iv(0)) == libc.litid(w)
def known(c, t):
    for w in ('{', '}'): c.ex.strlit(w); ev.litknown(c.ex, w)
    libc.strfacts(c.ex, t, iv(0))
SPECS = [x for x in lex.SPECS if x.name in ('strcopy', 'allocate_and_copy')] + [x for x in stream.SPECS if x.name in ('getTuple', 'getTupleListSize')] + \
    [addOutputElement(), getOutputElement(), getOutputSize(), removeOutputElement(), initOutput(), createOutput(), initPredicateStack(), pushPredicateStack(), popPredicateStack(), getTopPredicateStack(), getPredicateStackSize(),
     getContextSubtree(), getContextSizeOfPredicateStates(), getContextPredicateStates(), getContextSizeOfMapping(), getContextValueOfMapping(), evaluateExpression(), clearPredicateCondtion(), initPredicateFilter(), generateFinalOutput()]
def modules():
    return Module(TU(['JSONQuery/predicate.c']), SPECS, buf=dfa.BUFS, regions=REGIONS)
