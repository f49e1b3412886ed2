"""Contracts of unit.h, worker_automaton.h and worker_automaton.c: the parts a worker is composed of."""
from specs.common import *
from specs import lex, dfa, stream, multi
from specs.lex import Tok, LexView, isstr
from specs.dfa import DV, inrange
from specs.stream import SS, LCB, RCB, LB, RB, COM, KY, PRI, END, OUT, MAXST
from specs.multi import MS, NF, rng, isroot, MAXN, MAXI, pres
from jpv import libc
MAXQ, MAXU = 100, 100
INCOMPLETE, UNSELECTED = 4, 5

# ---------------------------------------------------------------- unit.h
ND = [(f,) for f in NF] + [(r, f) for r in ('parent_range', 'root_range') for f in ('start', 'end')]
class UV:
    """view of a Unit"""
    def __init__(v, view, p):
        v.ns, v.nu, v.nr, v.state, v.pruned = [view.get(p, f) for f in ('count_start_states', 'count_unmatched_symbols', 'num_root', 'unit_state', 'has_pruned')]
        v.ut, v.ui = view.arr(p, 'unmatched_symbols', '[]', 'token_type'), view.arr(p, 'unmatched_symbols', '[]', 'index')
        v.root = [view.arr(p, 'root_node', '[]', *f) for f in ND]; v.p = p; v.view = view
        v.start, v.end = view.get(p, 'start'), view.get(p, 'end')
def isnull(p): return T if isinstance(p, Ptr) and p.root is None else Z(p.null) if isinstance(p, Ptr) else Z(p) == 0
def sameptr(c, p, q):
    if not isinstance(p, Ptr) or not isinstance(q, Ptr): return F
    if p.root is None or q.root is None: return And(isnull(p), isnull(q))
    if p.root is not q.root or len(p.path) != len(q.path): return F
    return And(Z(p.null) == Z(q.null), p.off == q.off)
class initUnit(Spec):
    name = 'initUnit'; modular = False
    def mods(s, c): return [c.a(0).fld(f) for f in ('count_start_states', 'count_unmatched_symbols', 'num_root', 'unit_state', 'has_pruned', 'start', 'end')]
    def post(s, c):
        v = UV(c.cur, c.a(0))
        return [('empty: no symbols, no roots, not begun, not pruned', And(v.ns == -1, v.nu == -1, v.nr == -1, v.state == 0, v.pruned == 0)), ('no text yet', And(isnull(v.start), isnull(v.end)))]
class initUnitList(Spec):
    name = 'initUnitList'; modular = False
    def mods(s, c): return [c.a(0).fld('count_units')]
    def post(s, c): return [('empty', c.cur.get(c.a(0), 'count_units') == -1)]
class getSizeUnitList(Spec):
    name = 'getSizeUnitList'; modular = False
    def pre(s, c): return [('list', And(c.cur.get(c.a(0), 'count_units') >= -1, c.cur.get(c.a(0), 'count_units') < MAXU))]
    def post(s, c): return [('size', c.res == c.old.get(c.a(0), 'count_units') + 1)]
class addPosition(Spec):
    modular = False
    def mods(s, c): return [c.a(0).fld(s.f)]
    def post(s, c): return [('set', sameptr(c, c.cur.get(c.a(0), s.f), c.a(1)))]
class addStartPosition(addPosition): name = 'addStartPosition'; f = 'start'
class addEndPosition(addPosition): name = 'addEndPosition'; f = 'end'
class addUnmatchedSymbol(Spec):
    """appended at the end; the unit begins with an unmatched symbol"""
    name = 'addUnmatchedSymbol'; modular = False
    def pre(s, c): n = c.cur.get(c.a(0), 'count_unmatched_symbols'); return [('room', And(n >= -1, n < MAXQ - 1))]
    def mods(s, c): return [c.a(0).fld(f) for f in ('count_unmatched_symbols', 'unit_state')] + [('leaf', c.a(0).fld('unmatched_symbols', iv(0), f)) for f in ('token_type', 'index')]
    def post(s, c):
        o, v = UV(c.old, c.a(0)), UV(c.cur, c.a(0)); y = c.a(1); i = o.nu + 1
        return [('appended', And(v.nu == i, S(v.ut, i) == y.leaves[('token_type',)], S(v.ui, i) == y.leaves[('index',)])), ('earlier symbols are kept', pres(v, o, i, lambda x: [x.ut, x.ui])), ('the unit starts with an unmatched symbol', v.state == 1)]
class addRoots(Spec):
    """the unit remembers these nodes, in their order"""
    name = 'addRoots'
    def setup(s, c): c.args[1] = Ptr(c.ex.mkroot('nodes', Ty('arr', Ty('struct', 'TreeNode'))), (('i', iv(0)),), False); c.a(1).root.sizes[0] = If(c.a(2) > 0, c.a(2), 0)
    def pre(s, c): return [('roots fit the unit (MAX_STATE)', And(c.a(2) >= 0, c.a(2) <= MAXQ))]
    def mods(s, c): return [c.a(0).fld('num_root')] + [('leaf', c.a(0).fld('root_node', iv(0), *f)) for f in ND]
    @staticmethod
    def copied(c, n):
        v = UV(c.cur, c.a(0)); k, = K('k'); p = c.a(1)
        src = [c.old.arr(Ptr(p.root, p.path[:-1], False), '[]', *f) for f in ND]; o = p.path[-1][1]
        return FA([k], Implies(And(k >= 0, k < n), And(*[S(a, k) == S(b, o + k) for a, b in zip(v.root, src)])), S(v.root[0], k))
    def post(s, c): return [('exactly these nodes', s.copied(c, c.a(2))), ('their number', UV(c.cur, c.a(0)).nr == c.a(2))]
    nloops = 1
    loops = {0: Loop(inv=lambda c: [('range', And(c.v('i') >= 0, c.v('i') <= c.a(2))), ('copied', addRoots.copied(c, c.v('i')))])}
class UL:
    def __init__(v, view, p):
        v.n = view.get(p, 'count_units'); g = lambda *f: view.arr(p, 'units', '[]', *f)
        v.sc = {f: g(f) for f in ('count_start_states', 'count_unmatched_symbols', 'num_root', 'unit_state', 'has_pruned')}
        v.deep = [g('unmatched_symbols', '[]', 'token_type'), g('unmatched_symbols', '[]', 'index')] + [g('root_node', '[]', *f) for f in ND]
class addUnit(Spec):
    """appended at the end of the list, complete"""
    name = 'addUnit'; modular = False
    def pre(s, c): n = c.cur.get(c.a(0), 'count_units'); return [('room', And(n >= -1, n < MAXU - 1))]
    def mods(s, c): return [c.a(0)]
    def post(s, c):
        o, v = UL(c.old, c.a(0)), UL(c.cur, c.a(0)); u = c.a(1); i = o.n + 1; k, = K('k')
        nm = [('unmatched_symbols', '[]', 'token_type'), ('unmatched_symbols', '[]', 'index')] + [('root_node', '[]') + f for f in ND]
        return [('one more', v.n == i), ('the unit', And(*[S(a, i) == u.leaves[(f,)] for f, a in v.sc.items()])), ('its symbols and roots', And(*[S(a, i) == u.leaves[f] for f, a in zip(nm, v.deep)])),
                ('earlier units are kept', FA([k], Implies(And(k >= 0, k < i), And(*[S(a, k) == S(b, k) for a, b in zip(list(v.sc.values()) + v.deep, list(o.sc.values()) + o.deep)])), S(v.sc['num_root'], k)))]

# ---------------------------------------------------------------- worker_automaton.c
def wtype(d, q, n, root):
    """kind of a state; in a state whose count started inside the chunk, an index range can only be bounded from above"""
    a = z3.Select(d.acc, q); lo, up = z3.Select(d.lo, q), z3.Select(d.up, q); free = And(lo == 0, up == 0); zero = iv(0)
    r = If(free, a, If(n < up, If(a == OUT, iv(UNSELECTED), iv(INCOMPLETE)), zero))
    return If(root, r, If(And(a == OUT, Not(Or(free, And(n >= lo, n < up)))), zero, a))
class getMatchedType(Spec):
    name = 'getMatchedType'; modular = False
    def setup(s, c): dfa.dfa_setup(s, c)
    def pre(s, c): d = DV(c.cur, c.a(0)); return d.wf() + [('state', inrange(d, c.cur.get(c.a(1), 'query_state')))]
    def post(s, c):
        d = DV(c.old, c.a(0)); g = lambda *f: c.old.get(c.a(1), *f)
        return [('matched type', c.res == wtype(d, g('query_state'), g('count'), g('root_range', 'end') == -1))]
def pushed(o, n, *syms):
    """n is o with the symbols on top"""
    a, t = o.sym, o.top; k, = K('s')
    for x in syms: t = t + 1; a = z3.Store(a, t, x)
    return And(n.top == t, FA([k], Implies(And(k >= 0, k <= t), z3.Select(n.sym, k) == z3.Select(a, k)), z3.Select(n.sym, k)))
class syntaxStackInference(Spec):
    """what must enclose the value that ends here, from the two tokens that follow it"""
    name = 'syntaxStackInference'
    def setup(s, c): lex.nextToken().setup(c)
    def pre(s, c):
        return [p for p in lex.nextToken().pre(c) if p[0] != 'content buffer'] + [('stacks', And(SS(c.cur, c.a(2)).wf(), SS(c.cur, c.a(3)).wf())), ('the inferred stack is empty', SS(c.cur, c.a(2)).top == -1)]
    def mods(s, c): return [c.a(0), c.a(2)]
    def lemma(s, c): return sum((t.defs() for t in s.toks(c)), [])
    def toks(s, c):
        o = LexView(c, c.old)
        if not o.ok: return []
        t1 = Tok(o.s, o.L, o.n); return [t1, Tok(o.s, o.L, t1.next)]
    def post(s, c):
        ts = s.toks(c)
        if not ts: return [('lexer', F)]
        t1, t2 = [t.type for t in ts]; tt = c.a(1); ss, o, n = SS(c.old, c.a(3)), SS(c.old, c.a(2)), SS(c.cur, c.a(2)); sz = ss.top + 1
        inkey = Or(t1 == RCB, And(t1 == COM, t2 == KY)); out = []
        def R(nm, g, *sy): out.append((nm, Implies(g, pushed(o, n, *[iv(x) for x in sy]))))
        for nm, br in (('}', RCB), (']', RB)):
            op = LCB if br == RCB else LB; g = tt == br; alone = Or(t1 == op, t1 == END)
            R("'%s' of the bottom container: value of a key" % nm, And(g, sz == 1, inkey), KY)
            R("'%s' of the bottom container: root" % nm, And(g, sz == 1, Not(inkey), alone))
            R("'%s' of the bottom container: element" % nm, And(g, sz == 1, Not(inkey), Not(alone)), LB)
            R("unmatched '%s': value of a key" % nm, And(g, sz == 0, inkey), KY, op)
            R("unmatched '%s': root" % nm, And(g, sz == 0, Not(inkey), alone), op)
            R("unmatched '%s': element" % nm, And(g, sz == 0, Not(inkey), Not(alone)), LB, op)
            R("'%s' of a nested container: nothing" % nm, And(g, sz > 1))
        R('primitive: value of a key', And(tt == PRI, inkey), KY)
        R('primitive: element', And(tt == PRI, Not(inkey)), LB)
        R('other tokens: nothing', And(tt != RCB, tt != RB, tt != PRI))
        return out

# ---------------------------------------------------------------- the transition rules
def sspost(c, i, push=(), pop=0):
    o, n = SS(c.old, c.a(i)), SS(c.cur, c.a(i)); k, = K('s')
    if push: return pushed(o, n, *[iv(x) for x in push])
    return And(n.top == o.top - pop, n.sym == o.sym)
class Rule(Spec):
    """a transition rule: SS/QE/QS are the argument numbers of the syntax stack, the current level and the query stacks"""
    modular = False; push = (); pop = 0; npop = 0; QE = QST = None; grow = None
    def pre(s, c):
        o = SS(c.cur, c.a(s.SSA)); r = [('syntax stack', And(o.wf(), o.top >= s.pop - 1, o.top < MAXST - 2))]
        if s.npop:
            v = MS(c.cur, c.a(s.QST)); r += [('stacks', v.wf()), ('saved levels', v.top >= s.npop - 1)]
            for j in range(s.npop):
                t = v.item(v.top - j); r.append(('saved level', And(t[0] >= 0, t[0] <= t[1], t[1] < v.nn, S(v.pe, t[1]) >= -1, S(v.pe, t[1]) < MAXN - 1, S(v.re, t[1]) >= -1, S(v.re, t[1]) < MAXN - 1)))
            if s.npop == 2: r.append(('levels lie in order', v.item(v.top - 1)[1] < v.item(v.top)[0]))
        return r
    def mods(s, c):
        r = [c.a(s.SSA)]
        if s.npop: r += [c.a(s.QE)] + [c.a(s.QST).fld(f) for f in ('num_node', 'num_parent_pointers', 'num_root_pointers', 'top_item')]
        return r
    def post(s, c):
        r = [('syntax stack', sspost(c, s.SSA, s.push, s.pop))]
        if s.npop:
            o, v = MS(c.old, c.a(s.QST)), MS(c.cur, c.a(s.QST)); t = o.item(o.top - s.npop + 1); e = [c.cur.get(c.a(s.QE), f) for f in ('start', 'end')]
            r += [('the enclosing level is current again', And(e[0] == t[0], e[1] == t[1], v.top == o.top - s.npop)), ('its nodes are the last', v.nn == t[1] + 1), ('its pointers are the last', And(v.npp == S(o.pe, t[1]) + 1, v.nrp == S(o.re, t[1]) + 1))]
        return r
class obj_s(Rule): name = 'obj_s'; SSA = 0; push = (LCB,)
class obj_e(Rule): name = 'obj_e'; SSA = 0; pop = 1
class elt_obj_e(Rule): name = 'elt_obj_e'; SSA = 0; pop = 1
class val_obj_e(Rule): name = 'val_obj_e'; QE = 0; SSA = 1; QST = 2; pop = 2; npop = 1
class ary_e(Rule): name = 'ary_e'; QE = 0; SSA = 1; QST = 2; pop = 1; npop = 1
class val_ary_e(Rule): name = 'val_ary_e'; QE = 0; SSA = 1; QST = 2; pop = 2; npop = 2
class elt_ary_e(Rule): name = 'elt_ary_e'; QE = 0; SSA = 1; QST = 2; pop = 1; npop = 1
class val_pmt(Rule): name = 'val_pmt'; QE = 0; SSA = 1; QST = 2; pop = 1; npop = 1
class mover(Spec):
    """saves the current level and moves on by the contract of queryStacksPush; one more open container or key"""
    modular = False
    def setup(s, c):
        s2 = c.args; c.args = [c.a(0)]; dfa.dfa_setup(s, c); c.args = s2; c.args[0] = c.args[0]
    def adapt(s, c, view):
        import copy
        x = copy.copy(c); e = view.get(c.a(1)); args = [c.a(s.QST), e, c.a(0), s.keyarg(c)]; x.args = args; x.a = lambda i: args[i]; x.call = True; return x
    def pre(s, c):
        o = SS(c.cur, c.a(s.SSA))
        return [('syntax stack', And(o.wf(), o.top < MAXST - 1))] + multi.queryStacksPush().pre(s.adapt(c, c.cur))
    def mods(s, c): return [c.a(1), c.a(s.SSA), c.a(s.QST)]
    def post(s, c):
        o, v = MS(c.old, c.a(s.QST)), MS(c.cur, c.a(s.QST)); a, b = rng(c.old.get(c.a(1))); e = rng(c.cur.get(c.a(1)))
        return [('one more open container or key', sspost(c, s.SSA, (s.sym,))), ('the current level is saved', And(v.top == o.top + 1, v.is_ == z3.Store(o.is_, o.top + 1, a), v.ie == z3.Store(o.ie, o.top + 1, b))),
                ('the new level follows and is the last', And(e[0] == b + 1, v.level(*e))), ('earlier levels are kept', pres(v, o, b + 1, lambda x: x.allnode))]
class ary_s(mover):
    name = 'ary_s'; SSA = 2; QST = 3; sym = LB
    def keyarg(s, c): return Ptr(None, (), True)
class key(mover):
    name = 'key'; SSA = 3; QST = 4; sym = KY
    def keyarg(s, c): return c.a(2)
UNIT = [initUnit(), initUnitList(), getSizeUnitList(), addStartPosition(), addEndPosition(), addUnmatchedSymbol(), addRoots(), addUnit()]
RULES = [obj_s(), obj_e(), elt_obj_e(), val_obj_e(), ary_e(), val_ary_e(), elt_ary_e(), val_pmt(), ary_s(), key()]
SPECS = multi.SPECS + [x for x in lex.SPECS if x.name not in {y.name for y in multi.SPECS}] + UNIT + RULES + [getMatchedType(), syntaxStackInference()]
def modules(v=''):
    return Module(TU(['JSONQuery/worker_automaton.c']), SPECS, buf=dfa.BUFS, untracked=('start', 'end') if v == 'list' else ())
