"""Contract of executeWorkerAutomaton: the effect of every token on the stacks, on every speculative state, on the units and on the results.
The contracts of the functions it calls are those proved in modules multi, cons, lex and worker; here only the part that is needed is used.
Results are observed in ghost maps (node -> how often, with which text): what addTupleInfo does with them is its own contract."""
from specs.common import *
from specs import lex, dfa, stream, multi, worker, cons
from specs.lex import Tok, LexView, isstr
from specs.dfa import DV, inrange
from specs.stream import SS, LCB, RCB, LB, RB, COM, KY, PRI, END, OUT, COND, PRED, MAXST, CN, d_cn
from specs.multi import MS, NF, rng, isroot, MAXN, MAXI, pres, PUSH
from specs.worker import UV, UL, ND, wtype, INCOMPLETE, UNSELECTED, MAXQ, MAXU, pushed
from specs.cons import CTV
from jpv import libc
ARR2 = z3.ArraySort(INT, ARR)
REC = ('rec_n', 'rec_text', 'rec_from', 'rec_to', 'rec_chars')     # node -> number of results, text, range (virtual results), bytes
TAGS = ('lastpush', 'lastprune', 'lastinit')
def record(c, node, text=None, virt=None):
    ex = c.ex; g = ex.ghost
    ex.setghost('rec_n', z3.Store(g['rec_n'], node, z3.Select(g['rec_n'], node) + 1))
    if text is not None:
        ar, o = c.old.chars(text); libc.strfacts(ex, ar, o); ex.setghost('rec_text', z3.Store(g['rec_text'], node, libc.CID(ar, o)))
        if z3.is_int_value(z3.simplify(Z(o))) and z3.simplify(Z(o)).as_long() == 0: ex.setghost('rec_chars', z3.Store(g['rec_chars'], node, ar))
    if virt is not None:
        ex.setghost('rec_from', z3.Store(g['rec_from'], node, virt[0])); ex.setghost('rec_to', z3.Store(g['rec_to'], node, virt[1]))
class addTupleInfo(multi.addTupleInfo):
    def pre(s, c):
        v = MS(c.cur, c.a(0)); i = c.a(1)
        return [('stacks', v.wf()), ('node', And(i >= 0, i < v.nn, S(v.rs, i) >= 0, Or(isroot(v, i), And(S(v.rs, i) <= S(v.re, i), S(v.re, i) < v.nrp)))), ('the state of the node', c.a(2) == S(v.st, i))] + s.textpre(c)
    def post(s, c):
        if s.name == 'addTupleInfo': record(c, c.a(1), text=c.a(3))
        else: record(c, c.a(1), virt=(c.a(3), c.a(4)))
        return []
class addVirtualTupleInfo(addTupleInfo):
    name = 'addVirtualTupleInfo'; RS = multi.addVirtualTupleInfo.RS
    def textpre(s, c): return []
class queryStacksPush(multi.queryStacksPush):
    def post(s, c):
        P = PUSH(c); v = MS(c.cur, c.a(0)); c.ex.lastpush = (P, rng(c.res), v); full = super().post(c)
        keep = ('the current level is saved', 'the new level follows', 'the new level is the last', 'one fresh node for each state', 'every state moves on', 'links lie in the tables', 'earlier levels are kept', 'stacks')
        return [(l, f) for l, f in full if l in keep]
class pruneQueryPaths(multi.pruneQueryPaths):
    def post(s, c):
        c.ex.lastprune = (c, MS(c.cur, c.a(0)), rng(c.res)); return super().post(c)
class initQueryStacks(multi.initQueryStacks):
    def post(s, c):
        c.ex.lastinit = (c.ex.lastinit or []) + [c]; return super().post(c)
class getMatchedType(worker.getMatchedType):
    modular = True
class syntaxStackInference(worker.syntaxStackInference):
    def pre(s, c): return super().pre(c)

def posof(ex, p): x = ex.toref(p); return iv(-2) if x is None else x - 1      # position in the text, -1: none
class W:
    """state of a worker at a point of the loop"""
    def __init__(t, c, view):
        ex = c.ex; L = lambda n: Ptr(ex.local(c.frame, n)); t.c, t.view = c, view; wa = c.a(0)
        t.ss, t.sh, t.qs = SS(view, L('ss')), SS(view, L('shadow_ss')), MS(view, L('qs'))
        t.lev = rng(view.get(L('qs_elt'))); t.u = UV(view, L('unit')); t.ul = UL(view, wa.fld('unit_list')); t.us, t.ue = posof(ex, t.u.start), posof(ex, t.u.end); t.ups = [view.arr(wa.fld('unit_list'), 'units', '[]', f) for f in ('start', 'end')]; t.from_ = view.get(L('token_start')).off
        t.tt = view.get(L('token_type')); tok = view.get(L('token')); t.ctype = tok.leaves[('token_type',)]; t.cp = tok.leaves[('content',)]
        lx = L('lexer')
        class A: pass
        a = A(); a.a = lambda i: lx
        t.lx = LexView(a, view); t.d = DV(c.old, c.old.get(wa, 'query_automaton')); t.id = c.old.get(wa, 'id')
        t.q0 = view.arr(L('query_state'), '[]'); t.nq = view.get(L('num_query_state'))
        t.ctp = view.get(L('ct')); t.ct = CTV(view, t.ctp) if isinstance(t.ctp, Ptr) and t.ctp.root is not None else None
        t.cf = view.get(L('constraint_flag'))
    def content(t):
        if not isinstance(t.cp, Ptr) or t.cp.root is None: return None
        ar, o = t.view.chars(t.cp); libc.strfacts(t.c.ex, ar, o); return libc.CID(ar, o)
def mt(d, q, k): return wtype(d, S(q.st, k), S(q.cnt, k), isroot(q, k))
def out_(t, m): return Or(m == OUT, And(t.id > 0, m == UNSELECTED))
def lvl(k, lev): return And(k >= lev[0], k <= lev[1])
def nodeloop(spec):
    """an inner loop over the nodes of a level: spec(c, t, q, k) -> (visited, matched_start, count, recorded, kind); q: the nodes before the loop"""
    def inv(c):
        t = W(c, c.cur); e = W(c, c.entry); q, n = e.qs, t.qs; k, x = K('k', 'x'); i = c.v('start_index'); g, g0 = c.ex.ghost, c.gentry; lev = e.lev0 = spec.level(c, e)
        done = And(lvl(k, lev), k < i); o = [('range', And(i >= lev[0], i <= lev[1] + 1)), ('end of the level', c.v('end_index') == lev[1])]
        ms, cnt, rec, text = spec.effect(c, e, q, k)
        o.append(('pending matches', FA([k], S(n.ms, k) == If(done, ms, S(q.ms, k)), S(n.ms, k)))); o.append(('counts', FA([k], S(n.cnt, k) == If(done, cnt, S(q.cnt, k)), S(n.cnt, k))))
        o.append(('number of results', FA([k], z3.Select(g['rec_n'], k) == z3.Select(g0['rec_n'], k) + If(And(done, rec), 1, 0), z3.Select(g['rec_n'], k))))
        if text is not None: o += texts(c, e, lambda k: And(lvl(k, lev), k < i), g, g0, text)
        else: o.append(('texts', And(*[g[r] == g0[r] for r in REC[1:]])))
        return o
    return Loop(inv=inv)
def texts(c, e, done, g, g0, text):
    """the recorded results: text(k) -> [(condition, 'lit', id) | (condition, 'cut', from, to) ]"""
    k, x = K('k', 'x'); o = []; s = e.lx.s
    for item in text(k):
        cond, kind = And(done(k), item[0]), item[1]
        if kind == 'lit': o.append(('texts', FA([k], Implies(cond, z3.Select(g['rec_text'], k) == item[2]), z3.Select(g['rec_text'], k))))
        else:
            a, b = item[2], item[3]; ch = z3.Select(g['rec_chars'], k)
            o.append(('exact texts', FA([k, x], Implies(And(cond, e.id == 0, x >= 0, x < b - a), z3.Select(ch, x) == z3.Select(s, a + x)), z3.Select(ch, x))))
            o.append(('exact lengths', FA([k], Implies(And(cond, e.id == 0), z3.Select(ch, b - a) == 0), ch)))
            o.append(('exact ranges', FA([k], Implies(And(cond, e.id > 0), And(z3.Select(g['rec_from'], k) == a, z3.Select(g['rec_to'], k) == b)), z3.Select(g['rec_from'], k))))
    other = Not(Or(*[And(done(k), it[0]) for it in text(k)]))
    for r in REC[1:4]: o.append(('other nodes', FA([k], Implies(other, z3.Select(g[r], k) == z3.Select(g0[r], k)), z3.Select(g[r], k))))
    o.append(('other nodes', FA([k], Implies(other, z3.Select(g['rec_chars'], k) == z3.Select(g0['rec_chars'], k)), z3.Select(g['rec_chars'], k))))
    return o
cur = lambda c, e: e.lev
top = lambda c, e: e.qs.item(e.qs.top)
class Fx:
    def __init__(s, level, effect): s.level, s.effect = level, effect
def fx_open(c, e, q, k):          # '{'
    m = mt(e.d, q, k); o = out_(e, m)
    return If(o, e.lx.n - 1, S(q.ms, k)), S(q.cnt, k), And(Not(o), Or(m == PRED, m == COND)), lambda k: [(And(Not(out_(e, mt(e.d, q, k))), mt(e.d, q, k) == PRED), 'lit', libc.litid('{')), (And(Not(out_(e, mt(e.d, q, k))), mt(e.d, q, k) == COND), 'lit', libc.litid(''))]
def fx_arr(c, e, q, k):           # '['
    m = mt(e.d, q, k); o = out_(e, m)
    return If(o, e.lx.n - 1, S(q.ms, k)), S(q.cnt, k), And(Not(o), m == COND), lambda k: [(And(Not(out_(e, mt(e.d, q, k))), mt(e.d, q, k) == COND), 'lit', libc.litid(''))]
def fx_close(arr):                # '}' and ']': pending matches end
    def f(c, e, q, k):
        end = lambda k: And(S(q.ms, k) != -1, out_(e, mt(e.d, q, k))); inc = lambda k: And(S(q.ms, k) != -1, Not(end(k)), mt(e.d, q, k) == INCOMPLETE)
        t = lambda k: [(end(k), 'cut', S(q.ms, k), e.lx.n)] + ([(inc(k), 'lit', libc.litid(']'))] if arr else [])
        return If(end(k), -1, S(q.ms, k)), S(q.cnt, k), Or(end(k), inc(k)) if arr else end(k), t
    return f
def fx_elem(kinds):               # an element of the array ends
    def f(c, e, q, k):
        r = lambda k: Or(*[mt(e.d, q, k) == x for x in kinds]) if kinds else F
        return S(q.ms, k), S(q.cnt, k) + 1, r(k), (lambda k: [(r(k), 'lit', libc.litid('}'))]) if kinds else None
    return f
def fx_pri(always):               # a primitive
    def f(c, e, q, k):
        m = lambda k: mt(e.d, q, k); r = lambda k: Or(out_(e, m(k)), m(k) == COND); el = T if always else And(e.ss.top >= 0, S(e.ss.sym, e.ss.top) == LB); ck = e.content()
        return S(q.ms, k), S(q.cnt, k) + If(el, 1, 0), r(k), (lambda k: [(r(k), 'lit', ck)]) if ck is not None else None
    return f

def resumed(c, view):
    wa = c.a(0); return Or(view.get(wa, 'need_reprocess') == 1, And(view.get(wa, 'id') == 0, view.get(wa, 'initial_flag') == 1))
class executeWorkerAutomaton(Spec):
    name = 'executeWorkerAutomaton'
    def setup(s, c):
        wa = c.a(0); qa = c.cur.get(wa, 'query_automaton')
        s2 = c.args; c.args = [qa] + list(c.args); dfa.dfa_setup(s, c); c.args = s2
        c.args[1].root.sizes[0] = z3.Int('L') + 1; c.ex.bound['@text'] = c.args[1].root     # units: positions of the text
        for r in REC[:4]: c.ex.setghost(r, z3.Const(r + '0', ARR))
        c.ex.setghost('rec_chars', z3.Const('rec_chars0', ARR2))
        for t in TAGS: setattr(c.ex, t, None)
        c.ex.mainhead = None; c.ex.setghost('before', iv(COM))
    def pre(s, c):
        wa = c.a(0); d = DV(c.cur, c.cur.get(wa, 'query_automaton')); L = libc.slen(c.ex, c.a(1)); ss, q = SS(c.cur, wa.fld('syntax_stack')), MS(c.cur, wa.fld('query_stacks')); k, j = K('k', 'j')
        g = lambda *f: c.cur.get(wa, *f); lev = [g('query_stacks_element', f) for f in ('start', 'end')]; ct = g('constraint_table')
        o = d.wf() + [('automaton table', And(d.N * d.n < 2**31, d.N <= MAXQ - 1, d.N >= 2)), ('pointers', And(Not(Z(g('query_automaton').null)), Not(Z(g('tuple_list').null)))), ('text', And(L == z3.Int('L') if not c.call else T, L < 2**30)), ('worker', And(g('id') >= 0, Or(*[g('constraint_flag') == x for x in (0, 1)]))),
             ('worker 0 goes on from its stacks, the others start afresh', Implies(g('id') > 0, g('need_reprocess') != 1)), ('saved stacks', Implies(resumed(c, c.cur), And(ss.wf(), *[f for _, f in nodeinv(d, q, lev, ss)])))]
        if isinstance(ct, Ptr) and ct.root is not None:
            v = CTV(c.cur, ct); o.append(('constraint table', Implies(g('constraint_flag') == 1, And(Not(Z(ct.null)), v.wf(), FA([k, j], Implies(And(k >= 0, k < v.num, j >= 0, j < S(v.ns, k)), inrange(d, S(S(v.st, k), j))), S(S(v.st, k), j)), FA([k], Implies(And(k >= 0, k < v.num), S(v.ns, k) <= d.N), S(v.ns, k))))))
        return o
    def mods(s, c): return None
    def post(s, c):
        if c.call: return []
        wa = c.a(0); t = W(c, c.cur); n = MS(c.cur, wa.fld('query_stacks')); ss = SS(c.cur, wa.fld('syntax_stack')); e = c.cur.get(wa, 'query_stacks_element', 'start'), c.cur.get(wa, 'query_stacks_element', 'end')
        return [('the stacks are kept for merging', And(ss.top == t.ss.top, ss.sym == t.ss.sym, n.top == t.qs.top, n.nn == t.qs.nn, n.is_ == t.qs.is_, n.ie == t.qs.ie, *[x == y for x, y in zip(n.allnode, t.qs.allnode)])), ('and the current level', And(e[0] == t.lev[0], e[1] == t.lev[1]))] + s.last(c, t)
    def last(s, c, t):
        h, U = c.ex.mainhead, UL(c.cur, c.a(0).fld('unit_list')); k, = K('k')
        if h is None: return [('the text is scanned', F)]
        i = h.ul.n + 1; a, b = If(h.qs.top >= 0, S(h.qs.is_, 0), h.lev[0]), If(h.qs.top >= 0, S(h.qs.ie, 0), h.lev[1])
        return [('the last unit ends with the text', And(h.tt == END, U.n == i, S(U.sc['count_unmatched_symbols'], i) == h.u.nu, S(U.sc['unit_state'], i) == h.u.state, S(U.deep[0], i) == h.u.ut, S(U.deep[1], i) == h.u.ui)),
                ('its positions', And(S(t.ups[0], i) == h.us + 1, S(t.ups[1], i) == libc.slen(c.ex, c.a(1)) + 1)),
                ('with its start states', And(S(U.sc['num_root'], i) == b - a + 1, FA([k], Implies(And(k >= 0, k <= b - a), And(*[S(S(U.deep[2 + m], i), k) == S(x, a + k) for m, x in enumerate(h.qs.allnode)])), S(S(U.deep[2], i), k)))),
                ('earlier units are kept', FA([k], Implies(And(k >= 0, k < i), And(*[S(x, k) == S(y, k) for x, y in zip(list(U.sc.values()) + U.deep, list(h.ul.sc.values()) + h.ul.deep)])), S(U.sc['num_root'], k)))]
    nloops = 13
def nodeinv(d, q, lev, ss):
    k, j = K('k', 'j')
    return [('sizes', And(q.nn >= 1, q.nn <= MAXN, q.top >= -1, q.top < MAXI)), ('stacks', q.wf()), ('the current level is the last', And(lev[0] >= 0, lev[0] <= lev[1], q.level(*lev))),
            ('states', FA([k], Implies(And(k >= 0, k < q.nn), inrange(d, S(q.st, k))), S(q.st, k))),
            ('links', FA([k], Implies(And(k >= 0, k < q.nn), And(S(q.rs, k) >= 0, S(q.pe, k) >= -1, S(q.pe, k) < q.npp, Or(isroot(q, k), And(S(q.rs, k) <= S(q.re, k), S(q.re, k) < q.nrp)))), S(q.re, k), S(q.pe, k), S(q.rs, k))),
            ('saved levels', FA([k], Implies(And(k >= 0, k <= q.top), And(S(q.is_, k) >= 0, S(q.is_, k) <= S(q.ie, k), S(q.ie, k) < lev[0])), S(q.is_, k), S(q.ie, k))),
            ('levels lie in order', FA([k, j], Implies(And(k >= 0, k < j, j <= q.top), S(q.ie, k) < S(q.is_, j)), z3.MultiPattern(S(q.ie, k), S(q.is_, j)))),
            ('links of a level come last', FA([j, k], Implies(And(j >= 0, j <= q.top, k >= 0, k <= S(q.ie, j)), And(S(q.pe, k) <= S(q.pe, S(q.ie, j)), S(q.re, k) <= S(q.re, S(q.ie, j)))), z3.MultiPattern(S(q.ie, j), S(q.pe, k)), z3.MultiPattern(S(q.ie, j), S(q.re, k)))),
            ('one level per open array or key', q.top + 1 == CN(ss.sym, ss.top + 1)), ('at most one start state per state of the automaton', If(q.top >= 0, S(q.ie, 0), lev[1]) < d.N)]
def inv(c):
    t = W(c, c.cur); ss, sh, q, d, u = t.ss, t.sh, t.qs, t.d, t.u; k, = K('k'); wa = c.a(0)
    if not t.lx.ok or not isinstance(t.lx.content, Ptr): return [('lexer works on the text', F)]
    txt, _ = c.old.chars(c.a(1)); L = libc.slen(c.ex, c.a(1)); same = isinstance(t.cp, Ptr) and t.cp.root is t.lx.content.root
    ptrs = isinstance(c.v('tl'), Ptr) and c.v('tl').root is c.old.get(wa, 'tuple_list').root and isinstance(c.v('ul'), Ptr) and c.v('ul').root is wa.root and isinstance(c.v('qa'), Ptr)
    cf = c.old.get(wa, 'constraint_flag')
    o = [('lexer', And(t.lx.s == txt, t.lx.L == L, t.lx.b == 0, t.lx.n >= 0, t.lx.n <= L, t.lx.state == 0, t.lx.cp.off >= 0, t.lx.cp.off <= L + 1, t.lx.sp.off >= 0, t.lx.sp.off <= L + 2, t.lx.content.off == 0)),
         ('working pointers', T if ptrs else F), ('token', And(t.tt == t.ctype, Or(*[t.tt == x for x in (LCB, RCB, LB, RB, COM, KY, PRI, END)]))), ('token content', Implies(Or(t.tt == KY, t.tt == PRI), And(t.cp.off == 0, T) if same else F)),
         ('token has been read', Implies(t.tt != END, t.lx.n >= 1)), ('stacks', And(ss.wf(), sh.wf())), ('containers inferred are objects and arrays', FA([k], Implies(And(k >= 0, k <= sh.top), Or(S(sh.sym, k) == KY, S(sh.sym, k) == LB)), S(sh.sym, k))), ('a container is open only in a unit that has begun', Implies(ss.top >= 0, Or(u.state == 2, t.id == 0))),
         ('the token follows the previous one', And(t.from_ >= 0, t.from_ <= t.lx.n)), ('lexer positions', And(Implies(isstruct(t.tt), And(t.lx.sp.off == t.lx.n, t.lx.cp.off == t.lx.n)), Implies(And(t.tt == KY, isstruct(c.ex.ghost['before'])), t.lx.sp.off == t.from_ + 1))),
         ('unit', And(u.nu >= -1, Or(u.state == 0, u.state == 1, u.state == 2), Or(u.pruned == 0, u.pruned == 1), t.ul.n >= -1)),
         ('start states', Implies(t.id > 0, And(t.nq == d.N, FA([k], Implies(And(k >= 0, k < d.N), S(t.q0, k) == k), S(t.q0, k))))), ('constraint flag', t.cf == cf),
         ('an unpruned unit has all start states', Implies(And(t.id > 0, t.cf == 1, u.pruned == 0), And(q.top == -1, q.nn == d.N, t.lev[0] == 0, FA([k], Implies(And(k >= 0, k < d.N), And(S(q.st, k) == k, S(q.re, k) == -1, S(q.pe, k) == -1)), S(q.st, k), S(q.re, k), S(q.pe, k))))),
         ('constraint table', Implies(t.cf == 1, T if isinstance(t.ctp, Ptr) and t.ctp.root is c.old.get(wa, 'constraint_table').root else F)) ]
    return o + nodeinv(d, q, t.lev, ss)
def lemma1(c):
    t = W(c, c.cur); ss = t.ss; o = []
    for i in (ss.top + 1, ss.top, ss.top - 1, ss.top + 2, iv(0)): o += d_cn(ss.sym, i)
    if c.head is not None:
        h = W(c, c.head).ss
        for i in (h.top + 1, h.top, h.top - 1):
            o += d_cn(h.sym, i) + d_cn(ss.sym, i); j = c.fresh('cnw')
            o.append(Or(CN(h.sym, i) == CN(ss.sym, i), And(j >= 0, j < i, z3.Select(h.sym, j) != z3.Select(ss.sym, j))))
    return o
def shadow(t):
    """(inferred now, its size, its top, its symbols) of the enclosing containers after this token"""
    t1 = Tok(t.lx.s, t.lx.L, t.lx.n); t2 = Tok(t.lx.s, t.lx.L, t1.next); inkey = Or(t1.type == RCB, And(t1.type == COM, t2.type == KY)); tt = t.tt
    now = And(t.sh.top == -1, Or(And(Or(tt == RCB, tt == RB), t.ss.top == 0), And(tt == PRI, t.ss.top == -1)))
    op = If(tt == RCB, iv(LCB), iv(LB)); root = And(Or(tt == RCB, tt == RB), Not(inkey), Or(t1.type == op, t1.type == END))
    inferred = If(inkey, iv(KY), If(root, iv(-1), iv(LB)))
    return now, If(now, inferred, If(t.sh.top >= 0, S(t.sh.sym, t.sh.top), iv(-1)))
def wellformed(c):
    for tg in TAGS: setattr(c.ex, tg, None)
    t = c.ex.mainhead = W(c, c.cur); ss, tt, q, u = t.ss, t.tt, t.qs, t.u; tp, sec = S(ss.sym, ss.top), S(ss.sym, ss.top - 1); now, enc = shadow(t); k, = K('k')
    val = Or(ss.top == -1, tp == KY, tp == LB)
    o = [('nesting depth below the stack size', And(ss.top < MAXST - 3, q.top < MAXI - 3)), ('units and symbols have room (MAX_UNIT, MAX_UNMATCHED_SYMBOL, MAX_STATE, MAX_NODE)', And(t.ul.n < MAXU - 2, u.nu < MAXQ - 2, Implies(ss.top <= 0, q.nn <= MAXQ), Implies(Or(tt == KY, tt == LB), q.nn + (t.lev[1] - t.lev[0] + 1) <= MAXN))),
         ('the text is part of a well-formed text', And(Implies(Or(tt == RCB, tt == KY), Or(ss.top == -1, tp == LCB)), Implies(tt == RB, Or(ss.top == -1, tp == LB)), Implies(Or(tt == LCB, tt == LB, tt == PRI), val),
             Implies(And(ss.top >= 1, Or(tp == LCB, tp == LB)), Or(sec == KY, sec == LB)))),
         ('worker 0 meets no value that belongs to a container outside its text', Implies(t.id == 0, And(Implies(Or(tt == RCB, tt == RB, tt == PRI), ss.top >= 0), Implies(And(Or(tt == RCB, tt == RB), ss.top == 0), enc == -1)))),
         ('a primitive has an enclosing container', Implies(And(tt == PRI, ss.top == -1), enc != -1)),
         ('pending matches lie in the text', FA([k], And(S(q.ms, k) >= -1, S(q.ms, k) < t.lx.n), S(q.ms, k))), ('counts below 2^30', FA([k], And(S(q.cnt, k) >= 0, S(q.cnt, k) < 2**30), S(q.cnt, k)))]
    if t.content() is not None:
        ar, oo = t.view.chars(t.cp); o.append(('keys fit the constraint table (MAX_KEY_TEXT)', Implies(And(tt == KY, t.cf == 1), libc.SLEN(ar, oo) <= 98))); o.append(('texts of results fit a tuple (MAX_TEXT)', Implies(tt == PRI, libc.SLEN(ar, oo) < 998)))
    o.append(('texts of results fit a tuple (MAX_TEXT)', FA([k], Implies(And(t.id == 0, S(q.ms, k) != -1), t.lx.n - S(q.ms, k) < 998), S(q.ms, k))))
    return o
def step(c):
    h, n = W(c, c.head), W(c, c.cur); d, ss, tt, id_ = h.d, h.ss, h.tt, h.id; tp, sec = S(ss.sym, ss.top), S(ss.sym, ss.top - 1); pos = h.lx.n; now, enc = shadow(h); out = []; k, j, x = K('k', 'j', 'x')
    ex = c.ex; g, g0 = c.g, c.ghead; size = ss.top + 1; u, v = h.u, n.u; opened = h.lx
    def R(name, cond, *what):
        for lab, w in what: out.append(('%s: %s' % (name, lab), Implies(cond, w)))
    # ---- pruning by the constraints
    prune = And(id_ > 0, h.cf == 1, u.pruned == 0, Or(tt == LB, And(tt == KY, h.qs.top == -1)))
    ck = h.content(); B, bl = h.qs, h.lev
    if ex.lastprune is not None:
        pc, B, bl = ex.lastprune; ix = c.fresh('ix'); m = pc.a(2)
        key = ck if ck is not None else iv(-1); key = If(tt == KY, key, iv(-1)); df = h.ct.index(ix, tt, key)
        out.append(('states are discarded only at the first symbol of a unit', prune))
        out.append(('exactly the states of the symbol are kept', Implies(df, And(ix < h.ct.num, m == S(h.ct.ns, ix), FA([k], Implies(And(k >= 0, k < m), S(B.st, k) == S(S(h.ct.st, ix), k)), S(B.st, k))))))
        out.append(('the kept states are the level', And(bl[0] == 0, bl[1] == m - 1)))
    elif h.ct is not None:
        ix = c.fresh('ix'); key = If(tt == KY, ck if ck is not None else iv(-1), iv(-1))
        out.append(('states are discarded at the first symbol of a unit, when it is known', Implies(And(prune, h.ct.index(ix, tt, key)), ix >= h.ct.num)))
    out.append(('a unit is pruned once', Implies(prune, v.pruned == 1)))
    # ---- stacks of containers
    def nss(pop=0, push=()):
        a, t_ = ss.sym, ss.top - pop
        for y in push: t_ = t_ + 1; a = z3.Store(a, t_, iv(y))
        return And(n.ss.top == t_, FA([k], Implies(And(k >= 0, k <= t_), S(n.ss.sym, k) == z3.Select(a, k)), S(n.ss.sym, k)))
    # ---- nodes
    def levels(pop=0):
        if pop == 0: return And(n.lev[0] == bl[0], n.lev[1] == bl[1], n.qs.top == h.qs.top, FA([k], Implies(And(k >= 0, k <= n.qs.top), And(S(n.qs.is_, k) == S(h.qs.is_, k), S(n.qs.ie, k) == S(h.qs.ie, k))), S(n.qs.is_, k)))
        t_ = h.qs.item(h.qs.top - pop + 1)
        return And(n.lev[0] == t_[0], n.lev[1] == t_[1], n.qs.top == h.qs.top - pop, n.qs.nn == t_[1] + 1)
    def nodes(what, within, ms=None, cnt=None):
        """every node of the remaining levels has the given pending match and count"""
        m = lambda k: ms(k) if ms else S(B.ms, k); q = lambda k: cnt(k) if cnt else S(B.cnt, k)
        return [('states', FA([k], Implies(And(k >= 0, k < within), S(n.qs.st, k) == S(B.st, k)), S(n.qs.st, k))), ('pending matches', FA([k], Implies(And(k >= 0, k < within), S(n.qs.ms, k) == m(k)), S(n.qs.ms, k))),
                ('counts', FA([k], Implies(And(k >= 0, k < within), S(n.qs.cnt, k) == q(k)), S(n.qs.cnt, k)))]
    def results(num, *text):
        gt, g1 = c.g, {r: c.g['at_' + r] for r in REC}
        return [('results', FA([k], z3.Select(g1['rec_n'], k) == z3.Select(g0['rec_n'], k) + num(k), z3.Select(g1['rec_n'], k)))] + [f for tx in text for f in texts_only(c, h, g1, tx)]
    one = lambda f: (lambda k: If(f(k), 1, 0)); none = lambda k: iv(0)
    M = lambda k: mt(d, B, k); O = lambda k: out_(h, M(k)); inl = lambda k: lvl(k, bl)
    keep = B.nn if ex.lastprune is not None else h.qs.nn
    # {
    opn = lambda k: If(And(inl(k), O(k)), pos - 1, S(B.ms, k))
    R("'{'", tt == LCB, ('opens an object', And(nss(push=[LCB]), levels())), *nodes('', keep, ms=opn))
    R("'{'", tt == LCB, *results(one(lambda k: And(inl(k), Not(O(k)), Or(M(k) == PRED, M(k) == COND))), lambda k: [(And(inl(k), Not(O(k)), M(k) == PRED), 'lit', libc.litid('{')), (And(inl(k), Not(O(k)), M(k) == COND), 'lit', libc.litid(''))]))
    # }
    E = lambda k: And(inl(k), S(B.ms, k) != -1, O(k)); closed = lambda k: If(E(k), -1, S(B.ms, k)); cutt = lambda k: [(E(k), 'cut', S(B.ms, k), pos)]
    inc = lambda k: S(B.cnt, k) + If(inl(k), 1, 0); brk = lambda *ks: (lambda k: And(inl(k), Or(*[M(k) == y for y in ks])))
    a = And(tt == RCB, size >= 1)
    root, inkey0, inarr0 = And(a, size == 1, enc == -1), And(a, size == 1, enc == KY), And(a, size == 1, enc == LB); inkey, inarr = And(a, size > 1, sec == KY), And(a, size > 1, sec == LB)
    R("'}' of the root", root, ('closes it', And(nss(pop=1), levels())), *(nodes('', keep, ms=closed) + results(one(E), cutt)))
    b = brk(PRED, INCOMPLETE); both = lambda f: (lambda k: If(E(k), 1, 0) + If(f(k), 1, 0))
    R("'}' of the last open object, an element", inarr0, ('closes it', And(nss(pop=1), levels())), *(nodes('', keep, ms=closed, cnt=inc) + results(both(b), lambda k: [(b(k), 'lit', libc.litid('}'))], cutt)))
    R("'}' of a key", inkey, ('restores the states of the enclosing object', And(nss(pop=2), levels(1))), *(nodes('', h.qs.item(h.qs.top)[1] + 1) + results(one(E), cutt)))
    b2 = brk(PRED)
    R("'}' of an array element", inarr, ('counts it', And(nss(pop=1), levels())), *(nodes('', keep, ms=closed, cnt=inc) + results(both(b2), lambda k: [(b2(k), 'lit', libc.litid('}'))], cutt)))
    # [
    R("'['", tt == LB, ('opens an array', nss(push=[LB])), *results(one(lambda k: And(inl(k), Not(O(k)), M(k) == COND)), lambda k: [(And(inl(k), Not(O(k)), M(k) == COND), 'lit', libc.litid(''))]))
    R("'['", tt == LB, *nodes('', bl[1] + 1, ms=opn))
    # ]
    TT = h.qs.item(h.qs.top); int_ = lambda k: lvl(k, TT); E2 = lambda k: And(int_(k), S(B.ms, k) != -1, O(k)); I2 = lambda k: And(int_(k), S(B.ms, k) != -1, Not(O(k)), M(k) == INCOMPLETE)
    closed2 = lambda k: If(E2(k), -1, S(B.ms, k)); txt2 = lambda k: [(E2(k), 'cut', S(B.ms, k), pos), (I2(k), 'lit', libc.litid(']'))]; inc2 = lambda k: S(B.cnt, k) + If(int_(k), 1, 0)
    a = And(tt == RB, size >= 1); r2 = results(one(lambda k: Or(E2(k), I2(k))), txt2)
    R("']' of the root", And(a, size == 1, enc == -1), ('closes it', And(nss(pop=1), levels(1))), *(nodes('', TT[1] + 1, ms=closed2) + r2))
    R("']' of the last open array, an element", And(a, size == 1, enc == LB), ('closes it and counts it', And(nss(pop=1), levels(1))), *(nodes('', TT[1] + 1, ms=closed2, cnt=inc2) + r2))
    T2 = h.qs.item(h.qs.top - 1)
    R("']' of a key", And(a, size > 1, sec == KY), ('restores the states of the enclosing object', And(nss(pop=2), levels(2))), *(nodes('', T2[1] + 1) + r2))
    R("']' of an array element", And(a, size > 1, sec == LB), ('restores and counts', And(nss(pop=1), levels(1))), *(nodes('', TT[1] + 1, ms=closed2, cnt=inc2) + r2))
    # key
    R('key', tt == KY, ('remembers the states of the object', nss(push=[KY])), *(nodes('', bl[1] + 1) + results(none)))
    # moving on
    mv = Or(tt == KY, tt == LB)
    if ex.lastpush is not None:
        P, r, pv = ex.lastpush
        out.append(('only keys and arrays move on', mv))
        out.append(('all states of the level move on, along the right edge', And(P.a == bl[0], P.b == bl[1], FA([k], Implies(inl(k), And(S(P.o.st, k) == S(B.st, k), S(P.o.cnt, k) == S(B.cnt, k), S(P.o.re, k) == S(B.re, k))), S(P.o.st, k)), If(tt == LB, P.nul, And(Not(P.nul), P.kid == ck if ck is not None and P.kid is not None else F) if P.kid is not None else F))))
        out.append(('the level reached is current', And(n.lev[0] == r[0], n.lev[1] == r[1], n.qs.top == h.qs.top + 1, n.qs.st == pv.st, n.qs.cnt == pv.cnt, n.qs.ms == pv.ms, n.qs.is_ == pv.is_, n.qs.ie == pv.ie)))
    else: out.append(('keys and arrays move on', Not(mv)))
    # primitives
    Pq = lambda k: And(inl(k), Or(O(k), M(k) == COND)); val = And(tt == PRI, size >= 1); p0 = And(tt == PRI, size == 0)
    if ck is not None:
        tx = lambda k: [(Pq(k), 'lit', ck)]
        R('primitive value of a key', And(val, tp == KY), ('restores the states of the object', And(nss(pop=1), levels(1))), *(nodes('', TT[1] + 1) + results(one(Pq), tx)))
        R('primitive element', And(val, tp == LB), ('is counted', And(nss(), levels())), *(nodes('', keep, cnt=inc) + results(one(Pq), tx)))
        R('primitive element of an array opened before the text', And(p0, enc == LB), ('is counted', And(nss(), levels())), *(nodes('', keep, cnt=inc) + results(one(Pq), tx)))
    R("','", tt == COM, ('changes nothing', And(nss(), levels())), *(nodes('', keep) + results(none)))
    # ---- units
    uns = Or(And(tt == RCB, size == 0), inkey0, And(tt == RB, size == 0), And(tt == RB, size == 1, enc == KY), And(p0, enc == KY))
    fl = And(uns, u.state == 2); kind = If(And(tt == RCB, size == 0), iv(RCB), If(And(tt == RB, size == 0), iv(RB), If(tt == RCB, iv(OBJECT), If(tt == RB, iv(ARRAY), iv(PRI)))))
    at = If(fl, iv(0), u.nu + 1)
    R('a value that belongs to a container outside the text', uns, ('is left to merging, in order', And(v.nu == at, S(v.ut, at) == kind, v.state == 1)), ('with its position', Implies(size == 0, Implies(Or(tt == RCB, tt == RB), S(v.ui, at) == pos - 1))), ('earlier ones are kept', Implies(Not(fl), pres(v, u, u.nu + 1, lambda y: [y.ut, y.ui]))))
    ui = h.ul.n + 1; U = n.ul
    R('the unit that ends there', fl, ('is kept', And(U.n == ui, S(U.sc['num_root'], ui) == h.qs.nn, S(U.sc['count_unmatched_symbols'], ui) == u.nu, S(U.sc['unit_state'], ui) == 2, S(U.deep[0], ui) == u.ut, S(U.deep[1], ui) == u.ui)),
      *[('with its start states: ' + nm, FA([k], Implies(And(k >= 0, k < h.qs.nn), f), S(S(U.deep[2], ui), k), S(S(U.deep[4], ui), k))) for nm, f in
        (('states and counts', And(S(S(U.deep[2], ui), k) == S(h.qs.st, k), S(S(U.deep[3], ui), k) == S(h.qs.cnt, k))), ('pending matches', S(S(U.deep[4], ui), k) == If(size == 0, S(h.qs.ms, k), If(tt == RCB, closed(k), closed2(k)))))])
    R('the unit that ends there', And(fl, tt != PRI), ('lies between its first symbol and this one', And(S(n.ups[0], ui) == h.us + 1, S(n.ups[1], ui) == pos - 1 + 1)))
    R('a new unit', fl, ('starts with all states', And(n.ss.top == -1, n.sh.top == -1, n.qs.top == -1, n.lev[0] == 0, n.lev[1] == d.N - 1, v.pruned == 0, FA([k], Implies(And(k >= 0, k < d.N), And(S(n.qs.st, k) == k, S(n.qs.cnt, k) == 0, S(n.qs.ms, k) == -1)), S(n.qs.st, k)))))
    R('otherwise', Not(fl), ('no unit ends', And(U.n == h.ul.n)), ('units are kept', And(*[S(x_, k) == S(y_, k) for x_, y_ in zip(U.sc.values(), h.ul.sc.values()) for k in ()] or [T])))
    R('otherwise', And(uns, Not(fl)), ('stacks are kept', And(nss(), levels())))
    beg = And(Or(tt == LCB, tt == LB, tt == KY, And(p0, enc == LB)), u.state != 2)
    R('the first symbol of a unit', beg, ('begins it', And(v.state == 2, v.nu == u.nu)))
    R('the first symbol of a unit', And(beg, Or(tt == LCB, tt == LB)), ('lies at its start', n.us == pos - 1))
    R('the first symbol of a unit', And(beg, tt == KY, isstruct(c.ghead['before'])), ('lies at its start', n.us == h.from_))
    R('the first symbol of a unit', And(beg, tt == PRI), ('lies at its start', n.us == h.from_))
    R('otherwise', And(Not(fl), Not(beg)), ('the start of the unit is kept', n.us == h.us))
    R('otherwise', Not(fl), ('units keep their positions', And(n.ups[0] == h.ups[0], n.ups[1] == h.ups[1])))
    R('otherwise', And(Not(uns), Not(beg)), ('the unit goes on', And(v.state == u.state, v.nu == u.nu, v.ut == u.ut, v.ui == u.ui)))
    R('otherwise', And(Not(fl), Not(prune)), ('pruned as before', v.pruned == u.pruned))
    # ---- containers inferred
    R('containers outside the text', And(now, Not(fl)), ('are inferred from what follows', If(enc == -1, n.sh.top == -1, And(n.sh.top >= 0, S(n.sh.sym, n.sh.top) == enc))))
    R('containers outside the text', And(Not(now), Not(fl)), ('are kept', And(n.sh.top == h.sh.top, n.sh.sym == h.sh.sym)))
    tk = Tok(h.lx.s, h.lx.L, h.lx.n); out.append(('the next token is read', And(n.tt == tk.type, n.lx.n == tk.next, n.from_ == h.lx.n)))
    return out
def isstruct(t): return Or(*[t == x for x in (LCB, RCB, LB, RB, COM)])
OBJECT, ARRAY = 8, 9
def texts_only(c, h, g1, text):
    k, x = K('k', 'x'); o = []
    for it in text(k):
        if it[1] == 'lit': o.append(('texts', FA([k], Implies(it[0], z3.Select(g1['rec_text'], k) == it[2]), z3.Select(g1['rec_text'], k))))
        else:
            a, b = it[2], it[3]; ch = z3.Select(g1['rec_chars'], k)
            o += [('exact texts', FA([k, x], Implies(And(it[0], h.id == 0, x >= 0, x < b - a), z3.Select(ch, x) == z3.Select(h.lx.s, a + x)), z3.Select(ch, x))), ('exact lengths', FA([k], Implies(And(it[0], h.id == 0), z3.Select(ch, b - a) == 0), ch)),
                  ('exact ranges', FA([k], Implies(And(it[0], h.id > 0), And(z3.Select(g1['rec_from'], k) == a, z3.Select(g1['rec_to'], k) == b)), z3.Select(g1['rec_from'], k)))]
    return o
def ghost(c):
    g = c.ex.ghost; return [('at_' + r, g[r]) for r in REC] + [('before', W(c, c.head).tt)]
def inv_init(c):
    k, = K('k'); i = c.v('i'); n = c.v('num_query_state')
    return [('range', And(i >= 1, i <= n + 1, n == DV(c.old, c.old.get(c.a(0), 'query_automaton')).N)), ('states', FA([k], Implies(And(k >= 0, k < i - 1), S(c.cur.arr(c.vp('query_state'), '[]'), k) == k), S(c.cur.arr(c.vp('query_state'), '[]'), k)))]
def inv_roots(c):
    i, n = c.v('i'), c.v('num_roots'); a, b = rng(c.v('top_qs_elt')); r = [c.cur.arr(c.vp('roots'), '[]', *f) for f in ND]; q = W(c, c.cur).qs; k, = K('k')
    return [('range', And(i >= a, i <= b + 1, n == i - a)), ('roots', FA([k], Implies(And(k >= 0, k < n), And(*[S(x, k) == S(y, a + k) for x, y in zip(r, q.allnode)])), *[S(x, k) for x in r]))]
def init(c):
    """where the worker starts"""
    t = W(c, c.cur); wa = c.a(0); k, = K('k'); res = resumed(c, c.old); q = t.qs; o = MS(c.old, wa.fld('query_stacks')); ss = SS(c.old, wa.fld('syntax_stack')); tk = Tok(t.lx.s, t.lx.L, iv(0))
    lev = [c.old.get(wa, 'query_stacks_element', f) for f in ('start', 'end')]; new = And(t.ss.top == -1, q.top == -1, t.lev[0] == 0, t.lev[1] == q.nn - 1, FA([k], Implies(And(k >= 0, k < q.nn), And(S(q.cnt, k) == 0, S(q.ms, k) == -1, S(q.ft, k) == -1, isroot(q, k))), S(q.st, k)))
    return [('the first worker starts in the initial state', Implies(And(Not(res), t.id == 0), And(new, q.nn == 1, S(q.st, 0) == 1))), ('the others start in every state', Implies(And(Not(res), t.id > 0), And(new, q.nn == t.d.N, FA([k], Implies(And(k >= 0, k < t.d.N), S(q.st, k) == k), S(q.st, k))))),
            ('the first worker goes on where it stopped', Implies(res, And(t.ss.top == ss.top, t.ss.sym == ss.sym, q.top == o.top, q.nn == o.nn, q.is_ == o.is_, q.ie == o.ie, q.rp == o.rp, t.lev[0] == lev[0], t.lev[1] == lev[1], *[x == y for x, y in zip(q.allnode, o.allnode)]))),
            ('no unit yet', And(t.ul.n == -1, t.u.nu == -1, t.u.pruned == 0, t.u.state == 0, t.sh.top == -1)), ('the first token is read', And(t.tt == tk.type, t.lx.n == tk.next, t.from_ == 0))]
executeWorkerAutomaton.loops = {0: Loop(inv=inv_init), 1: Loop(inv=inv, lemma=lemma1, assume=wellformed, step=step, ghost=ghost, init=init), 2: nodeloop(Fx(cur, fx_open)), 3: nodeloop(Fx(cur, fx_close(False))), 4: nodeloop(Fx(cur, fx_elem((PRED, INCOMPLETE)))),
    5: nodeloop(Fx(cur, fx_elem((PRED,)))), 6: nodeloop(Fx(cur, fx_arr)), 7: nodeloop(Fx(top, fx_close(True))), 8: nodeloop(Fx(cur, fx_elem(()))), 9: nodeloop(Fx(cur, fx_elem(()))), 10: nodeloop(Fx(cur, fx_pri(False))), 11: nodeloop(Fx(cur, fx_pri(True))), 12: Loop(inv=inv_roots)}
MINE = [addTupleInfo(), addVirtualTupleInfo(), queryStacksPush(), pruneQueryPaths(), initQueryStacks(), getMatchedType(), syntaxStackInference(), executeWorkerAutomaton()]
SPECS = [x for x in worker.SPECS if x.name not in {y.name for y in MINE} | {'key', 'ary_s', 'val_obj_e'} | {r.name for r in worker.RULES}] + MINE
SPECS += [x for x in cons.CONS if x.name not in {y.name for y in SPECS}]
def modules():
    return Module(TU(['JSONQuery/worker_automaton.c']), SPECS, buf=dfa.BUFS, regions={('Unit', 'start'): '@text', ('Unit', 'end'): '@text'})
