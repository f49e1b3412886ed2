"""Contract of combine: what merging does with every unmatched symbol, every unit, every recorded result and every chunk.
The functions it calls have the contracts proved in modules multi, merge, stream, worker, lex and wexec, of which the part that is needed is used.
What is done with results is observed in a log of events.  Texts are addresses in one memory that nobody writes (region text)."""
from specs.common import *
from specs import lex, dfa, stream, multi, worker, merge, wexec
from specs.stream import SS, LCB, RCB, LB, RB, KY, PRI, OUT, PRED, TL, TF
from specs.multi import MS, rng
from specs.worker import UL, ND
from specs.threads import REGIONS as TREG
from jpv import libc
AC, LO, UP = [z3.Function(n, INT, INT) for n in ('kind_of_state', 'range_from', 'range_to')]
OBJECT, ARRAY = 8, 9
ARR2 = z3.ArraySort(INT, ARR)
EV = {'kind': ARR, 'state': ARR, 'node': ARR, 'from': ARR, 'chunk': ARR, 'to': ARR, 'chars': ARR2, 'list': ARR}     # the log: what was done, in order
LIT, ACROSS, TUPLE, RERUN = 1, 2, 3, 4
def log(ex, **kw):
    n = ex.ghost['ev_n']
    for k, x in kw.items(): ex.setghost('ev_' + k, z3.Store(ex.ghost['ev_' + k], n, iv(x) if isinstance(x, int) else x))
    ex.setghost('ev_n', n + 1)
def charsat(c, view, p):
    """the text p points to, from its first byte on"""
    ar, o = view.chars(p); o = z3.simplify(Z(o))
    if z3.is_int_value(o) and o.as_long() == 0: return ar
    a = z3.Const('txt!%s' % c.ex.fresh('t'), ARR); k, = K('k'); c.ex.assume(FA([k], S(a, k) == S(ar, o + k), S(a, k))); return a
def kind(q, cnt):
    """the kind of a state when its count is known"""
    a, lo, up = AC(q), LO(q), UP(q); return If(And(a == OUT, Not(Or(And(lo == 0, up == 0), And(cnt >= lo, cnt < up)))), 0, a)
class Light(Spec):
    takes = ()
class getMatchedType(Light):
    """proved in module merge; the tables of the automaton appear as the functions kind_of_state, range_from and range_to"""
    name = 'getMatchedType'
    def post(s, c): return [('kind', c.res == kind(c.old.get(c.a(1), 'query_state'), c.old.get(c.a(1), 'count')))]
    def mods(s, c): return []
class getDFAArrayIndex(Light):
    name = 'getDFAArrayIndex'
    def post(s, c): return [('range of the state', And(c.res.leaves[('lower',)] == LO(c.a(1)), c.res.leaves[('upper',)] == UP(c.a(1))))]
    def mods(s, c): return []
class textAcrossChunks(Light):
    name = 'textAcrossChunks'
    def result(s, c):
        r = c.ex.newobj('text', Ty('arr', CH)); c.ex.across[r.id] = (c.a(1), c.a(2), c.a(3), sameroot(c, c.a(0))); return Ptr(r, (('i', iv(0)),), False)
    def mods(s, c): return []
    def post(s, c): return []
def sameroot(c, p): return T if isinstance(p, Ptr) and p.root is c.ex.threads.root and len(p.path) == 1 else F
class addTupleInfo(Light):
    name = 'addTupleInfo'
    def mods(s, c): return multi.addTupleInfo.mods(s, c)
    RS = multi.addTupleInfo.RS
    def pre(s, c):
        q = MS(c.cur, c.a(0)); return [('the state of the node', c.a(2) == S(q.st, c.a(1))), ('the merged list', c.ex.toref(c.a(4)) == c.ex.mainlist)]
    def post(s, c):
        p = c.a(3)
        if p.root is not None and p.root.id in c.ex.across:
            a, ch, b, ok = c.ex.across[p.root.id]; c.ex.assume(ok); log(c.ex, kind=ACROSS, node=c.a(1), state=c.a(2), **{'from': a, 'chunk': ch, 'to': b})
        else: log(c.ex, kind=LIT, node=c.a(1), state=c.a(2), chars=charsat(c, c.old, p))
        return []
class addTuple(Light):
    name = 'addTuple'
    def pre(s, c): return [('the merged list', c.ex.toref(c.a(0)) == c.ex.mainlist)]
    def mods(s, c): return stream.addTuple.mods(s, c)
    def post(s, c): log(c.ex, kind=TUPLE, state=c.a(1), chars=charsat(c, c.old, c.a(2))); return []
class substring_in_place(lex.substring_in_place):
    def pre(s, c): return [('a range', And(c.a(2) >= 0, c.a(3) >= c.a(2)))]
class executeWorkerAutomaton(Light):
    """proved in module wexec: here, that it goes on from the stacks of the automaton and leaves them there; its results are an event"""
    name = 'executeWorkerAutomaton'
    def mods(s, c): return [c.a(0).fld(f) for f in ('syntax_stack', 'query_stacks', 'query_stacks_element', 'unit_list', 'initial_flag')] + [c.old.get(c.a(0), 'tuple_list')]
    def post(s, c):
        c.ex.rerun = (c, SS(c.old, c.a(0).fld('syntax_stack')), MS(c.old, c.a(0).fld('query_stacks')), [c.old.get(c.a(0), 'query_stacks_element', f) for f in ('start', 'end')], c.old.get(c.a(0), 'need_reprocess'), charsat(c, c.old, c.a(1)),
                      SS(c.cur, c.a(0).fld('syntax_stack')), MS(c.cur, c.a(0).fld('query_stacks')), [c.cur.get(c.a(0), 'query_stacks_element', f) for f in ('start', 'end')])
        log(c.ex, kind=RERUN); return []
class combineSyntaxStack(stream.combineSyntaxStack):
    def pre(s, c): return []
    def post(s, c): c.ex.synmerge = (c, c.a(0), c.a(1), SS(c.old, c.a(0)), SS(c.cur, c.a(0))); return super().post(c)
class combineQueryStacks(multi.combineQueryStacks):
    def pre(s, c): return []
    def post(s, c): c.ex.qmerge = (c, MS(c.old, c.a(0)), MS(c.cur, c.a(0)), [c.cur.get(c.a(1), f) for f in ('start', 'end')], c.a(2)); return super().post(c)
class shiftPendingMatches(merge.shiftPendingMatches):
    def pre(s, c): return []
    def post(s, c): c.ex.shift = (c, MS(c.old, c.a(0)), MS(c.old, c.a(1)), c.a(2)); c.ex.shifted = MS(c.cur, c.a(0)); return super().post(c)

class G:
    """the merged state"""
    def __init__(t, c, view):
        L = lambda n: Ptr(c.ex.local(c.frame, n)); t.c, t.view = c, view
        t.ss, t.qs, t.lev = SS(view, L('ss')), MS(view, L('qs')), rng(view.get(L('qs_elt')))
        t.cur = t.lev[0]; t.st, t.cnt, t.ms = S(t.qs.st, t.cur), S(t.qs.cnt, t.cur), S(t.qs.ms, t.cur)
def mem(c):
    r = c.ex.region('text'); return c.ex.leafterm(r, ('[]',), None)
def chunk(c, i): return c.ex.toref(c.old.get(Ptr(c.ex.threads.root, (('i', i),), False), 'input_stream'))
def workref(c, i): return c.ex.toref(c.old.get(Ptr(c.ex.threads.root, (('i', i),), False), 'worker_automaton'))
def fixed(c):
    """the pointers of the loops"""
    ex = c.ex; tl, sw = c.v('tuple_list'), c.v('seq_wa')
    return [('merged list', And(ex.toref(tl) == ex.mainlist, ex.toref(sw) == workref(c, iv(0))))]
def clear(c):
    for f in ('rerun', 'synmerge', 'qmerge', 'shift'): setattr(c.ex, f, None)
def logkept(c, g0, g, n):
    k, = K('k'); return And(*[FA([k], Implies(And(k >= 0, k < n), z3.Select(g['ev_' + f], k) == z3.Select(g0['ev_' + f], k)), z3.Select(g['ev_' + f], k)) for f in EV])
from jpv.core import View
class combine(Spec):
    name = 'combine'; takes = ('bounds', 'overflow', 'null', 'alloc', 'conv')
    def setup(s, c):
        ex = c.ex; r = ex.mkroot('threads', Ty('arr', Ty('struct', 'ThreadInfo'))); c.args[0] = ex.threads = Ptr(r, (('i', iv(0)),), False)
        ex.across = {}; ex.setghost('ev_n', z3.Int('ev_n0'))
        for f, so in EV.items(): ex.setghost('ev_' + f, z3.Const('ev_%s0' % f, so))
        clear(c)
        ex.mainlist = ex.toref(c.cur.get(c.cur.get(c.a(0), 'worker_automaton'), 'tuple_list'))
    def pre(s, c): return [('the log', c.ex.ghost['ev_n'] >= 0)] if not c.call else []
    def mods(s, c): return None
    def post(s, c):
        t = G(c, c.cur); wa = c.cur.get(c.a(0), 'worker_automaton'); q, ss = MS(c.cur, wa.fld('query_stacks')), SS(c.cur, wa.fld('syntax_stack'))
        z = type('M', (), dict(ss=ss, qs=q, lev=t.lev)); h = c.ex.chunkhead; i, n = h.get(loop_i(c)), c.a(1)
        return [('the merged list', c.ex.toref(c.res) == c.ex.mainlist), ('every chunk was merged', i == If(n < 1, 1, n)), ('no result after the last chunk', logkept(c, c.g, c.ex.chunkghost, c.g['ev_n'])), ('nothing is logged after it', c.ex.ghost['ev_n'] == c.ex.chunkghost['ev_n'])] + pre_('the merged state is left in the first automaton', unchanged(c, z, G(c, h)))
    nloops = 5
# ---- an unmatched symbol
def inv_sym(c):
    t = G(c, c.cur); k = c.v('k'); cu = c.cur.get(c.vp('unit'), 'count_unmatched_symbols'); return [('range', And(k >= 0, Or(k <= cu + 1, k == 0), c.ex.ghost['ev_n'] >= 0))] + fixed(c)
def wf_sym(c):
    t = G(c, c.cur); clear(c); return []
def step_sym(c):
    h, n = G(c, c.head), G(c, c.cur); g0, g = c.ghead, c.g; n0 = g0['ev_n']; k, = K('k'); o = []
    hv = c.head; kk = hv.get(c.vp('k')); unit = c.vp('unit'); tt = S(hv.arr(unit, 'unmatched_symbols', '[]', 'token_type'), kk); ix = S(hv.arr(unit, 'unmatched_symbols', '[]', 'index'), kk); i = hv.get(loop_i(c))
    ss, q = h.ss, h.qs; size = ss.top + 1; tp, sec = S(ss.sym, ss.top), S(ss.sym, ss.top - 1); top1, top2 = q.item(q.top), q.item(q.top - 1)
    def R(name, cond, *what):
        for lab, w in what: o.append(('%s: %s' % (name, lab), Implies(cond, w)))
    def nss(pop): return And(n.ss.top == ss.top - pop, FA([k], Implies(And(k >= 0, k <= ss.top - pop), S(n.ss.sym, k) == S(ss.sym, k)), S(n.ss.sym, k)))
    def levels(pop):
        if pop == 0: return And(n.lev[0] == h.lev[0], n.lev[1] == h.lev[1], n.qs.top == q.top, n.qs.nn == q.nn)
        t_ = q.item(q.top - pop + 1); return And(n.lev[0] == t_[0], n.lev[1] == t_[1], n.qs.top == q.top - pop, n.qs.nn == t_[1] + 1)
    def nodes(ms=None, cnt=None):
        m = lambda k: ms(k) if ms else S(q.ms, k); ct = lambda k: cnt(k) if cnt else S(q.cnt, k)
        return [('states', FA([k], S(n.qs.st, k) == S(q.st, k), S(n.qs.st, k))), ('pending matches', FA([k], S(n.qs.ms, k) == m(k), S(n.qs.ms, k))), ('counts', FA([k], S(n.qs.cnt, k) == ct(k), S(n.qs.cnt, k))),
                ('saved levels', FA([k], Implies(And(k >= 0, k <= n.qs.top), And(S(n.qs.is_, k) == S(q.is_, k), S(n.qs.ie, k) == S(q.ie, k))), S(n.qs.is_, k)))]
    def events(*evs):
        """evs: (condition, node, kind, extra)"""
        r, at = [], n0
        for cond, node, kd, ex in evs:
            f = [z3.Select(g['ev_kind'], at) == kd, z3.Select(g['ev_node'], at) == node, z3.Select(g['ev_state'], at) == S(q.st, node)]
            if kd == ACROSS: f += [z3.Select(g['ev_from'], at) == S(q.ms, node), z3.Select(g['ev_chunk'], at) == i, z3.Select(g['ev_to'], at) == ix + 1]
            else: f += [S(z3.Select(g['ev_chars'], at), m) == ord(ch) for m, ch in enumerate(ex)] + [S(z3.Select(g['ev_chars'], at), len(ex)) == 0]
            r.append(('a result', Implies(cond, And(*f)))); at = at + If(cond, 1, 0)
        return r + [('results', g['ev_n'] == at), ('earlier results', logkept(c, g0, g, n0))]
    def ends(node): return And(S(q.ms, node) != -1, kind(S(q.st, node), S(q.cnt, node)) == OUT)
    cur = h.cur; closed = lambda nd: (lambda k: If(And(k == nd, ends(nd)), -1, S(q.ms, k))); inc = lambda nd: (lambda k: S(q.cnt, k) + If(k == nd, 1, 0))
    a = And(tt == RCB, size >= 1); E = (ends(cur), cur, ACROSS, None); pr = kind(h.st, h.cnt) == PRED
    R("'}' of the root", And(a, size == 1), ('closes it', And(nss(1), levels(0))), *(nodes(closed(cur)) + events(E)))
    R("'}' of a key", And(a, size > 1, sec == KY, q.top >= 0), ('restores the state of the object', And(nss(2), levels(1))), *(nodes(closed(cur)) + events(E)))
    R("'}' of an element", And(a, size > 1, sec == LB), ('is counted', And(nss(1), levels(0))), *(nodes(closed(cur), inc(cur)) + events(E, (pr, cur, LIT, '}'))))
    a = And(tt == RB, size >= 1, q.top >= 0); t1 = top1[0]; E = (ends(t1), t1, ACROSS, None)
    R("']' of the root", And(a, size == 1), ('closes it', And(nss(1), levels(1))), *(nodes(closed(t1)) + events(E)))
    R("']' of a key", And(a, size > 1, sec == KY, q.top >= 1, top2[1] < top1[0]), ('restores the state of the object', And(nss(2), levels(2))), *(nodes(closed(t1)) + events(E)))
    R("']' of an element", And(a, size > 1, sec == LB), ('restores the state and counts', And(nss(1), levels(1))), *(nodes(closed(t1), inc(t1)) + events(E)))
    R('a value of a key', And(Or(tt == OBJECT, tt == ARRAY), size >= 1, q.top >= 0), ('restores the state of the object', And(nss(1), levels(1))), *(nodes() + events()))
    R('any other symbol', Not(Or(tt == RCB, tt == RB, tt == OBJECT, tt == ARRAY)), ('changes nothing', And(nss(0), levels(0))), *(nodes() + events()))
    R('the next symbol', T, ('follows', c.v('k') == kk + 1))
    return o
def loop_i(c):
    """the counter of the loop over the chunks (an outer variable has the same name)"""
    return Ptr(c.ex.local(c.frame, 'i'))
# ---- the results of the unit
def inv_find(c):
    l = c.v('l'); m, = K('m'); t = G(c, c.cur); r = c.cur.arr(c.vp('unit'), 'root_node', '[]', 'query_state')
    return [('range', And(l >= 0, Or(l <= c.cur.get(c.vp('unit'), 'num_root'), l == 0))), ('not found yet', FA([m], Implies(And(m >= 0, m < l), S(r, m) != t.st), S(r, m))), ('no results yet', c.v('tuple_index') == -1)]
def found(c, t):
    l = c.v('l'); m, = K('m'); nr = c.cur.get(c.vp('unit'), 'num_root'); r = c.cur.arr(c.vp('unit'), 'root_node', '[]', 'query_state'); ft = c.cur.arr(c.vp('unit'), 'root_node', '[]', 'first_tuple_index')
    return l, nr, And(l < nr, S(r, l) == t.st), S(ft, l), FA([m], Implies(And(m >= 0, m < l), S(r, m) != t.st), S(r, m))
def init_chain(c):
    t = G(c, c.cur); l, nr, ok, ft, none = found(c, t); u = c.vp('unit'); g = lambda f: c.cur.get(u, f)
    b = G(c, c.ex.symend)
    return pre_('nothing happens in front of the results', unchanged(c, t, b)) + [('the results of the actual state are taken', And(none, c.v('tuple_index') == If(ok, ft, -1), Or(ok, l == nr, l == 0))),
            ('a unit without the actual state is run again', Or(ok, nr <= 0, g('unit_state') == 1, Not(c.ex.toref(g('end')) > c.ex.toref(g('start')))))]
def inv_chain(c): return [('results', c.ex.ghost['ev_n'] >= 0)] + fixed(c)
def step_chain(c):
    h, n = G(c, c.head), G(c, c.cur); g0, g = c.ghead, c.g; n0 = g0['ev_n']; hv = c.head; o = []; k, = K('k')
    x = hv.get(c.vp('tuple_index')); tl = TL(hv, hv.get(c.vp('tl'))); i = hv.get(loop_i(c)); tx = z3.Select(tl.text, x); sp, ep, st = tl.at('start_position', x), tl.at('end_position', x) if 'end_position' in tl.f else S(hv.arr(hv.get(c.vp('tl')), 'element', '[]', 'end_position'), x), tl.at('state', x)
    lo, up = LO(h.st), UP(h.st); free = And(lo == 0, up == 0); cid = libc.CID(tx, iv(0)); libc.strfacts(c.ex, tx, iv(0))
    br = Or(cid == libc.litid('}'), cid == libc.litid(']')); inr = And(h.cnt >= lo, h.cnt < up); dead = h.st == 0; take = And(Not(dead), Or(free, And(Not(br), inr)))
    o.append(('the next result follows', c.v('tuple_index') == tl.at('next_index', x)))
    o.append(('a result is taken exactly when its element is in the range', And(g['ev_n'] == n0 + If(take, 1, 0), logkept(c, g0, g, n0))))
    ch = z3.Select(g['ev_chars'], n0)
    o.append(('the result taken', Implies(take, And(z3.Select(g['ev_kind'], n0) == TUPLE, z3.Select(g['ev_state'], n0) == st))))
    o.append(('a recorded text', Implies(And(take, sp == -1), FA([k], Implies(And(k >= 0, k < 1000), S(ch, k) == S(tx, k)), S(ch, k)))))
    o.append(('a text of the chunk', Implies(And(take, sp != -1), And(FA([k], Implies(And(k >= 0, k < ep - sp), S(ch, k) == S(mem(c), chunk(c, i) + sp + k)), S(ch, k)), S(ch, ep - sp) == 0))))
    cnt = h.cnt + If(And(Not(dead), Not(free), Or(br, And(inr, kind(h.st, h.cnt) == OUT))), 1, 0)
    o.append(('elements are counted', n.cnt == cnt))
    o.append(('a state past its range is left', n.st == If(And(Not(dead), Not(free), Or(br, Not(inr)), cnt >= up), 0, h.st)))
    o.append(('nothing else changes', And(n.lev[0] == h.lev[0], n.lev[1] == h.lev[1], n.qs.top == h.qs.top, n.qs.nn == h.qs.nn, n.ss.top == h.ss.top, n.ss.sym == h.ss.sym, n.qs.ms == h.qs.ms, FA([k], Implies(k != h.cur, And(S(n.qs.st, k) == S(h.qs.st, k), S(n.qs.cnt, k) == S(h.qs.cnt, k))), S(n.qs.st, k), S(n.qs.cnt, k)))))
    return o
# ---- a unit
def snap(c): return View(c.ex, c.ex.snapshot())
def wa_i(c, view=None): return (view or c.cur).get(Ptr(c.ex.threads.root, (('i', (view or c.cur).get(loop_i(c))),), False), 'worker_automaton')
def at(arrs, k): return [S(x, k) for x in arrs]
def unchanged(c, n, h):
    """the merged state n is the merged state h"""
    k, = K('k'); q, p = n.qs, h.qs; pair = lambda x, y: And(*[a == b for a, b in zip(x, y)])
    return [('the symbols', And(n.ss.top == h.ss.top, FA([k], S(n.ss.sym, k) == S(h.ss.sym, k), S(n.ss.sym, k)))), ('the level', pair(n.lev, h.lev)), ('the sizes', And(q.top == p.top, q.nn == p.nn)),
            ('the levels', FA([k], And(S(q.is_, k) == S(p.is_, k), S(q.ie, k) == S(p.ie, k)), S(q.is_, k), S(q.ie, k)))] + [('the nodes (%s)' % f, FA([k], S(x, k) == S(y, k), S(x, k))) for f, x, y in zip(multi.NF, q.allnode, p.allnode)]
def pre_(lab, l): return [('%s: %s' % (lab, w), g) for w, g in l]
def inv_unit(c):
    j, cu, mn, rr = c.v('j'), c.cur.get(c.vp('ul'), 'count_units'), c.v('merge_needed'), c.ex.ghost.get('rerun', iv(0)); w = wa_i(c)
    return [('range', And(j >= 0, Or(j <= cu + 1, j == 0), c.cur.get(loop_i(c)) >= 1)), ('log', c.ex.ghost['ev_n'] >= 0), ('the stacks of the chunk are needed unless its last unit was run again', mn == If(And(rr == 1, j == cu + 1), 0, 1)),
            ('the worker', And(c.ex.toref(c.v('wa')) == c.ex.toref(w), c.ex.toref(c.v('tl')) == c.ex.toref(c.cur.get(w, 'tuple_list'))))] + fixed(c)
def init_unit(c):
    c.ex.setghost('rerun', iv(0)); h = c.ex.chunkhead; k, = K('k'); i = c.cur.get(loop_i(c)); ul = wa_i(c).fld('unit_list')
    before = h.get(Ptr(c.ex.threads.root, (('i', i - 1),), False), 'input_stream'); ar, o = h.chars(before)
    return pre_('nothing happens in front of the first unit', unchanged(c, G(c, c.cur), G(c, h))) + [('the first unit', And(c.v('j') == 0, i == h.get(loop_i(c)))), ('the units of the chunk', And(c.cur.get(c.vp('ul'), 'count_units') == c.cur.get(ul, 'count_units'), *[c.cur.arr(c.vp('ul'), 'units', '[]', f) == h.arr(ul, 'units', '[]', f) for f in ('count_unmatched_symbols', 'num_root', 'unit_state')])),
            ('the position of the chunk', c.v('chunk_start') == h.get(c.vp('chunk_start')) + libc.SLEN(ar, o))]
def wf_unit(c):
    """a unit lies in its chunk, which is a text (where executeWorkerAutomaton records units is not under contract)"""
    clear(c); c.ex.unithead = snap(c); n = c.vp('ul').fld('units', c.v('j')); a, b = c.ex.toref(c.cur.get(n, 'start')), c.ex.toref(c.cur.get(n, 'end')); k, = K('k'); t = mem(c)
    return [('in the chunk', a >= chunk(c, c.cur.get(loop_i(c)))), ('text', FA([k], Implies(And(k >= a, k < b), S(t, k) != 0), S(t, k)))]
def init_sym(c):
    k = c.v('k'); h = c.ex.unithead; u, ul = c.vp('unit'), c.vp('ul'); n = ul.fld('units', c.v('j')); f = ('count_unmatched_symbols', 'num_root', 'unit_state')
    return pre_('nothing happens in front of the first symbol', unchanged(c, G(c, c.cur), G(c, h))) + [('the first symbol', And(k == 0, c.v('j') == h.get(c.vp('j')))), ('the unit', And(*[c.cur.get(u, x) == c.cur.get(n, x) for x in f])),
            ('its bytes', And(*[c.ex.toref(c.cur.get(u, x)) == c.ex.toref(c.cur.get(n, x)) for x in ('start', 'end')]))]
def init_find(c):
    c.ex.symend = snap(c); k = c.cur.get(c.vp('k')); cu = c.cur.get(c.vp('unit'), 'count_unmatched_symbols')
    return [('every unmatched symbol was handled', k == If(cu < 0, 0, cu + 1))] + pre_('nothing happens after the last symbol', unchanged(c, G(c, c.cur), G(c, c.ex.symhead)))
def step_unit(c):
    o = [('the next unit follows', c.v('j') == c.head.get(c.vp('j')) + 1)]; n = G(c, c.cur); k, = K('k'); u = c.vp('unit'); get = lambda f: c.cur.get(u, f)
    if c.ex.rerun is None: return o + [('every result was looked at', c.v('tuple_index') == -1)] + pre_('nothing happens after the last result', unchanged(c, n, G(c, c.ex.chainhead)))
    rc, ss0, qs0, lev0, need, text, ss1, qs1, lev1 = c.ex.rerun; b = G(c, c.ex.symend); i = c.cur.get(loop_i(c)); first, last, cs = c.ex.toref(get('start')), c.ex.toref(get('end')), chunk(c, i); n_ = last - first
    m = lambda ss, qs, lev: type('M', (), dict(ss=ss, qs=qs, lev=lev))
    l, nr, ok, ft, none = found(c, b); t, = K('t')
    o += [('a unit is run again only without the actual state', And(l == nr, nr > 0, none, get('unit_state') != 1, last > first))]
    o += pre_('run again from the merged state', unchanged(c, m(ss0, qs0, lev0), b)) + [('run again as such', need == 1), ('the automaton', c.ex.toref(rc.a(0)) == workref(c, iv(0)))]
    o += [('the bytes of the unit', FA([k], Implies(And(k >= 0, k < n_), S(text, k) == S(mem(c), first + k)), S(text, k))), ('a blank ends it', And(S(text, n_) == 32, S(text, n_ + 1) == 0))]
    if c.ex.shift is None: return o + [('pending matches are moved', F)]
    sc, sq, so, off = c.ex.shift
    o += [('pending matches move to where the unit lies', off == c.v("chunk_start") + first - cs)]
    o += pre_('the stacks the run leaves are moved', unchanged(c, m(ss1, sq, lev1), m(ss1, qs1, lev1))) + pre_('what was pending before stays', [(w, g) for w, g in unchanged(c, m(ss1, so, lev1), m(ss1, b.qs, lev1))])
    o += pre_('the stacks of the run are the merged state', unchanged(c, n, m(ss1, c.ex.shifted, lev1)))
    return o
def wf_symbols(c): wf_sym(c); c.ex.symhead = snap(c); return []
def wf_chain(c):
    """the recorded results lie in the chunk (contract of addTupleInfo and executeWorkerAutomaton)"""
    c.ex.chainhead = snap(c); x = c.v('tuple_index'); tl = c.v('tl'); a, b = [S(c.cur.arr(tl, 'element', '[]', f), x) for f in ('start_position', 'end_position')]; return [('in the chunk', Or(a == -1, And(a >= 0, b >= a)))]
# ---- a chunk
def inv_chunk(c): return [('range', And(c.cur.get(loop_i(c)) >= 1, Or(c.cur.get(loop_i(c)) <= c.v('num_thread'), c.cur.get(loop_i(c)) == 1))), ('log', c.ex.ghost['ev_n'] >= 0)] + fixed(c)
def init_chunk(c):
    w = c.cur.get(c.a(0), 'worker_automaton'); n = G(c, c.cur); z = type('M', (), dict(ss=SS(c.cur, w.fld('syntax_stack')), qs=MS(c.cur, w.fld('query_stacks')), lev=rng(c.cur.get(w, 'query_stacks_element'))))
    return pre_('merging starts with what the first worker left', unchanged(c, n, z)) + [('the first chunk needs no merging', And(c.cur.get(loop_i(c)) == 1, c.v('chunk_start') == 0)), ('no result yet', c.ex.ghost['ev_n'] == c.gentry['ev_n'])]
def wf_chunk(c): clear(c); c.ex.chunkhead = snap(c); c.ex.chunkghost = dict(c.ex.ghost); return []
def samepath(p, q):
    if p.root is not q.root or len(p.path) != len(q.path): return F
    return And(*[(T if a[1] == b[1] else F) if a[0] == 'f' and b[0] == 'f' else Z(a[1]) == Z(b[1]) if a[0] == b[0] else F for a, b in zip(p.path, q.path)])
def step_chunk(c):
    n, b = G(c, c.cur), G(c, c.ex.unithead); i0 = c.head.get(loop_i(c)); j, cu = c.ex.unithead.get(c.vp('j')), c.ex.unithead.get(c.vp('ul'), 'count_units'); m = lambda ss, qs, lev: type('M', (), dict(ss=ss, qs=qs, lev=lev))
    o = [('the next chunk follows', And(c.cur.get(loop_i(c)) == i0 + 1, c.v('chunk_start') == c.ex.unithead.get(c.vp('chunk_start')))), ('every unit was merged', j == If(cu < 0, 0, cu + 1))]
    last = c.ex.ghost['rerun']
    if c.ex.synmerge is None: return o + [('only a unit that was run again leaves the stacks itself', And(last == 1, j == cu + 1))] + pre_('no merging of stacks', unchanged(c, n, b))
    o += [('the stacks of the chunk are merged unless its last unit was run again', Not(And(last == 1, j == cu + 1)))]
    if c.ex.qmerge is None or c.ex.shift is None: return o + [('query stacks are merged and their pending matches moved', F)]
    yc, yd, ys, yv, yn = c.ex.synmerge; w = None; qc, qd, qn, qlev, qs_ = c.ex.qmerge; sc, sq, so, off = c.ex.shift
    o += [('the brackets of the chunk are appended', And(samepath(ys, Ref_fld(c, w, 'syntax_stack')), yv.top == b.ss.top, yv.sym == b.ss.sym, n.ss.top == yn.top, n.ss.sym == yn.sym)),
          ('the levels of the chunk are appended', And(samepath(qs_, Ref_fld(c, w, 'query_stacks')), n.lev[0] == qlev[0], n.lev[1] == qlev[1])),
          ('the position of the chunk', off == c.v('chunk_start'))]
    e = lambda q: m(b.ss, q, b.lev)
    o += pre_('they are appended to the merged stacks', unchanged(c, e(qd), b)) + pre_('the appended stacks are moved', unchanged(c, e(sq), e(qn))) + pre_('what was pending before stays', unchanged(c, e(so), b))
    o += pre_('the result is the merged state', unchanged(c, e(n.qs), e(c.ex.shifted)))
    return o
def Ref_fld(c, w, f): return c.cur.get(Ptr(c.ex.threads.root, (('i', c.head.get(loop_i(c))),), False), 'worker_automaton').fld(f)
combine.loops = {0: Loop(inv=inv_chunk, assume=wf_chunk, step=step_chunk, init=init_chunk), 1: Loop(inv=inv_unit, assume=wf_unit, step=step_unit, init=init_unit, ghost=lambda c: [('rerun', iv(0 if c.ex.rerun is None else 1))]), 2: Loop(inv=inv_sym, assume=wf_symbols, step=step_sym, init=init_sym),
    3: Loop(inv=inv_find, init=init_find), 4: Loop(inv=inv_chain, step=step_chain, init=init_chain, assume=wf_chain)}
MINE = [getMatchedType(), getDFAArrayIndex(), textAcrossChunks(), addTupleInfo(), addTuple(), substring_in_place(), executeWorkerAutomaton(), combineSyntaxStack(), combineQueryStacks(), shiftPendingMatches(), combine()]
SPECS = [x for x in worker.SPECS if x.name not in {y.name for y in MINE}] + MINE
REGIONS = dict(TREG); REGIONS.update({('Unit', 'start'): 'text', ('Unit', 'end'): 'text', ('ThreadInfo', 'input_stream'): 'text', '#text': 'char'})
def modules():
    return Module(TU(['JSONQuery/utility.c', 'JSONQuery/parallel_automata_execution.h']), SPECS, buf=dfa.BUFS, regions=REGIONS)
