"""Contracts of JSONQuery/utility.c and JSONQuery/lexing.c: the tokens of a JSON text."""
from specs.common import *
from jpv import libc

# ---------------------------------------------------------------- spec functions over the text S, of length L
def isws(c): return Or(c == 32, c == 9, c == 10, c == 13)
def digit(c): return And(c >= 48, c <= 57)
def alnum(c): return Or(digit(c), And(c >= 97, c <= 122), And(c >= 65, c <= 90))
def primstart(c): return Or(c == 45, alnum(c))
def structural(c): return Or(c == 123, c == 125, c == 91, c == 93, c == 44)
def starts(c): return Or(structural(c), c == 34, primstart(c))
def primend(c): return Or(c == 125, c == 93, c == 44, isws(c))
TS = z3.Function('tokstart', ARR, INT, INT, INT)     # first position >= n that starts a token, or L
CQ = z3.Function('closequote', ARR, INT, INT, INT)   # closing quote of the string opened at p, or L
WE = z3.Function('wsend', ARR, INT, INT)             # first position >= q that is no white space
PE = z3.Function('primstop', ARR, INT, INT, INT)     # first delimiter after p, or L
ES = z3.Function('escaped', ARR, INT, INT, z3.BoolSort())   # is position k of the string opened at p escaped

def d_ts(s, L, n):
    k, = K('t'); t = TS(s, L, n)
    return [Implies(And(n >= 0, n <= L), And(n <= t, t <= L, FA([k], Implies(And(k >= n, k < t), Not(starts(z3.Select(s, k)))), z3.Select(s, k)), Implies(t < L, starts(z3.Select(s, t)))))]
def d_cq(s, L, p):
    k, = K('c'); q = CQ(s, L, p)
    return [Implies(And(p >= 0, p < L), And(p < q, q <= L, FA([k], Implies(And(k > p, k < q, z3.Select(s, k) == 34), ES(s, p, k)), z3.Select(s, k)),
                                            Implies(q < L, And(z3.Select(s, q) == 34, Not(ES(s, p, q))))))]
def d_we(s, L, q):
    k, = K('w'); r = WE(s, q)
    return [Implies(And(q >= 0, q <= L), And(q <= r, r <= L, FA([k], Implies(And(k >= q, k < r), isws(z3.Select(s, k))), z3.Select(s, k)), Not(isws(z3.Select(s, r)))))]
def d_pe(s, L, p):
    k, = K('p'); q = PE(s, L, p)
    return [Implies(And(p >= 0, p < L), And(p < q, q <= L, FA([k], Implies(And(k > p, k < q), Not(primend(z3.Select(s, k)))), z3.Select(s, k)),
                                            Implies(q < L, primend(z3.Select(s, q)))))]
def d_es(s, p, k):
    """one unfolding of `escaped` at k"""
    return [ES(s, p, k) == And(k > p + 1, z3.Select(s, k - 1) == 92, Not(ES(s, p, k - 1)))]

class Tok:
    """the token that follows position n"""
    def __init__(t, s, L, n):
        t.s, t.L, t.n = s, L, n
        t.p = TS(s, L, n); t.q = CQ(s, L, t.p); t.r = WE(s, t.q + 1); t.e = PE(s, L, t.p)
        c = z3.Select(s, t.p); t.c = c
        t.isstr = And(t.p < L, c == 34, t.q < L)
        t.key = And(t.isstr, z3.Select(s, t.r) == 58)
        t.prim = And(t.p < L, primstart(c), t.e < L)
        t.struct = And(t.p < L, structural(c))
        t.type = If(And(t.p < L, c == 123), iv(1), If(And(t.p < L, c == 125), iv(2), If(And(t.p < L, c == 91), iv(3), If(And(t.p < L, c == 93), iv(4),
                 If(And(t.p < L, c == 44), iv(5), If(t.key, iv(6), If(Or(t.isstr, t.prim), iv(7), iv(-1))))))))
        t.next = If(t.struct, t.p + 1, If(t.key, t.r + 1, If(t.isstr, t.r, If(t.prim, t.e, n))))
        t.cs = If(t.key, t.p + 1, t.p)                       # content = s[cs, ce)
        t.ce = If(t.key, t.q, If(t.isstr, t.q + 1, t.e))
        t.hascontent = Or(t.isstr, t.prim)
    def defs(t): return d_ts(t.s, t.L, t.n) + d_cq(t.s, t.L, t.p) + d_we(t.s, t.L, t.q + 1) + d_pe(t.s, t.L, t.p)

def isstr(s, L):
    k, = K('z')
    return And(L >= 0, z3.Select(s, L) == 0, FA([k], Implies(And(k >= 0, k < L), z3.Select(s, k) != 0), z3.Select(s, k)))

# ---------------------------------------------------------------- utility.c
class strcopy(Spec):
    """dest receives src including its NUL (and a second NUL); nothing else of dest changes"""
    name = 'strcopy'
    def parts(s, c):
        sa, so = c.old.chars(c.a(0)); da, do = c.old.chars(c.a(1))
        libc.strfacts(c.ex, sa, so)
        return sa, so, da, do, libc.SLEN(sa, so)
    def pre(s, c):
        sa, so, da, do, n = s.parts(c)
        sz = libc.size(c.ex, c.a(1))
        out = [('lengths', And(n < 2**31 - 4, so >= 0, do >= 0))]
        if c.call and sz is not None: out.append(('destination holds the text', do + n + 2 <= sz))
        return out
    def mods(s, c): return [('buf', c.a(1))]
    def post(s, c):
        sa, so, da, do, n = s.parts(c); na, _ = c.cur.chars(c.a(1))
        k, = K('k')
        cp = FA([k], Implies(And(k >= do, k < do + n), z3.Select(na, k) == z3.Select(sa, k - do + so)), z3.Select(na, k))
        out = [('copied', cp), ('terminated', And(z3.Select(na, do + n) == 0, z3.Select(na, do + n + 1) == 0)), ('rest kept', outside(na, da, do, do + n + 2))]
        if c.call:   # consequences for the string identity (the text is the same string)
            libc.strfacts(c.ex, na, do)
            out.append(('same string', And(libc.SLEN(na, do) == n, libc.CID(na, do) == libc.CID(sa, so))))
            out.append(('copied, read from the source', FA([k], Implies(And(k >= so, k < so + n), z3.Select(na, k - so + do) == z3.Select(sa, k)), z3.Select(sa, k))))
        return out
    nloops = 1
    def inv(c):
        sa, so = c.old.chars(c.a(0)); da, do = c.old.chars(c.a(1)); na, _ = c.cur.chars(c.a(1))
        n = libc.SLEN(sa, so); i = c.v('i'); k, = K('k')
        return [('range', And(i >= 0, i <= n + 1)),
                ('prefix', FA([k], Implies(And(k >= do, k < do + i), z3.Select(na, k) == z3.Select(sa, k - do + so)), z3.Select(na, k))),
                ('rest', outside(na, da, do, do + i))]
    loops = {0: Loop(inv=inv)}

class substring_in_place(Spec):
    name = 'substring_in_place'
    def pre(s, c):
        sz = libc.size(c.ex, c.a(0)); b, e = c.a(2), c.a(3)
        da, do = c.old.chars(c.a(0)); sa, so = c.old.chars(c.a(1))
        out = [('bounds', And(b >= 0, e >= b, e - b < 2**31 - 2, do >= 0, so >= 0))]
        if c.call and sz is not None: out.append(('destination holds the text', do + (e - b) + 1 <= sz))
        szs = libc.size(c.ex, c.a(1))
        if c.call and szs is not None: out.append(('source range inside its buffer', so + e <= szs))
        return out
    def mods(s, c): return [('buf', c.a(0))]
    def post(s, c):
        da, do = c.old.chars(c.a(0)); sa, so = c.old.chars(c.a(1)); na, _ = c.cur.chars(c.a(0)); b, e = c.a(2), c.a(3)
        k, = K('k')
        out = [('copied', FA([k], Implies(And(k >= do, k < do + (e - b)), z3.Select(na, k) == z3.Select(sa, k - do + so + b)), z3.Select(na, k))),
               ('terminated', z3.Select(na, do + (e - b)) == 0), ('rest kept', outside(na, da, do, do + (e - b) + 1))]
        if c.call:
            out.append(('copied, read from the source', FA([k], Implies(And(k >= so + b, k < so + e), z3.Select(na, k - so - b + do) == z3.Select(sa, k)), z3.Select(sa, k))))
        return out
    nloops = 1
    def inv(c):
        da, do = c.old.chars(c.a(0)); sa, so = c.old.chars(c.a(1)); na, _ = c.cur.chars(c.a(0)); b, e = c.a(2), c.a(3)
        i, j = c.v('i'), c.v('j'); k, = K('k')
        return [('range', And(j >= 0, i == b + j, i <= e)),
                ('prefix', FA([k], Implies(And(k >= do, k < do + j), z3.Select(na, k) == z3.Select(sa, k - do + so + b)), z3.Select(na, k))),
                ('rest', outside(na, da, do, do + j))]
    loops = {0: Loop(inv=inv)}

class substring(Spec):
    """a fresh NUL-terminated copy of pText[begin, end)"""
    name = 'substring'
    def pre(s, c):
        sa, so = c.old.chars(c.a(0)); b, e = c.a(1), c.a(2)
        szs = libc.size(c.ex, c.a(0))
        out = [('bounds', And(b >= 0, e >= b, e - b < 2**31 - 2, so >= 0))]
        if c.call and szs is not None: out.append(('source range inside its buffer', so + e <= szs))
        return out
    def result(s, c):
        n = c.a(2) - c.a(1) + 1
        r = c.ex.newobj('substring', Ty('arr', CH), n); return Ptr(r, (('i', iv(0)),), False)
    def post(s, c):
        sa, so = c.old.chars(c.a(0)); b, e = c.a(1), c.a(2)
        if not isinstance(c.res, Ptr) or c.res.root is None: return [('returns a buffer', F)]
        na, no = c.cur.chars(c.res); k, = K('k')
        return [('copied', FA([k], Implies(And(k >= no, k < no + (e - b)), z3.Select(na, k) == z3.Select(sa, k - no + so + b)), z3.Select(na, k))),
                ('terminated', z3.Select(na, no + (e - b)) == 0)]
    nloops = 1
    def inv(c):
        sa, so = c.old.chars(c.a(0)); b, e = c.a(1), c.a(2)
        i, j = c.v('i'), c.v('j'); k, = K('k'); na, no = c.cur.chars(c.v('temp1'))
        return [('range', And(j >= 0, i == b + j, i <= e)), ('prefix', FA([k], Implies(And(k >= no, k < no + j), z3.Select(na, k) == z3.Select(sa, k - no + so + b)), z3.Select(na, k)))]
    loops = {0: Loop(inv=inv)}

class allocate_and_copy(Spec):
    """a fresh copy of the text"""
    name = 'allocate_and_copy'
    def pre(s, c):
        sa, so = c.old.chars(c.a(0)); libc.strfacts(c.ex, sa, so)
        return [('length', And(libc.SLEN(sa, so) < 2**31 - 4, so >= 0))]
    def result(s, c):
        r = c.ex.newobj('copy', Ty('arr', CH)); return Ptr(r, (('i', iv(0)),), False)
    def post(s, c):
        sa, so = c.old.chars(c.a(0))
        if not isinstance(c.res, Ptr) or c.res.root is None: return [('returns a buffer', F)]
        na, no = c.cur.chars(c.res); libc.strfacts(c.ex, na, no)
        return [('same string', And(libc.CID(na, no) == libc.CID(sa, so), libc.SLEN(na, no) == libc.SLEN(sa, so), z3.Select(na, no) == z3.Select(sa, so)))]

# ---------------------------------------------------------------- lexing.c
MAXTOK = 3990
class LexView:
    def __init__(v, c, view):
        lx = c.a(0); v.view = view
        g = lambda f: view.get(lx, f)
        v.bp, v.ep, v.np, v.cp, v.sp = g('begin_stream'), g('end_stream'), g('next_start'), g('current_pointer'), g('current_start')
        v.content = g('content'); v.state = g('lex_state')
        v.ok = all(isinstance(x, Ptr) and x.root is not None and x.root is v.bp.root and len(x.path) == len(v.bp.path) for x in (v.bp, v.ep, v.np, v.cp, v.sp)) and isinstance(v.content, Ptr)
        if v.ok:
            v.s, b = view.chars(v.bp); v.b = b
            v.L = v.ep.off; v.n = v.np.off
class nextToken(Spec):
    name = 'nextToken'
    def setup(s, c):
        ex = c.ex; lx = c.a(0)
        L = z3.Int('L'); b = buf(ex, 'text', CH, L + 1)
        for f, o in (('begin_stream', iv(0)), ('end_stream', L), ('next_start', z3.Int('next0')), ('current_pointer', z3.Int('cur0')), ('current_start', z3.Int('start0'))):
            ex.setraw(lx.root, (f,), Ptr(b, (('i', o),), False))
        ct = buf(ex, 'content', CH, iv(4000))
        ex.setraw(lx.root, ('content',), Ptr(ct, (('i', iv(0)),), False))
    def pre(s, c):
        v = LexView(c, c.cur)
        if not v.ok: return [('lexer pointers address one text', F)]
        sz = libc.size(c.ex, v.content)
        return [('text', And(v.b == 0, isstr(v.s, v.L), v.L < 2**30)), ('position inside the text', And(v.n >= 0, v.n <= v.L)),
                ('scan pointers inside the text', And(v.cp.off >= 0, v.cp.off <= v.L + 1, v.sp.off >= 0, v.sp.off <= v.L + 2)), ('state', v.state == 0),
                ('content buffer', And(v.content.off == 0, Z(sz if sz is not None else F) >= 4000 if sz is not None else F))]
    def mods(s, c):
        lx = c.a(0)
        return [lx.fld('current_pointer'), lx.fld('current_start'), lx.fld('next_start'), lx.fld('lex_state'), ('buf', c.old.get(lx, 'content'))]
    def result(s, c):
        ex = c.ex
        r = ex.freshval('token', Ty('struct', 'Token'))
        r.leaves[('content',)] = c.old.get(c.a(0), 'content')
        return r
    def lemma(s, c):
        o = LexView(c, c.old)
        if not o.ok: return []
        return Tok(o.s, o.L, o.n).defs()
    def post(s, c):
        o, v = LexView(c, c.old), LexView(c, c.cur)
        if not v.ok: return [('lexer pointers keep addressing the text', F)]
        t = Tok(o.s, o.L, o.n); ty = c.res.leaves[('token_type',)]
        ca, co = c.cur.chars(v.content); k, = K('k')
        pc = c.res.leaves[('content',)]
        same = isinstance(pc, Ptr) and pc.root is v.content.root
        out = [('token type', ty == t.type),
               ('position after the token', v.n == t.next),
               ('a token consumes text', And(v.n >= o.n, Implies(ty != -1, v.n > o.n))),
               ('content length', Implies(t.hascontent, And(z3.Select(ca, t.ce - t.cs) == 0))),
               ('content is the exact text of the token', Implies(t.hascontent, FA([k], Implies(And(k >= 0, k < t.ce - t.cs), z3.Select(ca, k) == z3.Select(o.s, t.cs + k)), z3.Select(ca, k)))),
               ('the token points to the content', Implies(t.hascontent, T if same else F)),
               ('scan pointers inside the text', And(v.cp.off >= 0, v.cp.off <= v.L + 1, v.sp.off >= 0, v.sp.off <= v.L + 2)), ('state', v.state == 0),
               ('the end of a structural token is kept', Implies(t.struct, And(v.sp.off == v.n, v.cp.off == v.n))), ('the end of the last structural token is kept', Implies(t.isstr, And(v.sp.off == o.cp.off + 1, v.cp.off == If(t.key, v.n - 1, o.cp.off))))]
        if c.call:
            libc.strfacts(c.ex, ca, co)
            out.append(('content string', Implies(t.hascontent, And(libc.SLEN(ca, co) == t.ce - t.cs, t.ce - t.cs < MAXTOK + 4))))
        return out
    nloops = 3
    def ctx(c):
        o = LexView(c, c.old); return o, Tok(o.s, o.L, o.n)
    def inv0(c):
        o = LexView(c, c.old); p, st, tp, start, h = c.v('p'), c.v('state'), c.v('token_pointer'), c.v('start'), c.v('head')
        ok = all(isinstance(x, Ptr) and x.root is o.bp.root for x in (p, tp, start))
        if not ok: return [('scan pointers address the text', F)]
        p, tp, start = p.off, tp.off, start.off; k, = K('k'); ts = TS(o.s, o.L, o.n)
        return [('state', And(st >= 0, st <= 2)), ('range', And(p >= o.n, p <= o.L, start >= 0, start <= p + 1 + If(st == 0, 1, 0) + o.L, tp >= o.n)),
                ('nothing skipped', Implies(st == 0, And(tp == p, FA([k], Implies(And(k >= o.n, k < p), Not(starts(z3.Select(o.s, k)))), z3.Select(o.s, k))))),
                ('start pointer', Or(start == p, st == 2, And(st == 1, start == tp), start == o.cp.off)),
                ('inside a string', Implies(st == 1, And(tp == ts, start == ts, ts < p, z3.Select(o.s, ts) == 34,
                     FA([k], Implies(And(k > ts, k < p, z3.Select(o.s, k) == 34), ES(o.s, ts, k)), z3.Select(o.s, k))))),
                ('inside a primitive', Implies(st == 2, And(tp == ts, ts < p, primstart(z3.Select(o.s, ts)),
                     FA([k], Implies(And(k > ts, k < p), Not(primend(z3.Select(o.s, k)))), z3.Select(o.s, k)))))]
    def lem0(c):
        o = LexView(c, c.old); p = c.v('p').off; t = Tok(o.s, o.L, o.n)
        return t.defs() + d_es(o.s, t.p, p) + d_es(o.s, t.p, p - 1) + d_es(o.s, t.p, p + 1)
    def as0(c):
        p, st, tp = c.v('p').off, c.v('state'), c.v('token_pointer').off
        return [('strings and primitives are shorter than the 4000-byte content buffer', Implies(st != 0, p - tp < MAXTOK))]
    def inv1(c):      # backslashes in front of a quote
        o = LexView(c, c.old); p, q, n = c.v('p').off, c.v('pointer'), c.v('count'); k, = K('k')
        if not isinstance(q, Ptr) or q.root is not o.bp.root: return [('pointer', F)]
        q = q.off; ts = TS(o.s, o.L, o.n)
        return [('range', And(q >= ts, q <= p - 2, n == p - 1 - q)),
                ('parity', ES(o.s, ts, p) == (ES(o.s, ts, q + 1) != (n % 2 == 1)))]
    def lem1(c):
        o = LexView(c, c.old); p, q = c.v('p').off, c.v('pointer').off; t = Tok(o.s, o.L, o.n)
        return d_es(o.s, t.p, q + 1) + d_es(o.s, t.p, p) + d_es(o.s, t.p, q + 2) + d_es(o.s, t.p, q)
    def inv2(c):      # white space behind a string
        o = LexView(c, c.old); p, start, tp = c.v('p'), c.v('start'), c.v('token_pointer'); k, = K('k')
        ok = all(isinstance(x, Ptr) and x.root is o.bp.root for x in (p, tp, start))
        if not ok: return [('scan pointers address the text', F)]
        p, start = p.off, start.off; t = Tok(o.s, o.L, o.n)
        return [('range', And(p >= t.q, p < o.L, start >= t.q, start <= p + 1)), ('white space', FA([k], Implies(And(k > t.q, k <= p), isws(z3.Select(o.s, k))), z3.Select(o.s, k)))]
    def lem2(c):
        o = LexView(c, c.old); t = Tok(o.s, o.L, o.n)
        return t.defs()
    loops = {0: Loop(inv=inv0, lemma=lem0, assume=as0), 1: Loop(inv=inv1, lemma=lem1), 2: Loop(inv=inv2, lemma=lem2)}

SPECS = [strcopy(), substring_in_place(), substring(), allocate_and_copy(), nextToken()]
def modules():
    tu = TU(['JSONQuery/utility.c', 'JSONQuery/lexing.c'])
    return Module(tu, SPECS)
