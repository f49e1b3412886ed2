"""Contracts of the partitioning and loading functions: path_processor.h (partitionInputStream, loadBoundedInputStream, loadInputStream)
and file_partition.c (partitionFile).  A cut is a position holding a quote whose last preceding non-blank byte is a comma or opens a container."""
from specs.common import *
from specs import lex
from specs.eval import rows
from jpv import libc
LNB = z3.Function('last_non_blank_before', ARR, INT, INT)      # index of the last non-blank byte before a position, -1: none
CUTS = 'cuts'
def blank(b): return Or(b == 32, b == 9, b == 10, b == 13)
def d_lnb(S_, p):
    x = z3.Select(S_, p - 1)
    return [LNB(S_, p) == If(p <= 0, iv(-1), If(blank(x), LNB(S_, p - 1), p - 1)), And(LNB(S_, p) < If(p <= 0, iv(0), p), LNB(S_, p) >= -1)]
def cut(S_, p):
    q = LNB(S_, p); b = z3.Select(S_, q)
    return And(z3.Select(S_, p) == 34, q >= 0, Or(b == 44, b == 123, b == 91))
def nulfree(S_, n):
    k, = K('n'); return And(z3.Select(S_, n) == 0, FA([k], Implies(And(k >= 0, k < n), z3.Select(S_, k) != 0), z3.Select(S_, k)))
def piece(R, S_, b, n):
    """R[0..n) is S[b..b+n)"""
    k, = K('p'); return FA([k], Implies(And(k >= 0, k < n), z3.Select(R, k) == z3.Select(S_, b + k)), z3.Select(R, k))
class Chunks:
    """view of the chunk texts under construction"""
    def __init__(v, c, view, stream): v.nul, v.row = rows(view, stream.root, ('[]',)); v.root = stream.root
    def done(v, S_, cu, i):
        """chunks 0..i-1 are the texts between consecutive cuts"""
        k, x = K('k', 'x'); r = z3.Select(v.row, k); a, b = z3.Select(cu, k), z3.Select(cu, k + 1)
        return [('finished chunks exist', FA([k], Implies(And(k >= 0, k < i), Not(z3.Select(v.nul, k))), z3.Select(v.nul, k))),
                ('finished chunks are the text between the cuts', FA([k, x], Implies(And(k >= 0, k < i, x >= 0, x < b - a), z3.Select(r, x) == z3.Select(S_, a + x)), z3.Select(r, x))),
                ('finished chunks end at the next cut', FA([k], Implies(And(k >= 0, k < i), z3.Select(r, b - a) == 0), z3.Select(r, b - a), r))]
def cutsok(S_, N, cu, i):
    k, = K('k')
    return [('cuts are in order', And(z3.Select(cu, 0) == 0, FA([k], Implies(And(k >= 0, k < i), And(z3.Select(cu, k) >= 0, z3.Select(cu, k) <= z3.Select(cu, k + 1), z3.Select(cu, k + 1) <= N)), z3.Select(cu, k), z3.Select(cu, k + 1))))]
def cutpoints(S_, N, cu, lo, hi):
    k, = K('k')
    return ('chunks start at token starts', FA([k], Implies(And(k >= lo, k < hi, z3.Select(cu, k) < N), cut(S_, z3.Select(cu, k))), z3.Select(cu, k)))
class splitter(Spec):
    """shared by the two partitioners: text S of length N, chunk under construction"""
    nloops = 4; size = None; stopped = False
    def setup(s, c): c.ex.setghost(CUTS, z3.Store(z3.Const('cuts0', ARR), 0, 0))
    def V(s, c):
        class v: pass
        v.S, v.N = s.text(c); v.i, v.sum, v.cs = c.v('i'), c.v('sum_size'), c.v('chunk_size'); v.st = c.v('stream'); v.cu = c.ex.ghost[CUTS]; v.n = c.a(1)
        v.ok = isinstance(v.st, Ptr) and v.st.root is not None
        if v.ok: v.ch = Chunks(c, c.cur, v.st)
        return v
    def post(s, c):
        S_, N = s.text(c); m, st = c.res.leaves[('num_chunk',)], c.res.leaves[('stream',)]
        if not isinstance(st, Ptr) or st.root is None: return [('nothing when there is no file', m == 0)] if s.mayfail(c) else [('returns the chunks', F)]
        if not c.has('i'): raise Undecided('no chunk counter')
        v = s.V(c); ch = Chunks(c, c.cur, st); cu = z3.Store(z3.Store(v.cu, v.i, v.sum), m, N)
        return [('at most one chunk per worker', And(m >= 0, m <= c.a(1)))] + ch.done(S_, cu, m) + cutsok(S_, N, cu, m) + [('the chunks cover the whole text', And(z3.Select(cu, 0) == 0, z3.Select(cu, m) == N)), cutpoints(S_, N, cu, 1, m)]
    def mayfail(s, c): return False
    def inv0(s):
        def inv(c):
            i = c.v('i'); return [('range', And(i >= 0))]
        return inv
    def inv1(s):
        def inv(c):
            v = s.V(c)
            if not v.ok: return [('chunk table', F)]
            return [('range', And(v.i >= 0, v.i < v.n, v.cs >= 1, Implies(v.N >= 1, v.cs <= v.N + 1), v.sum >= 0, v.sum <= v.N + 1)), ('progress', And(Implies(v.i == 0, v.sum == 0), Implies(v.i > 0, v.sum + v.cs < v.N))),
                    ('position', And(z3.Select(v.cu, v.i) == v.sum, z3.Select(v.cu, 0) == 0))] + v.ch.done(v.S, v.cu, v.i) + cutsok(v.S, v.N, v.cu, v.i) + [cutpoints(v.S, v.N, v.cu, 1, v.i + 1)] + s.more(c, v)
        return inv
    def more(s, c, v): return []
    def ghost(s):
        def g(c):
            v = s.V(c); return [(CUTS, z3.Store(v.cu, v.i, v.sum))]
        return g
    def start(s, c, v): raise NotImplementedError
    def inv2(s):
        def inv(c):
            v = s.V(c)
            if not v.ok: return [('chunk table', F)]
            add = c.v('add'); b = s.start(c, v); row = z3.Select(v.ch.row, v.i); h = Chunks(c, c.entry, v.st); sz = c.ex.movedin.get((v.st.root.id, ('[]',)))
            k, = K('k')
            return [('range', And(add >= 0, b >= 0, v.cs + add <= v.N - b + If(v.N == 0, iv(1), iv(0)))), ('room', v.cs + add + 1 <= Z(sz) if sz is not None else F), ('a chunk', Not(z3.Select(v.ch.nul, v.i))),
                    ('the text so far', piece(row, v.S, b, If(v.N == 0, iv(0), v.cs + add))),
                    ('an empty text', Implies(v.N == 0, And(add == 0, z3.Select(row, 0) == 0))),
                    ('other chunks are kept', FA([k], Implies(k != v.i, And(z3.Select(v.ch.row, k) == z3.Select(h.row, k), z3.Select(v.ch.nul, k) == z3.Select(h.nul, k))), z3.Select(v.ch.row, k)))] + s.more2(c, v, b, add)
        return inv
    def more2(s, c, v, b, add): return []
    def inv3(s):
        def inv(c):
            v = s.V(c)
            if not v.ok: return [('chunk table', F)]
            add, t, prev = c.v('add'), c.v('t'), c.v('prev'); b = s.start(c, v); P = b + v.cs + add; x = P - If(t <= 1, iv(1), t - 1)
            return [('range', And(t >= 1, x >= b)), ('byte', And(prev == z3.Select(v.S, x))), ('blank so far', LNB(v.S, P) == LNB(v.S, x + 1))]
        return inv
    def lem3(s):
        def lem(c):
            v = s.V(c); add, t = c.v('add'), c.v('t'); b = s.start(c, v); P = b + v.cs + add; x = P - If(t <= 1, iv(1), t - 1)
            return d_lnb(v.S, x + 1) + d_lnb(v.S, P)
        return lem
    @property
    def loops(s): return {0: Loop(inv=s.inv0()), 1: Loop(inv=s.inv1(), ghost=s.ghost()), 2: Loop(inv=s.inv2()), 3: Loop(inv=s.inv3(), lemma=s.lem3())}
class partitionInputStream(splitter):
    """chunks of a text"""
    name = 'partitionInputStream'
    def text(s, c):
        S_, o = c.old.chars(c.a(0)); return S_, libc.SLEN(S_, o)
    def pre(s, c):
        S_, o = c.old.chars(c.a(0)); libc.strfacts(c.ex, S_, o); N = libc.SLEN(S_, o)
        return [('text', And(o == 0, N < 2**30)), ('number of workers', And(c.a(1) >= 1, c.a(1) < 2**24))]
    def mods(s, c): return []
    def start(s, c, v): return v.sum - v.cs
class loadBoundedInputStream(Spec):
    """the next piece of the file, NULL at its end"""
    name = 'loadBoundedInputStream'; nloops = 2
    def setup(s, c): pass
    def pre(s, c):
        p = c.cur.get(c.a(1)); N = libc.FSIZE
        return [('position in the file', And(p >= 0, p <= N)), ('file of less than 2 GB', And(N >= 0, N < 2**31 - 300000)), ('no NUL byte', nulfree(libc.FBYTES, N))]
    def mods(s, c): return [c.a(1)]
    def post(s, c):
        o, n = c.old.get(c.a(1)), c.cur.get(c.a(1)); N = libc.FSIZE; B = libc.FBYTES
        if not isinstance(c.res, Ptr): return [('returns a text', F)]
        if c.res.root is None: return [('NULL at the end of the file, or when it cannot be read', And(n == o, Or(o >= N, 'fpos' not in c.ex.ghost)))]
        R, off = c.cur.chars(c.res)
        return [('not at the end', o < N), ('from its start', off == 0), ('the next bytes of the file', piece(R, B, o, n - o)), ('ends there', z3.Select(R, n - o) == 0), ('every byte once', And(n > o, n <= N)),
                ('the next piece starts at a token start', Implies(n < N, cut(B, n)))]
    def V(c):
        class v: pass
        v.st, v.size, v.add, v.ch, v.b = c.v('stream'), c.v('size'), c.v('add'), c.v('ch'), c.v('loaded_size'); v.pos = c.ex.ghost['fpos']
        v.ok = isinstance(v.st, Ptr) and v.st.root is not None
        return v
    def inv0(c):
        v = loadBoundedInputStream.V(c); N = libc.FSIZE; B = libc.FBYTES
        if not v.ok: return [('buffer', F)]
        R, off = c.cur.chars(v.st); sz = libc.size(c.ex, v.st); P = v.b + v.size + v.add; ub = z3.Select(B, P)
        return [('range', And(off == 0, v.b >= 0, v.size >= 1, v.add >= 0, P <= N)), ('position', And(v.b == c.old.get(c.a(1)))), ('bytes so far', piece(R, B, v.b, v.size + v.add)),
                ('next byte', If(P < N, And(v.ch == If(ub < 0, ub + 256, ub), v.pos == P + 1, ub >= -128, ub <= 127), And(v.ch == -1, v.pos == N))),
                ('room for one more byte and the ending', v.size + v.add + 2 <= Z(sz)), ('growth', Z(sz) >= v.size + ((v.add + 2) / iv(2000) + 1) * 2000)]
    def inv1(c):
        v = loadBoundedInputStream.V(c); B = libc.FBYTES
        if not v.ok: return [('buffer', F)]
        t, prev = c.v('t'), c.v('prev'); P = v.b + v.size + v.add; x = P - If(t <= 1, iv(1), t - 1)
        return [('range', And(t >= 1, x >= v.b)), ('byte', prev == z3.Select(B, x)), ('blank so far', LNB(B, P) == LNB(B, x + 1))]
    def lem1(c):
        v = loadBoundedInputStream.V(c); t = c.v('t'); P = v.b + v.size + v.add; x = P - If(t <= 1, iv(1), t - 1)
        return d_lnb(libc.FBYTES, x + 1) + d_lnb(libc.FBYTES, P)
    loops = {0: Loop(inv=inv0), 1: Loop(inv=inv1, lemma=lem1)}
class loadInputStream(Spec):
    """the whole file as a text, NULL when it cannot be read"""
    name = 'loadInputStream'
    pre = lambda s, c: [('file of less than 2 GB', And(libc.FSIZE >= 0, libc.FSIZE < 2**31 - 300000)), ('no NUL byte', nulfree(libc.FBYTES, libc.FSIZE))]
    def post(s, c):
        N = libc.FSIZE; B = libc.FBYTES
        if not isinstance(c.res, Ptr): return [('returns a text', F)]
        if c.res.root is None: return [('NULL when the file cannot be read', T if 'fpos' not in c.ex.ghost else F)]
        R, off = c.cur.chars(c.res)
        return [('from its start', off == 0), ('the bytes of the file', piece(R, B, iv(0), N)), ('ends with the file', z3.Select(R, N) == 0)]
SPECS = [partitionInputStream(), loadBoundedInputStream(), loadInputStream()] + [x for x in lex.SPECS if x.name in ('substring_in_place', 'substring')]
def modules():
    tu = TU(['JSONQuery/utility.c', 'JSONQuery/path_processor.h'])
    return Module(tu, SPECS)
