"""Contracts of parallel_automata_execution.h: the parts the merge is composed of."""
from specs.common import *
from specs import lex, dfa, stream, multi
from specs.dfa import DV, inrange
from specs.multi import MS, MAXN
from specs.eval import rows
from jpv import libc
CS = z3.Function('chunk_start', INT, INT)       # number of bytes in front of a chunk
class getMatchedType(stream.getMatchedType):
    """the kind of the current state, exactly as in the serial run"""
class shiftPendingMatches(Spec):
    """matches that became pending since old_qs are moved by the offset; no other one"""
    name = 'shiftPendingMatches'
    def pre(s, c):
        v, o = MS(c.cur, c.a(0)), MS(c.cur, c.a(1)); k, = K('k')
        return [('stacks', And(v.nn >= 0, v.nn <= MAXN)), ('positions', And(c.a(2) >= 0, c.a(2) < 2**30, FA([k], And(S(v.ms, k) >= -1, S(v.ms, k) < 2**30), S(v.ms, k))))]
    def mods(s, c): return [('leaf', c.a(0).fld('node', iv(0), 'matched_start'))]
    @staticmethod
    def upto(c, n):
        v, w, o = MS(c.cur, c.a(0)), MS(c.old, c.a(0)), MS(c.old, c.a(1)); k, = K('k')
        new = And(S(w.ms, k) != -1, Or(k >= o.nn, S(o.ms, k) == -1), k >= 0, k < n)
        return FA([k], S(v.ms, k) == S(w.ms, k) + If(new, c.a(2), 0), S(v.ms, k))
    def post(s, c): return [('exactly the matches that are new', s.upto(c, MS(c.old, c.a(0)).nn))]
    nloops = 1
    loops = {0: Loop(inv=lambda c: [('range', And(c.v('n') >= 0, c.v('n') <= MS(c.old, c.a(0)).nn)), ('so far', shiftPendingMatches.upto(c, c.v('n')))])}
class textAcrossChunks(Spec):
    """the text from a position of the concatenated chunks up to a position of one of them"""
    name = 'textAcrossChunks'
    def setup(s, c):
        r = c.ex.mkroot('threads', Ty('arr', Ty('struct', 'ThreadInfo'))); c.args[0] = Ptr(r, (('i', iv(0)),), False)
    def row(s, view, c): return rows(view, c.a(0).root, ('[]', 'input_stream'))
    def pre(s, c):
        nul, row = s.row(c.cur, c); k, x = K('k', 'x'); st, ch, en = c.a(1), c.a(2), c.a(3); r = z3.Select(row, k); n = libc.SLEN(r, iv(0))
        return [('the chunks are texts', FA([k], Implies(And(k >= 0, k <= ch), And(Not(z3.Select(nul, k)), n >= 0, z3.Select(r, n) == 0)), z3.Select(nul, k), r)),
                ('positions', And(CS(0) == 0, FA([k], Implies(And(k >= 0, k <= ch), And(CS(k + 1) == CS(k) + n, CS(k) >= 0, CS(k) < 2**30)), CS(k), r))),
                ('a range', And(ch >= 0, ch < 2**20, st >= 0, en >= 0, en < 2**30, en <= libc.SLEN(z3.Select(row, ch), iv(0)), st < CS(ch) + en))]
    def result(s, c): r = c.ex.newobj('text', Ty('arr', CH)); return Ptr(r, (('i', iv(0)),), False)
    def mods(s, c): return []
    def filled(s, c, na, no, hi):
        """the bytes of the chunks in front of hi are there"""
        nul, row = s.row(c.old, c); i, p = K('i', 'p'); st, ch, en = c.a(1), c.a(2), c.a(3)
        e = If(i < ch, CS(i) + libc.SLEN(z3.Select(row, i), iv(0)), CS(ch) + en)
        return FA([i, p], Implies(And(i >= 0, i < hi, i <= ch, p >= 0, CS(i) + p >= st, CS(i) + p < e), z3.Select(na, no + CS(i) + p - st) == z3.Select(z3.Select(row, i), p)), z3.Select(z3.Select(row, i), p))
    def post(s, c):
        if not isinstance(c.res, Ptr) or c.res.root is None: return [('returns a text', F)]
        na, no = c.cur.chars(c.res); st, ch, en = c.a(1), c.a(2), c.a(3)
        return [('exactly the bytes from start to end, across the chunks', s.filled(c, na, no, ch + 1)), ('terminated', z3.Select(na, no + CS(ch) + en - st) == 0)]
    nloops = 2
    def inv0(c):
        i = c.v('i'); k, = K('k')
        return [('range', And(i >= 0, i <= c.a(2))), ('length so far', c.v('total_len') == CS(i) + c.a(3) - c.a(1)), ('chunks lie in order', FA([k], Implies(And(k >= 0, k <= i), CS(k) <= CS(i)), CS(k)))]
    def inv1(c):
        i, st, ch, en = c.v('i'), c.a(1), c.a(2), c.a(3); at = If(i <= ch, CS(i), CS(ch) + en); tl = c.v('text_len'); t = c.v('text'); self = textAcrossChunks(); k, = K('k')
        if not isinstance(t, Ptr) or t.root is None: return [('buffer', F)]
        na, no = c.cur.chars(t); row = self.row(c.old, c)[1]; r = z3.Select(row, k)
        return [('finished chunks lie in front', FA([k], Implies(And(k >= 0, k < i, k < ch), CS(k) + libc.SLEN(r, iv(0)) <= at), CS(k), r)), ('range', And(i >= 0, i <= ch + 1)), ('position', c.v('chunk_start') == at), ('length so far', tl == If(at > st, at - st, 0)), ('text so far', self.filled(c, na, no, i)),
                ('terminated', Implies(at > st, z3.Select(na, no + at - st) == 0)), ('chunks lie in order', FA([k], Implies(And(k >= 0, k <= ch), CS(k) <= CS(ch)), CS(k)))]
    loops = {0: Loop(inv=inv0), 1: Loop(inv=inv1)}
SPECS = multi.SPECS + [x for x in lex.SPECS if x.name not in {y.name for y in multi.SPECS}] + [getMatchedType(), shiftPendingMatches(), textAcrossChunks()]
def modules():
    return Module(TU(['JSONQuery/utility.c', 'JSONQuery/parallel_automata_execution.h']), SPECS, buf=dfa.BUFS)
