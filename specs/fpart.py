"""Contract of JSONQuery/file_partition.c: chunks of a file."""
from specs.part import *
class partitionFile(splitter):
    """chunks of a file"""
    name = 'partitionFile'
    def text(s, c): return libc.FBYTES, libc.FSIZE
    def pre(s, c):
        N = libc.FSIZE
        return [('file', And(N >= 1, N < 2**30, nulfree(libc.FBYTES, N))), ('number of workers', And(c.a(1) >= 1, c.a(1) < 2**24))]
    def mods(s, c): return []
    def mayfail(s, c): return 'fpos' not in c.ex.ghost
    def start(s, c, v): return v.sum
    def more(s, c, v):
        ch = c.v('ch')
        return [('reading position', And(Implies(v.i == 0, And(ch == -1, c.ex.ghost['fpos'] == 0)), Implies(v.i > 0, And(ch == 34, c.ex.ghost['fpos'] == v.sum + 1, z3.Select(v.S, v.sum) == 34))))]
    def more2(s, c, v, b, add):
        P = b + v.cs + add; ub = z3.Select(v.S, P); ch = c.v('ch'); pos = c.ex.ghost['fpos']
        return [('next byte', If(P < v.N, And(ch == If(ub < 0, ub + 256, ub), pos == P + 1, ub >= -128, ub <= 127), And(ch == -1, pos == v.N)))]
SPECS = [partitionFile()]
def modules():
    tu = TU(['JSONQuery/file_partition.c'])
    return Module(tu, SPECS)
