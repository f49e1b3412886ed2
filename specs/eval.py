"""Contracts of JSONPathParser/jsonpath_evaluator.h: the value of a filter expression."""
from specs.common import *
from jpv import libc
NUL, NUM, STR, BOO = 0, 1, 2, 3
J_OR, J_AND, J_NOT, J_EQ, J_LT, J_GT, J_NE, J_LE, J_GE, J_ADD, J_SUB, J_MUL, J_DIV, J_MOD = range(14)
N_OPERATOR, N_NUMBER, N_STRING, N_VARIABLE = 5, 8, 9, 11
VAL = Ty('struct', 'JSONPathValue')
FPZ = z3.FPVal(0.0, FP)
# the value of a node, and of a reference by its name: type, number, string, boolean
VT, VN, VS, VB = [z3.Function(n, INT, x) for n, x in (('val_type', INT), ('val_number', FP), ('val_string', INT), ('val_bool', INT))]
LT, LN, LS, LB = [z3.Function(n, INT, x) for n, x in (('ref_type', INT), ('ref_number', FP), ('ref_string', INT), ('ref_bool', INT))]
FST = z3.Function('first_entry', INT, INT); NK = z3.Int('number_of_names')
INNER = z3.Function('unquoted', INT, INT); ATOF = z3.Function('atof', INT, FP)
class V:
    """a value as terms"""
    def __init__(v, t, n, s, b): v.t, v.n, v.s, v.b = t, n, s, b
def val(c, sv):
    """terms of a JSONPathValue"""
    p = sv.leaves.get(('string',)); s = iv(-1)
    if isinstance(p, Ptr) and p.root is not None: s = libc.cid(c.ex, p)
    lf = sv.leaves
    return V(lf[('vtype',)], lf[('number',)], s, c.ex.asint(lf[('boolean',)]))
def same(r, w):
    """the value r is w"""
    return And(r.t == w.t, Implies(w.t == NUM, r.n == w.n), Implies(w.t == STR, r.s == w.s), Implies(w.t == BOO, r.b == w.b))
def strptr(c, sv, t):
    """string values have a text"""
    p = sv.leaves.get(('string',))
    if not isinstance(p, Ptr) or p.root is None: return t != STR
    return Implies(t == STR, Not(Z(p.null)))
def b01(f): return If(f, iv(1), iv(0))
def truth(v): return Or(And(v.t == NUM, Not(z3.fpEQ(v.n, FPZ))), v.t == STR, And(v.t == BOO, v.b != 0))
def I2D(x): return z3.Function('i2d', INT, FP)(x)
def D2I(x): return z3.Function('d2i', FP, INT)(x)
def cases(o, *cs):
    """[(guard, V)] ... last is the default"""
    r = cs[-1]
    for g, v in reversed(cs[:-1]): r = V(If(g, v.t, r.t), If(g, v.n, r.n), If(g, v.s, r.s), If(g, v.b, r.b))
    return r
def bval(f): return V(iv(BOO), FPZ, iv(-1), b01(f))
def nval(x): return V(iv(NUM), x, iv(-1), iv(0))
NULLV = V(iv(NUL), FPZ, iv(-1), iv(0))
def equal(a, b): return And(a.t == b.t, Or(a.t == NUL, And(a.t == BOO, a.b == b.b), And(a.t == NUM, z3.fpEQ(a.n, b.n)), And(a.t == STR, a.s == b.s)))
def trem(a, b):
    """remainder of the division that truncates"""
    return If(a >= 0, a % b, -((-a) % b))
def binary(op, a, b):
    nn = And(a.t == NUM, b.t == NUM); cmpv = lambda f: bval(And(nn, f(a.n, b.n))); ar = lambda f: cases(None, (nn, nval(f(RNE, a.n, b.n))), NULLV)
    m = D2I(b.n)
    return cases(op, (op == J_OR, bval(Or(truth(a), truth(b)))), (op == J_AND, bval(And(truth(a), truth(b)))), (op == J_EQ, bval(equal(a, b))), (op == J_NE, bval(Not(equal(a, b)))),
                 (op == J_LT, cmpv(z3.fpLT)), (op == J_GT, cmpv(z3.fpGT)), (op == J_LE, cmpv(z3.fpLEQ)), (op == J_GE, cmpv(z3.fpGEQ)),
                 (op == J_ADD, ar(z3.fpAdd)), (op == J_SUB, ar(z3.fpSub)), (op == J_MUL, ar(z3.fpMul)), (op == J_DIV, ar(z3.fpDiv)),
                 (And(nn, m != 0), nval(I2D(trem(D2I(a.n), m)))), NULLV)
def unary(op, a): return cases(op, (op == J_NOT, bval(Not(truth(a)))), NULLV)
from jpv.core import RNE
def conv(c, nul, ar, o):
    """value of the text of a condition (NULL: absent; empty: an object or array)"""
    libc.strfacts(c.ex, ar, o); k = libc.CID(ar, o); f = z3.Select(ar, o)
    for w in ('true', 'false', 'null'): c.ex.strlit(w); litknown(c.ex, w)
    return cases(None, (Z(nul), NULLV), (k == libc.litid('true'), bval(T)), (k == libc.litid('false'), bval(F)), (k == libc.litid('null'), NULLV),
                 (f == 0, bval(T)), (f == 34, V(iv(STR), FPZ, INNER(k), iv(0))), (Or(f == 45, libc.isdig(f)), nval(ATOF(k))), NULLV)
def litknown(ex, w):
    b = w.encode()
    if b not in ex.lits:
        ex.lits.append(b)
        for (a, o) in ex.strs: libc.litfact(ex, a, o, b)

class valspec(Spec):
    """a function that returns a value"""
    def result(s, c):
        r = c.ex.freshval(s.name, VAL); w = s.what(c)
        if w is not None: r.leaves[('vtype',)] = w.t; r.leaves[('number',)] = If(w.t == NUM, w.n, r.leaves[('number',)]); r.leaves[('boolean',)] = If(w.t == BOO, w.b, r.leaves[('boolean',)])
        x = c.ex.newobj('valuetext', Ty('arr', CH)); r.leaves[('string',)] = Ptr(x, (('i', iv(0)),), c.fresh('nostring', z3.BoolSort()))
        return r
    def what(s, c): return None
    def is_(s, c, w):
        r = val(c, c.res)
        return [('type of the value', r.t == w.t), ('number', Implies(w.t == NUM, r.n == w.n)), ('string', Implies(w.t == STR, r.s == w.s)), ('boolean', Implies(w.t == BOO, r.b == w.b)), ('text exists', strptr(c, c.res, w.t))]
def wfv(c, i):
    v = val(c, c.a(i)); return [('value', And(v.t >= 0, v.t <= 3, strptr(c, c.a(i), v.t), v.b >= 0, v.b <= 1))]
class computeTypeCast(valspec):
    """the truth of a value"""
    name = 'computeTypeCast'
    def pre(s, c): return wfv(c, 0)
    def post(s, c):
        r = val(c, c.res); return [('a boolean', r.t == BOO), ('truth', (r.b != 0) == truth(val(c, c.a(0)))), ('0 or 1', And(r.b >= 0, r.b <= 1))]
class computeUnaryOperator(valspec):
    name = 'computeUnaryOperator'
    def pre(s, c): return wfv(c, 1)
    def what(s, c): return unary(c.a(0), val(c, c.a(1)))
    def post(s, c): return s.is_(c, s.what(c)) + [('0 or 1', And(val(c, c.res).b >= 0, val(c, c.res).b <= 1))]
class computeBinaryOperator(valspec):
    name = 'computeBinaryOperator'
    def pre(s, c): return wfv(c, 1) + wfv(c, 2) + [('a binary operator', And(c.a(0) >= 0, c.a(0) <= J_MOD, c.a(0) != J_NOT))]
    def what(s, c): return binary(c.a(0), val(c, c.a(1)), val(c, c.a(2)))
    def post(s, c): return s.is_(c, s.what(c)) + [('0 or 1', Implies(s.what(c).t == BOO, And(val(c, c.res).b >= 0, val(c, c.res).b <= 1)))]
class stringToValue(valspec):
    """the primitive a text denotes"""
    name = 'stringToValue'
    def setup(s, c):
        p = c.a(0); c.args[0] = Ptr(p.root, p.path, z3.Bool('text_is_null'))
    def pre(s, c):
        p = c.a(0)
        if p.root is None: return []
        ar, o = c.cur.chars(p); libc.strfacts(c.ex, ar, o); n = libc.SLEN(ar, o)
        return [('a quoted text has both quotes', Implies(Not(Z(p.null)), And(n < 2**31 - 2, Implies(z3.Select(ar, o) == 34, n >= 2))))]
    def post(s, c):
        p = c.a(0)
        if p.root is None: return s.is_(c, NULLV)
        ar, o = c.old.chars(p); w = conv(c, Z(p.null), ar, o)
        out = [x for x in s.is_(c, w) if x[0] != 'string']; r = c.res.leaves.get(('string',)); k, = K('k'); n = libc.SLEN(ar, o)
        if isinstance(r, Ptr) and r.root is not None:
            ra, ro = c.cur.chars(r)
            if c.call: out.append(('string', Implies(w.t == STR, libc.cid(c.ex, r) == INNER(libc.CID(ar, o)))))
            else: out.append(('exactly the text between the quotes', Implies(w.t == STR, And(FA([k], Implies(And(k >= 0, k < n - 2), z3.Select(ra, ro + k) == z3.Select(ar, o + 1 + k)), z3.Select(ra, ro + k)), z3.Select(ra, ro + n - 2) == 0))))
        return out
# ---------------------------------------------------------------- tables
def rows(view, root, key):
    """NULL flags and texts of the char* leaf at key of an array of structs"""
    ex = view.ex; ch = ex.childptr(root, key, Ty('ptr', CH), [iv(0)] * ex.nd(key), F).root
    return ex.leafterm(root, key + ('?',), view.snap), ex.leafterm(ch, ('[]',) * ex.nd(key) + ('[]',), view.snap)
class TAB:
    """view of a JSONPathKeyValuePair table"""
    def __init__(v, view, p):
        v.r = p.root; v.knull, v.key = rows(view, p.root, ('[]', 'key')); v.snull, v.str = rows(view, p.root, ('[]', 'value', 'string'))
        l = lambda *f: view.ex.leafterm(p.root, ('[]', 'value') + f, view.snap); v.vt, v.vn, v.vb = l('vtype'), l('number'), l('boolean')
    def cid(v, k): return libc.CID(S(v.key, k), iv(0))
    def wf(v):
        k, = K('t')
        return [('table has an end', And(NK >= 0, NK < 2**20, S(v.knull, NK), FA([k], Implies(And(k >= 0, k < NK), And(Not(S(v.knull, k)), S(v.vt, k) >= 0, S(v.vt, k) <= 3, Implies(S(v.vt, k) == BOO, And(S(v.vb, k) >= 0, S(v.vb, k) <= 1)), Implies(S(v.vt, k) == STR, Not(S(v.snull, k))))), S(v.knull, k), S(v.key, k), S(v.vt, k))))]
    def names(v): return names(v.cid, v.key)
    def env(v):
        """ref_* are the values of the table by name"""
        k, = K('t'); c = v.cid(k)
        return [('values by name', FA([k], Implies(And(k >= 0, k < NK, FST(c) == k), And(LT(c) == S(v.vt, k), Implies(LT(c) == NUM, LN(c) == S(v.vn, k)), Implies(LT(c) == STR, LS(c) == libc.CID(S(v.str, k), iv(0))), Implies(LT(c) == BOO, LB(c) == S(v.vb, k)))), S(v.key, k)))]
def names(cid, key):
    """first_entry finds a name"""
    k, x = K('t', 'x')
    return [('first entry of each name', And(FA([x], And(FST(x) >= 0, FST(x) <= NK, Implies(FST(x) < NK, cid(FST(x)) == x), Implies(FST(x) == NK, LT(x) == NUL), LB(x) >= 0, LB(x) <= 1), FST(x)), FA([k], Implies(And(k >= 0, k < NK), FST(cid(k)) <= k), S(key, k))))]
class findValueInTable(valspec):
    """the value of the first entry with the name, null when there is none"""
    name = 'findValueInTable'
    def pre(s, c):
        t = TAB(c.cur, c.a(1)); return t.wf() + t.names() + t.env()
    def setup(s, c): c.a(1).root.sizes[0] = NK + 1
    def post(s, c):
        k = libc.cid(c.ex, c.a(0)); return s.is_(c, V(LT(k), LN(k), LS(k), LB(k))) + [('0 or 1', Implies(LT(k) == BOO, And(val(c, c.res).b >= 0, val(c, c.res).b <= 1)))]
    def lemma(s, c): k = libc.cid(c.ex, c.a(0)); return [FST(k) == FST(k), Implies(FST(k) < NK, LT(k) == LT(k))]
    nloops = 1
    def inv(c):
        i = c.v('i'); k = libc.cid(c.ex, c.a(0)); return [('range', And(i >= 0, i <= NK, i <= FST(k)))]
    def lem(c):
        i = c.v('i'); t = TAB(c.cur, c.a(1)); libc.strfacts(c.ex, S(t.key, i), iv(0)); return []
    loops = {0: Loop(inv=inv, lemma=lem)}
# ---------------------------------------------------------------- expressions
class TREE:
    def __init__(v, view, ex):
        v.r = ex.region('ast'); l = lambda f: ex.leafterm(v.r, ('[]', f), view.snap); v.nt, v.opt, v.num, v.left, v.right = [l(f) for f in ('node_type', 'opt', 'number', 'left', 'right')]
        v.snull, v.str = rows(view, v.r, ('[]', 'string'))
    def cid(v, r): return libc.CID(S(v.str, r), iv(0))
    def wf(v):
        k, = K('r'); t = S(v.nt, k)
        return [('expression tree', FA([k], And(t >= 0, S(v.opt, k) >= 0, S(v.left, k) >= 0, S(v.right, k) >= 0, Implies(t == N_OPERATOR, And(S(v.left, k) > 0, Implies(S(v.right, k) > 0, And(S(v.opt, k) <= J_MOD, S(v.opt, k) != J_NOT)))),
                 Implies(Or(t == N_STRING, t == N_VARIABLE), Not(S(v.snull, k)))), t))]
    def value(v, r):
        """one unfolding of the value of node r"""
        w = lambda x: V(VT(x), VN(x), VS(x), VB(x)); a, b = w(S(v.left, r)), w(S(v.right, r)); t = S(v.nt, r); k = v.cid(r); op = S(v.opt, r)
        return cases(None, (And(t == N_OPERATOR, S(v.right, r) != 0), binary(op, a, b)), (t == N_OPERATOR, unary(op, a)), (t == N_VARIABLE, V(LT(k), LN(k), LS(k), LB(k))),
                     (t == N_STRING, V(iv(STR), FPZ, k, iv(0))), (t == N_NUMBER, nval(S(v.num, r))), NULLV)
class calculateExpression(valspec):
    """the value of an expression: by its operator from the values of its operands"""
    name = 'calculateExpression'
    def setup(s, c): c.a(1).root.sizes[0] = NK + 1
    def result(s, c):
        # the members that are not in use are whatever the value functions say about them
        r = valspec.result(s, c); n = c.ex.toref(c.a(0)); r.leaves[('vtype',)] = VT(n); r.leaves[('number',)] = VN(n); r.leaves[('boolean',)] = VB(n)
        return r
    def pre(s, c):
        t = TAB(c.cur, c.a(1)); tr = TREE(c.cur, c.ex); c.ex.keep.append(tr); r = c.ex.toref(c.a(0))
        return tr.wf() + t.wf() + t.names() + t.env() + [('node', And(r > 0, FST(tr.cid(r)) == FST(tr.cid(r))))]
    def lemma(s, c):
        tr = TREE(c.old, c.ex); r = c.ex.toref(c.a(0)); w = tr.value(r)
        libc.strfacts(c.ex, S(tr.str, r), iv(0))
        if c.call: return []
        return [VT(r) == w.t, Implies(w.t == NUM, VN(r) == w.n), Implies(w.t == STR, VS(r) == w.s), Implies(w.t == BOO, VB(r) == w.b)]
    def post(s, c):
        r = c.ex.toref(c.a(0)); v = val(c, c.res)
        return s.is_(c, V(VT(r), VN(r), VS(r), VB(r))) + [('value', And(v.t >= 0, v.t <= 3, Implies(v.t == BOO, And(v.b >= 0, v.b <= 1))))] + ([('boolean', And(v.b >= 0, v.b <= 1))] if c.call and False else [])
# ---------------------------------------------------------------- conditions
class COND:
    """view of a condition list"""
    def __init__(v, view, p):
        key, idxs = view.ex.keyof(p.path); v.pre = idxs[:-1]; v.off = idxs[-1]
        g = lambda f: rows(view, p.root, key + (f,))
        def at(t):
            for i in v.pre: t = sel(t, i)
            return t
        v.nnull, v.nm = map(at, g('name')); v.tnull, v.tx = map(at, g('text'))
    def cid(v, k): return libc.CID(S(v.nm, k), iv(0))
    def tcid(v, k): return libc.CID(S(v.tx, k), iv(0))
    def texts(v):
        k, = K('x'); ar = S(v.tx, k); n = libc.SLEN(ar, iv(0))
        return ('texts', FA([k], Implies(And(k >= 0, k < NK, Not(S(v.tnull, k))), And(n >= 0, n < 2**31 - 2, Implies(S(ar, 0) == 34, n >= 2))), ar, S(v.tnull, k)))
    def wf(v, n=None):
        k, = K('x'); n = NK if n is None else n
        return ('condition list has an end', And(n >= 0, S(v.nnull, n), FA([k], Implies(And(k >= 0, k < n), Not(S(v.nnull, k))), S(v.nnull, k), S(v.nm, k))))
EVB = None
class createTableFromConditions(Spec):
    """one entry per condition, with the value of its text"""
    name = 'createTableFromConditions'
    def setup(s, c): c.a(0).root.sizes[0] = NK + 1
    def pre(s, c):
        v = COND(c.cur, c.a(0)); return [v.wf(), v.texts(), ('number of conditions', NK < 2**20), ('offset', v.off == 0)]
    def result(s, c):
        r = c.ex.newobj('table', Ty('arr', Ty('struct', 'JSONPathKeyValuePair'))); r.sizes[0] = NK + 1; return Ptr(r, (('i', iv(0)),), False)
    @staticmethod
    def entries(c, t, v, n):
        k, = K('t'); tx = S(v.tx, k); w = conv1(S(v.tnull, k), tx)
        return FA([k], Implies(And(k >= 0, k < n), And(Not(S(t.knull, k)), t.cid(k) == v.cid(k), S(t.vt, k) == w.t, Implies(w.t == NUM, S(t.vn, k) == w.n), Implies(w.t == STR, And(Not(S(t.snull, k)), libc.CID(S(t.str, k), iv(0)) == w.s)), Implies(w.t == BOO, And(S(t.vb, k) >= 0, S(t.vb, k) <= 1, (S(t.vb, k) != 0) == (w.b != 0))))), S(t.key, k), S(t.vt, k), S(t.knull, k))
    def post(s, c):
        if not isinstance(c.res, Ptr) or c.res.root is None: return [('a table', F)]
        t, v = TAB(c.cur, c.res), COND(c.old, c.a(0))
        for w in ('true', 'false', 'null'): litknown(c.ex, w)
        return [('one entry for each condition, with its name and the value of its text', createTableFromConditions.entries(c, t, v, NK)), ('the table ends there', S(t.knull, NK))]
    nloops = 2
    def inv0(c):
        n = c.v('length'); return [('range', And(n >= 0, n <= NK))]
    def inv1(c):
        i = c.v('i'); p = c.v('table'); v = COND(c.old, c.a(0))
        if not isinstance(p, Ptr) or p.root is None: return [('table', F)]
        t = TAB(c.cur, p); k, = K('z')
        return [('range', And(i >= 0, i <= NK, c.v('length') == NK)), ('entries', createTableFromConditions.entries(c, t, v, i)), ('the rest is empty', FA([k], Implies(k >= i, S(t.knull, k)), S(t.knull, k)))]
    def lem(c):
        i = c.v('i'); v = COND(c.old, c.a(0)); libc.strfacts(c.ex, S(v.tx, i), iv(0)); libc.strfacts(c.ex, S(v.nm, i), iv(0)); return []
    loops = {0: Loop(inv=inv0), 1: Loop(inv=inv1, lemma=lem)}
def conv1(nul, ar):
    k = libc.CID(ar, iv(0)); f = z3.Select(ar, 0)
    return cases(None, (Z(nul), NULLV), (k == libc.litid('true'), bval(T)), (k == libc.litid('false'), bval(F)), (k == libc.litid('null'), NULLV),
                 (f == 0, bval(T)), (f == 34, V(iv(STR), FPZ, INNER(k), iv(0))), (Or(f == 45, libc.isdig(f)), nval(ATOF(k))), NULLV)
class clearPredicateCondtion(Spec):
    """every condition is absent"""
    name = 'clearPredicateCondtion'
    def setup(s, c): c.a(0).root.sizes[0] = NK + 1
    def ncond(s, c): return NK
    def pre(s, c):
        v = COND(c.cur, c.a(0)); return [v.wf(s.ncond(c)), ('offset', v.off == 0), ('number of conditions', s.ncond(c) < 2**20)]
    def mods(s, c):
        p = c.a(0); return [('buf', p.fld('text'))]
    def post(s, c):
        v, o = COND(c.cur, c.a(0)), COND(c.old, c.a(0)); k, = K('x'); return [('no texts', FA([k], Implies(And(k >= 0, k < s.ncond(c)), S(v.tnull, k)), S(v.tnull, k)))]
    nloops = 1
    def inv(c):
        i = c.v('i'); v = COND(c.cur, c.a(0)); k, = K('x'); n = c.spec.ncond(c)
        return [('range', And(i >= 0, i <= n)), ('cleared so far', FA([k], Implies(And(k >= 0, k < i), S(v.tnull, k)), S(v.tnull, k)))]
    loops = {0: Loop(inv=inv)}
class evaluateExpression(Spec):
    """the truth of the value of the expression over the conditions"""
    name = 'evaluateExpression'
    def setup(s, c): c.a(1).root.sizes[0] = NK + 1
    def env(s, v):
        k, = K('t'); c = v.cid(k); w = conv1(S(v.tnull, k), S(v.tx, k))
        return [('values by name', FA([k], Implies(And(k >= 0, k < NK, FST(c) == k), And(LT(c) == w.t, Implies(LT(c) == NUM, LN(c) == w.n), Implies(LT(c) == STR, LS(c) == w.s), Implies(LT(c) == BOO, (LB(c) != 0) == (w.b != 0)), LB(c) >= 0, LB(c) <= 1)), S(v.nm, k)))]
    def pre(s, c):
        v = COND(c.cur, c.a(1)); r = c.ex.toref(c.a(0)); tr = TREE(c.cur, c.ex)
        return [('expression', r > 0)] + tr.wf() + [v.wf(), v.texts(), ('number of conditions', NK < 2**20), ('offset', v.off == 0)] + names(v.cid, v.nm) + s.env(v)
    def post(s, c):
        r = c.ex.toref(c.a(0)); return [('truth of the value', c.ex.truth(c.res) == truth(V(VT(r), VN(r), VS(r), VB(r))))]
# ---------------------------------------------------------------- jsonpath_model.h: the nodes the parser builds
(N_ROOT, N_CONCAT, N_PARENT, N_DESC, N_ID, _, N_PRED, N_WILD, _, _, N_FUN, _, N_ATTR, N_REF, N_SCRIPT, N_FILTER, N_RANGE) = range(17)
class astnode(Spec):
    """a fresh node of the kind with exactly the given content"""
    modular = False; kind = None; number = string = opt = left = right = None      # positions of the parameters
    def post(s, c):
        r = c.ex.toref(c.res); t = TREE(c.cur, c.ex); o = TREE(c.old, c.ex); k, = K('r'); ref = lambda i: iv(0) if i is None else c.ex.toref(c.a(i))
        out = [('a node', r > 0)]
        if s.kind is not None: out.append(('kind', S(t.nt, r) == s.kind))
        if s.number is not None: out.append(('number', S(t.num, r) == c.a(s.number)))
        if s.string is not None: out.append(('text', And(S(t.snull, r) == Z(c.a(s.string).null), libc.CID(S(t.str, r), iv(0)) == libc.cid(c.ex, c.a(s.string)))))
        if s.opt is not None: out.append(('operator', S(t.opt, r) == c.a(s.opt)))
        out.append(('operands', And(S(t.left, r) == ref(s.left), S(t.right, r) == ref(s.right))))
        out.append(('other nodes unchanged', FA([k], Implies(k != r, And(S(t.nt, k) == S(o.nt, k), S(t.left, k) == S(o.left, k), S(t.right, k) == S(o.right, k))), S(t.nt, k), S(t.left, k), S(t.right, k))))
        return out
    def mods(s, c): return [('leaf', Ptr(c.ex.region('ast'), (('i', iv(0)), ('f', f)), False)) for f in ('node_type', 'opt', 'number', 'left', 'right', 'string', 'boolean')] + [('leaf', Ptr(rowroot(c), (('i', iv(0)), ('i', iv(0))), False))]
def rowroot(c): return c.ex.childptr(c.ex.region('ast'), ('[]', 'string'), Ty('ptr', CH), [iv(0)], F).root
def node(nm, kind, **kw): return type(nm, (astnode,), dict(name=nm, kind=kind, **kw))()
AST = [node('ASTNodeCreate', None), node('ASTNodeCreateNumber', N_NUMBER, number=0), node('ASTNodeCreateString', N_STRING, string=0), node('ASTNodeCreateID', N_ID, string=0), node('ASTNodeCreateVariable', N_VARIABLE, string=0),
       node('ASTNodeCreateRoot', N_ROOT), node('ASTNodeCreateWildcard', N_WILD), node('ASTNodeCreateRef', N_REF), node('ASTNodeCreateConcat', N_CONCAT, left=0, right=1), node('ASTNodeCreateRange', N_RANGE, left=0, right=1),
       node('ASTNodeCreateParentConcat', N_PARENT, left=0, right=1), node('ASTNodeCreatePredicate', N_PRED, left=0, right=1), node('ASTNodeCreateOperator', N_OPERATOR, opt=0, left=1, right=2), node('ASTNodeCreateOperatorOne', N_OPERATOR, opt=0, left=1),
       node('ASTNodeCreateScript', N_SCRIPT, left=0), node('ASTNodeCreateFliter', N_FILTER, left=0)]
EVAL = AST + [computeTypeCast(), computeUnaryOperator(), computeBinaryOperator(), stringToValue(), findValueInTable(), calculateExpression(), createTableFromConditions(), clearPredicateCondtion(), evaluateExpression()]
REGIONS = {'struct:ASTNode*': 'ast', '#ast': 'ASTNode'}
def modules():
    from specs import dfa
    return Module(TU(['JSONQuery/predicate.c']), EVAL, buf=dfa.BUFS, regions=REGIONS)
