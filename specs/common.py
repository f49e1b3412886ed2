import z3
from jpv.core import *
from jpv.core import iv, sel, addt, is_num, mkp
And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
ARR = z3.ArraySort(INT, INT)
def mentions(t, vs):
    ids = {v.get_id() for v in vs}; st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in ids: return True
        if x.get_id() in seen or not z3.is_expr(x): continue
        seen.add(x.get_id()); st.extend(x.children())
    return False
def patok(t):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if not z3.is_app(x) or z3.is_app_of(x, z3.Z3_OP_ITE) or (z3.is_bool(x) and x.decl().kind() != z3.Z3_OP_UNINTERPRETED and x.decl().kind() != z3.Z3_OP_SELECT): return z3.is_var(x)
        st.extend(x.children())
    return True
def FA(vs, body, *pats):
    pats = [p for p in pats if not z3.is_expr(p) or (mentions(p, vs) and patok(p))]
    return z3.ForAll(vs, body, patterns=list(pats)) if pats else z3.ForAll(vs, body)
def K(*n): return [z3.Int('?' + x) for x in n]
def S(a, i): return sel(a, Z(i))
def eqarr(a, b, lo, hi, sh=0):
    """a[i]==b[i+sh] for lo<=i<hi"""
    k, = K('e')
    return FA([k], Implies(And(k >= lo, k < hi), z3.Select(a, k) == z3.Select(b, k + sh)), z3.Select(a, k))
def outside(a, b, lo, hi):
    """a and b agree outside [lo,hi)"""
    k, = K('o')
    return FA([k], Implies(Or(k < lo, k >= hi), z3.Select(a, k) == z3.Select(b, k)), z3.Select(a, k))
def setptr(ex, p, field, target): ex.setraw(p.root, tuple(x for _, x in p.path if True) + (field,), target)
def buf(ex, rid, elt, size=None):
    r = ex.mkroot(rid, Ty('arr', elt))
    if size is not None: r.sizes[0] = size
    return r
CH = Ty('int', 8, 1)
def cstrbuf(ex, p):
    """chars view (array, offset)"""
    from jpv import libc
    return libc.chars(ex, p)
