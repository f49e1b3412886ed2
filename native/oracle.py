"""Independent executable reading of the documented query semantics over raw JSON text.
Nothing here is derived from the implementation's tables."""
import math
class N:  # parsed JSON value with its exact source extent
    __slots__ = ('kind', 's', 'e', 'kids')
    def __init__(self, kind, s): self.kind, self.s, self.e, self.kids = kind, s, None, []
def parse(t):
    i = 0; n = len(t)
    def ws():
        nonlocal i
        while i < n and t[i] in ' \t\r\n': i += 1
    def string():
        nonlocal i
        assert t[i] == '"'; s = i; i += 1
        while t[i] != '"': i += 2 if t[i] == '\\' else 1
        i += 1
        return t[s+1:i-1]
    def value():
        nonlocal i
        ws()
        if t[i] == '{':
            v = N('o', i); i += 1; ws()
            while t[i] != '}':
                k = string(); ws(); assert t[i] == ':'; i += 1
                v.kids.append((k, value())); ws()
                if t[i] == ',': i += 1; ws()
            i += 1; v.e = i; return v
        if t[i] == '[':
            v = N('a', i); i += 1; ws()
            while t[i] != ']':
                v.kids.append((None, value())); ws()
                if t[i] == ',': i += 1; ws()
            i += 1; v.e = i; return v
        v = N('p', i)
        if t[i] == '"': string()
        else:
            while t[i] not in ',]} \t\r\n': i += 1
        v.e = i
        return v
    v = value(); ws(); assert i == n
    return v
# query: ('name', n) ('any',) ('dname', n) ('dany',) ('all',) ('range', a, b[, index]) ('filter', expr, text, vars)
def qtext(q):
    r = '$'
    for s in q:
        k = s[0]
        if k == 'name': r += '.' + s[1]
        elif k == 'any': r += '.*'
        elif k == 'dname': r += '..' + s[1]
        elif k == 'dany': r += '..*'
        elif k == 'all': r += '[*]'
        elif k == 'range': r += ('[%d]' % s[1]) if s[3:] else '[%s:%s]' % ('' if s[1] is None else s[1], '' if s[2] is None else s[2])
        else: r += '[?(%s)]' % s[2]
    return r
# ---- predicate values: None, bool, float, str (text between the quotes)
def prim(x):
    if x == 'true': return True
    if x == 'false': return False
    if x == 'null': return None
    if x[0] == '"': return x[1:-1]
    return float(x)
def lookup(el, path, t):
    v = el
    for n in path.split('.'):
        if v.kind != 'o': return None
        c = [k for m, k in v.kids if m == n]
        if not c: return None
        v = c[-1]
    return True if v.kind != 'p' else prim(t[v.s:v.e])
def truth(v):
    if v is None: return False
    if isinstance(v, bool): return v
    if isinstance(v, float): return v != 0.0
    return True
def num(v): return isinstance(v, float)
def ev(e, env):
    k = e[0]
    if k == 'num': return float(e[1])
    if k == 'str': return e[1]
    if k == 'var': return env(e[1])
    if k == 'not': return not truth(ev(e[1], env))
    op, a, b = e[1], ev(e[2], env), ev(e[3], env)
    if op == '&&': return truth(a) and truth(b)
    if op == '||': return truth(a) or truth(b)
    def eq(): return type(a) == type(b) and a == b
    if op == '==': return eq()
    if op == '!=': return not eq()
    if op in ('<', '>', '<=', '>='):
        if not (num(a) and num(b)): return False
        return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
    if not (num(a) and num(b)): return None
    if op == '+': return a + b
    if op == '-': return a - b
    if op == '*': return a * b
    if op == '/':
        if b == 0: return math.nan if a == 0 or math.isnan(a) else math.copysign(math.inf, a) * math.copysign(1, b)
        return a / b
    if math.isinf(a) or math.isnan(a) or math.isinf(b) or math.isnan(b): raise OverflowError
    if int(b) == 0: return None
    return float(math.fmod(int(a), int(b))) + 0.0      # an integer remainder: no negative zero
def run(q, t, root=None, extents=False, candidates=False, info=None):
    """texts of all matches, in the order in which they end in the document (candidates: as if every filter held)"""
    root = root or parse(t)
    def step(i, edge, idx, elem):
        r = set()
        if i >= len(q): return r
        s = q[i]; k = s[0]
        if k == 'name' and edge == s[1] and not elem: r.add(i+1)
        elif k == 'any': r.add(i+1)
        elif k == 'dname':
            r.add(i)
            if edge == s[1] and not elem: r.add(i+1)
        elif k == 'dany': r |= {i, i+1}
        elif k == 'all' and elem: r.add(i+1)
        elif k == 'range' and elem:
            lo = 0 if s[1] is None else s[1]; hi = 10**9 if s[2] is None else s[2]
            if lo <= idx < hi: r.add(i+1)
        elif k == 'filter' and elem: r.add(i+1)
        return r
    def go(v, pos):
        res = []
        for idx, (k, c) in enumerate(v.kids):
            np = set()
            for p in pos: np |= step(p, k, idx, v.kind == 'a')
            fs = [p for p in np if p > 0 and q[p-1][0] == 'filter']
            if fs and c.kind != 'o' and info is not None: info['plain'] = True    # a filtered element that is not an object
            if fs and not candidates and (c.kind != 'o' or not truth(ev(q[fs[0]-1][1], lambda n: lookup(c, n, t)))): continue
            if np:
                res += go(c, np)
                if len(q) in np: res.append((c.s, c.e))
        return res
    r = go(root, {0})
    return r if extents else [t[a:b] for a, b in r]
