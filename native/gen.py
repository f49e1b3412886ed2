"""Random queries and documents for the bounded stand-ins; sizes are biased towards the constants of the current sources."""
import os, re, random
REPO = os.environ.get('REPO', '/repo')
KEYS = ['a', 'b', 'c', 'd', 'name', 'id', 'x1', 'zz']
STRS = ['', 'a', 'b', ' ', 'x y', '{', '}', '[', ']', ',', ':', '{\\"a\\":1}', '\\"', '\\\\', '\\\\\\"', '\\n', 'true', '-1', '12', 'é', '\\u0041', "it's", '{[', ']}', ' , ', '\\"}', 'null', 'k\\":', '\t'.replace('\t', '\\t')]
NUMS = ['0', '1', '2', '3', '10', '-1', '-2', '1.5', '-0.25', '12.5e3', '1E-2', '100', '7', '42', '-17', '3.0', '0.1', '1e2', '2.50', '99999', '16777217', '16777216', '2147483648', '4294967297', '0.30000000000000004', '0.3']
def mined():
    """integer and string literals of the current sources"""
    ints, strs = set(), set()
    for d in ('JSONQuery', 'JSONPathParser', 'DFABuilder'):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            for f in fs:
                if not re.search(r'\.(c|h|cpp|hpp|y|l)$', f): continue
                t = open(os.path.join(r, f), errors='replace').read()
                t = re.sub(r'//[^\n]*|/\*.*?\*/', '', t, flags=re.S)
                for x in re.findall(r'(?<![\w.])(\d{1,5})(?![\w.])', t): ints.add(int(x))
                for x in re.findall(r"(?<![\w.])0x([0-9a-fA-F]{1,4})\b", t): ints.add(int(x, 16))
                if d == 'JSONQuery':
                    for x in re.findall(r'"((?:[^"\\\n]|\\.){1,20})"', t):
                        if re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*', x): strs.add(x)
    return sorted(i for i in ints if 3 <= i <= 4000), sorted(strs)

class Gen:
    def __init__(g, seed):
        g.r = random.Random(seed); g.ints, g.strs = mined()
        g.small = [i for i in g.ints if i <= 300]
        g.keys = KEYS
    def size(g, cap=60):
        """mostly small, sometimes next to a constant of the code"""
        r = g.r
        if r.random() < 0.04:
            c = [i for i in g.ints if i <= cap * 8]
            if c: return max(0, r.choice(c) + r.choice((-1, 0, 1)))
        if r.random() < 0.1: return r.randrange(0, cap)
        return r.choice((0, 1, 1, 2, 2, 3, 4, 5))
    def ws(g):
        r = g.r
        if r.random() < g.wsp: return r.choice((' ', '\n', '\t', '\r', '  ', ' \n', '\r\n', '\t ', '\n\n  '))
        return ''
    def string(g, cap=900):
        r = g.r; x = r.random()
        if x < 0.5: s = r.choice(STRS)
        elif x < 0.8: s = ''.join(r.choice('abcxyz 019') for _ in range(r.randrange(12)))
        elif x < 0.97: s = ''.join(r.choice(STRS) for _ in range(r.randrange(4)))
        elif x < 0.978: s = r.choice(('', 'x', '"a"'.replace('"', '\\"'))) + '\\\\' * r.randrange(1, 40) + r.choice(('', '\\"', 'x', '\\",'))
        else: s = r.choice('pq') * min(cap, r.choice([i for i in g.ints if i <= cap + 3] or [5]) + r.choice((-3, -2, -1, 0, 1)))
        return '"' + s[:cap].rstrip('\\') + '"' if False else '"' + s + '"'
    def prim(g):
        r = g.r; x = r.random()
        if x < 0.4: return r.choice(NUMS)
        if x < 0.5: return str(r.randrange(-50, 50))
        if x < 0.65: return r.choice(('true', 'false', 'null'))
        return g.string()
    def key(g):
        r = g.r
        if r.random() < 0.75: return r.choice(g.keys)
        if g.strs and r.random() < 0.15: return r.choice(g.strs)
        return r.choice(('q', 'other', 'array', 'aa', 'ab', 'A', 'a ', 'nam', 'names', '', 'k\\"', 'x\\\\', '{', ',', 'i d', 'k%d' % r.randrange(40), 'b' * r.choice((2, 30, 90))))
    def value(g, depth, want=None):
        """want: query steps to follow with some probability"""
        r = g.r; x = r.random()
        if want and r.random() < 0.85:
            s = want[0]; k = s[0]
            if k in ('name', 'dname'):
                if depth > 0: return g.obj(depth, s[1], want[1:])
            elif k in ('all', 'range', 'filter'):
                if depth > 0: return g.arr(depth, want[1:], k == 'filter', s)
            elif depth > 0: return (g.obj if x < .5 else g.arr)(depth, None if True else None, want[1:]) if x < .5 else g.arr(depth, want[1:])
        if depth <= 0 or x < 0.4: return g.prim()
        if x < 0.7: return g.obj(depth, None, want)
        return g.arr(depth, want)
    def obj(g, depth, must=None, want=None):
        r = g.r; n = g.size(20) if g.budget > 0 else 0
        ks = [g.key() for _ in range(n)]
        if must is not None: ks.insert(r.randrange(len(ks) + 1), must)
        if g.cond and r.random() < 0.7:
            for c in r.sample(g.cond, r.randrange(1, len(g.cond) + 1)): ks.insert(r.randrange(len(ks) + 1), c.split('.')[0])
        seen = set(); parts = []
        for k in ks:
            if k in seen: continue
            seen.add(k); g.budget -= 1
            sub = [c.split('.', 1)[1] for c in g.cond if c.split('.')[0] == k and '.' in c]
            if k == must: v = g.value(depth - 1, want)
            elif sub and r.random() < 0.7 and depth > 0:
                o = g.cond; g.cond = sub; v = g.obj(depth - 1); g.cond = o
            elif k in g.cond and r.random() < 0.75: v = g.prim()
            else: v = g.value(depth - 1, want if r.random() < .3 else None) if g.budget > 0 else g.prim()
            parts.append(g.ws() + '"' + k + '"' + g.ws() + ':' + g.ws() + v + g.ws())
        return '{' + (','.join(parts) or g.ws()) + '}'
    def arr(g, depth, want=None, objs=False, s=None):
        r = g.r; n = g.size(); parts = []
        if s and s[0] == 'range' and r.random() < .7:
            hi = s[2] if s[2] is not None else (s[1] or 0) + 2
            n = max(n, min(hi, 60) + r.choice((-1, 0, 1, 2)))
        if n > 12: depth = min(depth, 2)
        for _ in range(n):
            g.budget -= 1
            v = (g.obj(depth - 1, None, want) if objs and r.random() < 0.85 and not want else g.value(depth - 1, want)) if g.budget > 0 else g.prim()
            parts.append(g.ws() + v + g.ws())
        return '[' + (','.join(parts) or g.ws()) + ']'
    def doc(g, q=(), budget=None, maxdepth=6):
        r = g.r; g.wsp = r.choice((0, 0, 0.1, 0.5)); g.cond = []
        for s in q:
            if s[0] == 'filter': g.cond = g.cond + [c for c in s[3] if c not in g.cond]
        g.budget = budget or r.choice((5, 15, 40, 120))
        for _ in range(20):
            x = r.random()
            if x < 0.06: d = g.deep(q)
            else: d = g.value(r.randrange(1, maxdepth + 1), list(q) if r.random() < .8 else None)
            if d[0] in '{[': break
            g.budget = 30
        else: d = '[]'
        if r.random() < g.wsp: d = g.ws() + d + g.ws()
        return d
    def deep(g, q, top=45):
        """deeply nested document (up to 45 levels, in serial runs up to 90)"""
        r = g.r; n = r.randrange(8, top); g.budget = 30; d = g.value(3, list(q)); po = .5 if top == 45 else r.choice((.02, .1, .5))
        for _ in range(n):
            if r.random() < po: d = '{"%s":%s%s}' % (g.key(), d, ',"%s":%s' % (r.choice(g.keys) + 'q', g.prim()) if r.random() < .3 else '')
            else: d = '[' + ''.join(g.prim() + ',' for _ in range(r.randrange(3))) + d + ''.join(',' + g.prim() for _ in range(r.randrange(3))) + ']'
        return d
    # ---- queries
    def query(g, kinds=('name', 'any', 'all', 'range', 'dname', 'dany', 'filter'), maxlen=5, minlen=1):
        r = g.r
        while True:
            q = []
            for _ in range(r.randrange(minlen, maxlen + 1)):
                k = r.choice(kinds)
                if k == 'name' or k == 'dname': q.append((k, r.choice(g.keys)))
                elif k == 'range':
                    x = r.random(); a = r.choice((0, 1, 1, 2, 3)); b = a + r.choice((1, 1, 2, 3))
                    if r.random() < .05 and g.small: a = r.choice(g.small); b = a + r.choice((1, 2))
                    q.append(('range', a, a + 1, 1) if x < .4 else ('range', a, None) if x < .6 and a else ('range', None, b) if x < .75 else ('range', a, b))
                elif k == 'filter':
                    e = g.expr(r.randrange(1, 4)); q.append(('filter', e, etext(e, r), sorted(evars(e))))
                else: q.append((k,))
            if ok_query(q): return q
    def expr(g, depth):
        r = g.r; x = r.random()
        if depth <= 0 or x < .1:
            y = r.random()
            if y < .7: return ('var', r.choice(('a', 'b', 'c', 'd', 'id', 'a.b', 'c.d', 'zz.id.a')))
            if y < .85: return ('num', r.choice(('0', '1', '2', '10', '1.5', '100', '3', '0.1', '0.3', '16777217', '2147483648')))
            return ('str', r.choice(('a', 'b', 'x y', 'true', '12', '')))
        if x < .2: return ('not', g.expr(depth - 1))
        if x < .5: return ('bin', r.choice(('&&', '||')), g.expr(depth - 1), g.expr(depth - 1))
        if x < .85:
            l = ('var', r.choice(('a', 'b', 'c', 'd', 'id', 'a.b', 'c.d')))
            if r.random() < .2: l = g.expr(0)
            rr = g.expr(0) if r.random() < .6 else ('num', r.choice(('0', '1', '2', '10', '-1'.strip('-'))))
            return ('bin', r.choice(('==', '!=', '<', '>', '<=', '>=')), l, rr)
        return ('bin', r.choice(('==', '==', '<', '>')), g.arith(3), g.arith(1))
    def arith(g, d):
        r = g.r
        if d <= 0 or r.random() < .3: return g.expr(0) if r.random() < .6 else ('num', r.choice(('1', '2', '3', '10', '7')))
        return ('bin', r.choice('+-*-+/%'), g.arith(d - 1), g.arith(d - 1))

PREC = {'||': 1, '&&': 2, '!=': 3, '<=': 3, '>=': 3, '==': 3, '<': 3, '>': 3, '+': 4, '-': 4, '*': 5, '/': 5, '%': 5}
def etext(e, r, p=0):
    k = e[0]
    if k == 'num': s, q = e[1], 9
    elif k == 'str': c = r.choice('\'"'); s, q = c + e[1] + c, 9
    elif k == 'var': s, q = '@.' + e[1], 9
    elif k == 'not': s, q = '!' + etext(e[1], r, 6), 6
    else:
        q = PREC[e[1]]; sp = r.choice(('', ' '))
        s = etext(e[2], r, q) + sp + e[1] + sp + etext(e[3], r, q + 1)
    return '(' + s + ')' if q < p or r.random() < .1 else s
def evars(e):
    if e[0] == 'var': return {e[1]}
    return set().union(*[evars(x) for x in e[1:] if isinstance(x, tuple)], set())
def names_match(steps, path):
    """can the steps accept a path of names"""
    st = {0}
    for n in path:
        ns = set()
        for i in st:
            if i >= len(steps): continue
            s = steps[i]
            if s[0] == 'name' and s[1] == n: ns.add(i + 1)
            elif s[0] == 'any': ns.add(i + 1)
            elif s[0] == 'dname': ns.add(i); ns |= {i + 1} if s[1] == n else set()
            elif s[0] == 'dany': ns |= {i, i + 1}
        st = ns
    return st
def ok_query(q):
    """the queries the properties speak about (the other ones: known findings)"""
    ks = [s[0] for s in q]
    if not q: return False
    if ks[-1] == 'filter': return False
    if ks.count('filter') > 2: return False
    if any(s[0] == 'range' and (s[1] or 0) == 0 and s[2] == 0 for s in q): return False
    desc = 'dname' in ks or 'dany' in ks
    if desc and ('range' in ks or 'filter' in ks): return False
    if 'filter' in ks and 'any' in ks: return False
    if 'filter' in ks:
        for i, s in enumerate(q):
            if s[0] == 'filter':
                if not s[3]: return False
                for v in s[3]:
                    if len(q[i + 1:]) in names_match(q[i + 1:], v.split('.')): return False
    return True
