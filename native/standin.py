"""Bounded stand-ins: every property has a generator of concrete cases which run the real code (driver jsrv) and an independent expectation.
A case is (variant, mode, cores, query, doc, expected, check) ; a mismatch is a witness that can be replayed."""
import os, sys, time, json, subprocess, random, shutil, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.setrecursionlimit(20000)
import oracle, gen, diffrun
VARIANTS = {'small': ['MAX_OUTPUT=2000', 'MAX_TUPLE_LIST=5000'], 'chunk': ['MAX_OUTPUT=2000', 'MAX_TUPLE_LIST=5000', 'MEMORY_FOOTPRINT=97', 'MAX_EXTENSION=40'],
            'tsan': ['MAX_OUTPUT=2000', 'MAX_TUPLE_LIST=5000']}     # ThreadSanitizer: a race ends the run with exit status 66
WS = ' \t\n\r'
SIMPLE = ('name', 'any', 'all', 'dname', 'dany')
def build(outdir, variant):
    env = dict(os.environ, OPT='-O1 -fsanitize=thread') if variant == 'tsan' else None
    r = subprocess.run(['bash', os.path.join(HERE, 'build.sh'), outdir] + VARIANTS[variant], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env)
    return r.returncode == 0 and os.path.exists(os.path.join(outdir, 'jsrv')), r.stderr.decode(errors='replace')[-600:]

class Skip(Exception): pass
def depth_of(d):
    k = m = 0; i = 0
    while i < len(d):
        c = d[i]
        if c == '"':
            i += 1
            while d[i] != '"': i += 2 if d[i] == '\\' else 1
        elif c in '{[': k += 1; m = max(m, k)
        elif c in '}]': k -= 1
        i += 1
    return m
def symbols(d):
    """entries of the symbol stack: one for an array, two for an object (it and its key)"""
    k = m = 0; i = 0
    while i < len(d):
        c = d[i]
        if c == '"':
            i += 1
            while d[i] != '"': i += 2 if d[i] == '\\' else 1
        elif c in '[]{}': k += {'[': 1, '{': 2, ']': -1, '}': -2}[c]; m = max(m, k)
        i += 1
    return m
def strings(d):
    """[(start, end)) of the string tokens"""
    r = []; i = 0
    while i < len(d):
        if d[i] == '"':
            s = i; i += 1
            while d[i] != '"': i += 2 if d[i] == '\\' else 1
            r.append((s, i + 1))
        i += 1
    return r
def tame(q, d, e=(), serial=False):
    """inside the capacities of the fixed tables"""
    if (symbols(d) > 94 if serial else depth_of(d) > 46) or len(d) > 60000: raise Skip
    if any(len(x) > 990 for x in e) or len(e) > 1500 or d.count(':') + d.count(',') > 4000: raise Skip
def eq(got, exp): return got == exp
def chunks_ok(exp, cores):
    def f(got, _):
        if not isinstance(got, list) or ''.join(got) != exp or (cores and len(got) > cores): return False
        p = 0
        for c in got[:-1]:
            p += len(c)
            if exp[p:p+1] != '"': return False
            j = p - 1
            while j >= 0 and exp[j] in WS: j -= 1
            if j < 0 or exp[j] not in ',{[': return False
        return True
    return f
# ------------------------------------------------------------------ P01
def ref_tokens(t):
    T = {'{': 1, '}': 2, '[': 3, ']': 4, ',': 5}; r = []; i = 0; n = len(t)
    while i < n:
        c = t[i]
        if c in T: i += 1; r.append((T[c], i, '')); continue
        if c == '"':
            s = i; i += 1
            while i < n:
                if t[i] == '"':
                    k = i - 1
                    while k > s and t[k] == '\\': k -= 1
                    if (i - 1 - k) % 2 == 0: break
                i += 1
            if i >= n: break
            e = i; i += 1; j = i
            while j < n and t[j] in WS: j += 1
            if j < n and t[j] == ':': r.append((6, j + 1, t[s+1:e])); i = j + 1
            else: r.append((7, i, t[s:e+1]))
            continue
        if c.isascii() and (c.isalnum() or c == '-'):
            s = i
            while i < n and t[i] not in '}],' + WS: i += 1
            if i >= n: break
            r.append((7, i, t[s:i])); continue
        i += 1
    r.append((-1, 0, ''))
    return r
def p01(g):
    r = g.r
    if r.random() < .6: d = g.doc(g.query(SIMPLE) if r.random() < .5 else ())
    else: d = ''.join(r.choice(['{', '}', '[', ']', ',', ':', ' ', '\n', '\t', '\r', '\v', '-', '_', '.']) if r.random() < .6 else r.choice(gen.NUMS + ['true', 'null', 'é']) if r.random() < .4 else g.string() for _ in range(r.randrange(1, 30)))
    d = d.encode('utf8').decode('latin1')
    if r.random() < .3 and strings(d):    # a chunk that starts at a token
        ss = strings(d); d = d[r.choice(ss)[0]:]
    if any(b - a > 3990 for a, b in strings_safe(d)): raise Skip
    exp = ref_tokens(d)
    def skipws(p):
        while p < len(d) and d[p] in WS + ':': p += 1
        return p
    norm = [[t, skipws(p) if t != -1 else 0, c] for t, p, c in exp]
    def chk(got, _):
        if not isinstance(got, list): return False
        o = []
        for x in got:
            a, b, c = x.split(' ', 2); a = int(a); o.append([a, skipws(int(b)) if a != -1 else 0, c])
        return o == norm
    return ('small', 't', 0, '$.a', d, norm, chk, len(exp) > 3)
def strings_safe(d):
    try: return strings(d)
    except IndexError: return []
# ------------------------------------------------------------------ serial runs
def serial(kinds, maxlen=5, need=None, variant='small'):
    def f(g):
        q = g.query(kinds, maxlen)
        if need and not any(s[0] in need for s in q): raise Skip
        d = g.doc(q)
        info = {}
        try: e = oracle.run(q, d); oracle.run(q, d, candidates=True, info=info)
        except OverflowError: raise Skip
        if info and sum(s[0] == 'filter' for s in q) > 1: raise Skip      # known finding: plain element under nested filters
        tame(q, d, e, True)
        return (variant, 's', 1, oracle.qtext(q), d, e, eq, bool(e))
    return f
def deep(g):
    q = g.query(SIMPLE, 6); d = g.doc(q, r_budget(g), 12)
    if g.r.random() < .1: d = g.deep(q, 90)
    e = oracle.run(q, d); tame(q, d, e, True)
    return ('small', 's', 1, oracle.qtext(q), d, e, eq, bool(e))
def r_budget(g): return g.r.choice((20, 60, 200))
def p02(g):
    r = g.r; x = r.random()
    if x < .5: return deep(g)
    q = g.query(SIMPLE + ('range',)); d = g.doc(q) if r.random() < .9 else g.deep(q, 90); e = oracle.run(q, d); tame(q, d, e, True)
    def chk(got, _):      # a complete document leaves the automaton where it started
        return isinstance(got, list) and got and got[-1].split()[0] == 'end' and [int(v) for v in got[-1].split()[1:2] + got[-1].split()[4:]] == [1, -1, -1]
    return ('small', 'u', 1, oracle.qtext(q), d, 'after the whole document: start state, empty stacks', chk, bool(e))
def p04(g):
    r = g.r
    if r.random() < .12:  # the positions admitted by an index or slice of any size, in the automaton that the runs follow
        big = lambda: r.choice((r.randrange(20), r.randrange(200), r.randrange(1000, 100000), r.randrange(2**15 - 2, 2**15 + 3), r.randrange(2**16 - 2, 2**16 + 3), r.randrange(2**29)))
        lo, w = big(), 1 + big(); pre = list(r.choice(((), (('name', 'a'),), (('all',),), (('name', 'b'), ('all',), ('name', 'c')))))
        s = r.choice((('range', lo, lo + 1, 1), ('range', lo or 1, None), ('range', None, lo + w), ('range', lo, lo + w)))
        q = pre + [s] + list(r.choice(((), (('name', 'c'),), (('all',),))))
        path = [x[1] if x[0] == 'name' else '[]' for x in pre] + ['[]']      # to the elements of the array, whose state carries the range
        l0, u0 = s[1] or 0, s[2] if s[2] is not None else 2**30
        def chk(got, _):
            if not isinstance(got, list) or len(got) != 1: return False
            t, lo, up, st = [int(x) for x in got[0].split()]
            return all(((lo == 0 and up == 0) or lo <= i < up) == (l0 <= i < u0) for i in (0, max(0, l0 - 1), l0, l0 + 1, u0 - 1, u0, u0 + 1) if i < 2**30)
        return ('small', 'a', 1, oracle.qtext(q), '\x1f'.join(path) if path else '-', 'positions %d to %d' % (l0, u0), chk, True)
    if r.random() < .5:   # a long array around the bounds
        lo = r.choice((0, 1, 2, 3, 5)) if r.random() < .7 else r.choice([i for i in g.ints if i < 1500] or [7])
        w = r.choice((1, 2, 3, 7)); pre = r.choice(((), (('name', 'a'),), (('all',),), (('name', 'b'), ('all',))))
        k = r.random()
        s = ('range', lo, lo + 1, 1) if k < .35 else ('range', lo, None) if k < .55 and lo else ('range', None, lo + w) if k < .7 else ('range', lo, lo + w)
        q = list(pre) + [s] + list(r.choice(((), (('name', 'c'),), (('range', 0, 2),), (('all',),), (('any',),))))
        def arr(rest):
            n = max(0, lo + r.choice((-1, 0, 1, 2, w)))
            return '[' + ','.join(el(rest) for _ in range(n)) + ']'
        def el(rest):
            x = r.random()
            if rest and x < .7:
                if rest[0][0] == 'name': return '{"q":%s,"c":%s}' % (g.prim(), g.prim())
                return '[' + ','.join(g.prim() for _ in range(r.randrange(4))) + ']'
            if x < .85: return r.choice(gen.NUMS)
            return r.choice(('{}', '[]', '[1,[2]]', '{"c":[1,2],"d":{"c":0}}', '[{"c":1}]', '"a,]"'))
        def top(p):
            if not p: return arr(q[len(pre) + 1:])
            return '{"z":0,"%s":%s,"y":[%s]}' % (p[0][1], top(p[1:]), g.prim()) if p[0][0] == 'name' else '[' + ','.join(top(p[1:]) for _ in range(r.randrange(1, 4))) + ']'
        d = top(list(pre)); g.wsp = 0
        e = oracle.run(q, d)
        if len(d) > 60000 or any(len(x) > 990 for x in e) or len(e) > 1500: raise Skip
        return ('small', 's', 1, oracle.qtext(q), d, e, eq, bool(e))
    return serial(('name', 'any', 'all', 'range'), need=('range',))(g)
def p05(g):
    r = g.r; e = g.expr(r.randrange(1, 6)); vs = sorted(gen.evars(e))
    if not vs: raise Skip
    q = [('filter', e, gen.etext(e, r), vs), ('name', r.choice(('out', 'x1', 'name')))]
    if r.random() < .4: q = [('name', 'k')] + q
    if not gen.ok_query(q): raise Skip
    d = g.doc(q)
    try: x = oracle.run(q, d)
    except OverflowError: raise Skip
    tame(q, d, x)
    return ('small', 's', 1, oracle.qtext(q), d, x, eq, bool(x))
def p06(g):
    """documents that follow a query with filters closely"""
    r = g.r
    if r.random() < .25: return serial(('name', 'all', 'range', 'filter'), need=('filter',))(g)
    while True:
        q = g.query(('name', 'all', 'filter', 'filter', 'range'), 5, 2)
        if any(s[0] == 'filter' for s in q): break
    d = follow(g, q, 0); g.wsp = 0
    info = {}
    try: e = oracle.run(q, d); cand = oracle.run(q, d, candidates=True, info=info)
    except OverflowError: raise Skip
    if info and sum(s[0] == 'filter' for s in q) > 1: raise Skip      # known finding: plain element under nested filters
    tame(q, d, e); tame(q, d, cand)
    return ('small', 's', 1, oracle.qtext(q), d, e, eq, bool(cand))
def follow(g, q, i):
    r = g.r; g.wsp = r.choice((0, 0, .2)) if i == 0 else g.wsp
    if i >= len(q): return r.choice((r.choice(gen.NUMS), g.string(), '{}', '[]', '{"a":1,"b":[2]}', '[{"a":1},"x"]', 'true'))
    s = q[i]; k = s[0]
    def obj(pairs):
        if r.random() < .3: pairs.append((r.choice(('w', 'v2', 'a%d' % i)), r.choice((g.prim(), '{"a":1,"b":{"c":2}}', '[1,{"b":0}]'))))
        r.shuffle(pairs); return '{' + ','.join(g.ws() + '"%s"' % a + g.ws() + ':' + g.ws() + b + g.ws() for a, b in pairs) + '}'
    if k == 'name': return obj([(s[1], follow(g, q, i + 1))] if r.random() < .93 else [])
    n = r.choice((0, 1, 2, 2, 3, 4))
    if k != 'filter': return '[' + ','.join(follow(g, q, i + 1) if r.random() < .95 else g.prim() for _ in range(n + (s[1] or 0 if k == 'range' else 0))) + ']'
    els = []
    for _ in range(n):
        pairs = {}
        nxt = q[i + 1] if i + 1 < len(q) else None
        if nxt and nxt[0] == 'name' and r.random() < .95: pairs[nxt[1]] = follow(g, q, i + 2)
        for v in s[3]:
            if r.random() < .2: continue
            val = r.choice(('0', '1', '2', '10', '1.5', '-1', 'true', 'false', 'null', '"a"', '"b"', '"12"', '""', '3')) if r.random() < .9 else r.choice(('{}', '[0]', '{"q":1}'))
            h = v.split('.')
            for y in reversed(h[1:]): val = '{"%s":%s}' % (y, val)
            pairs.setdefault(h[0], val)
        pairs = list(pairs.items())
        flat = [a for a, b in pairs if a in s[3] and not any(v.startswith(a + '.') for v in s[3])]
        if flat and r.random() < .2: pairs.append((r.choice(flat), r.choice(('0', '1', '3', 'true', '"a"', '{}'))))     # a key twice: the last value counts
        els.append(obj(pairs) if r.random() < .96 else g.prim())
    return '[' + ','.join(els) + ']'
# ------------------------------------------------------------------ partitioning, loading
def anytext(g):
    r = g.r
    if r.random() < .75:
        d = g.doc(g.query(SIMPLE), r.choice((5, 20, 80, 300)))
    else: d = ''.join(r.choice(['{', '[', ',', '"', '"', 'ab', ' ', '\n', '\t', '\r', ':', '}', ']', 'x' * r.choice((1, 5, 60, 300))]) for _ in range(r.randrange(1, 60)))
    return d
def p07(g):
    d = anytext(g); c = g.r.choice((1, 2, 3, 4, 5, 7, 8, 16, 40)) if g.r.random() < .8 else g.r.choice([i for i in g.ints if i <= 90] or [3])
    return (g.r.choice(('small', 'chunk')), 'i', c, '$.a', d, 'chunks whose concatenation is the input, cut at token starts, at most %d' % c, chunks_ok(d, c), len(d) > c)
def p08(g):
    d = anytext(g); c = g.r.choice((1, 2, 3, 4, 5, 7, 8, 16, 40))
    return (g.r.choice(('small', 'chunk')), 'f', c, '$.a', d, 'chunks whose concatenation is the file, cut at token starts, at most %d' % c, chunks_ok(d, c), len(d) > c)
def p09(g):
    d = anytext(g)
    if g.r.random() < .5: d = '[' + ','.join([d if d[:1] in '{[' and d[-1:] in '}]' else '1'] + [g.r.choice(('"%s"' % ('y' * g.r.randrange(120)), '{"a":1}')) for _ in range(g.r.randrange(9))]) + ']'
    return (g.r.choice(('small', 'chunk', 'chunk', 'chunk')), 'l', 1, '$.a', d, 'pieces whose concatenation is the file, cut at token starts', chunks_ok(d, 0), len(d) > 97)
def p13(g):
    r = g.r; w = r.choice((3, 6, 12, 13, 20, 33, 60)); n = r.randrange(1, r.choice((4, 12, 40))); order = list(range(1, n + 1)); rows = {}; txt = []
    if r.random() < .5: r.shuffle(order)
    mx = 0
    for s in order:
        mx = max(mx, s) if r.random() < .7 else n; mx = max(mx, s)
        k = r.random()
        if rows and k < .55:
            row = list(rows[r.choice(list(rows))]); row = [min(x, mx) for x in row]
            for _ in range(r.choice((0, 1, 2, 8, 9, 10, 11))): row[r.randrange(1, w)] = r.randrange(mx + 1)
        elif k < .75: row = [0] * w; [row.__setitem__(r.randrange(1, w), r.randrange(mx + 1)) for _ in range(r.randrange(w))]
        else: c = r.choice((2, mx + 1)); row = [r.randrange(min(c, mx + 1)) for _ in range(w)]
        rows[s] = row; txt.append('%d %d %s' % (s, mx, ' '.join(map(str, row[1:]))))
    exp = ['%d: %s' % (s, ' '.join(map(str, rows[s][1:]))) for s in order]
    return ('small', 'R', 1, '$.a', '%d %d\n%s' % (n, w, '\n'.join(txt)), exp, eq, n > 2)
# ------------------------------------------------------------------ constraint table
def p10(g):
    r = g.r
    if r.random() < .5:
        names = [r.choice(('a', 'b', 'ab', 'abc', 'name', 'x' * 50, 'x' * 51, 'y%d' % r.randrange(200), '-', '3')) for _ in range(r.randrange(1, 60))]
        ops, rows, exp = [], {}, []
        for _ in range(r.choice((5, 30, 300))):
            ty = r.choice((6, 6, 3)); nm = r.choice(names) if ty == 6 else '-'; k = (ty, nm if ty == 6 else '')
            if r.random() < .7:
                st = r.choice((0, 1, 2, 5, r.randrange(90))); ops.append('A %d %d %s' % (st, ty, nm)); rows.setdefault(k, set()).add(st)
            else: ops.append('Q 0 %d %s' % (ty, nm)); exp.append(sorted(rows[k]) if k in rows else None)
        def chk(got, _):
            if not isinstance(got, list) or len(got) != len(exp): return False
            for x, e in zip(got, exp):
                v = [int(y) for y in x.split()]
                if e is None:
                    if v[0] > 0: return False
                elif v[0] != len(e) or sorted(v[1:]) != e: return False
            return True
        return ('small', 'k', 1, '$.a', '\n'.join(ops), exp, chk, bool(exp))
    q = g.query(('name', 'any', 'all', 'dname', 'dany', 'range'), 4); d = g.doc(q); tame(q, d); root = oracle.parse(d)
    keys = sorted(allkeys(root)) + ['[]']
    if len(keys) > 150 or any(len(k) > 95 or '\n' in k or k == '' for k in keys): raise Skip
    aut = g.srv('small').run('x', 0, oracle.qtext(q), '\n'.join(keys))
    if not isinstance(aut, list) or aut == ['<mode unavailable>']: raise Skip
    A = [[int(v) for v in l.split()] for l in aut]; ki = {k: i for i, k in enumerate(keys)}
    exp = {}
    def go(v, st, elem_ok=True):
        # st: state in which the value is found
        if v.kind == 'o':
            for k, c in v.kids:
                exp.setdefault(k, set()).add(st); go(c, A[st][3 + ki[k]])
        elif v.kind == 'a':
            exp.setdefault(None, set()).add(st); s2 = A[st][3 + ki['[]']]; lo, up = A[s2][1], A[s2][2]
            for i, (_, c) in enumerate(v.kids):
                inr = (lo == 0 and up == 0) or lo <= i < up
                if inr: go(c, s2)
                else: blocked(c, s2)
    def blocked(v, s2):
        # an element outside the selected indices: recorded in the state of the array, everything below it unmatched
        if v.kind == 'o':
            for k, c in v.kids: exp.setdefault(k, set()).update((s2, 0)); go(c, 0)
        elif v.kind == 'a':
            exp.setdefault(None, set()).update((s2, 0))
            for _, c in v.kids: go(c, 0)
    go(root, 1)
    want = sorted(('[]' if k is None else 'K ' + k, sorted(s)) for k, s in exp.items())
    def chk(got, _):
        if not isinstance(got, list): return False
        o = []
        for l in got:
            t, rest = l.split(' ', 1)
            if t == '6':
                for k in sorted((k for k in exp if k is not None), key=len, reverse=True):
                    if rest.startswith(k + ' '): o.append(('K ' + k, sorted(int(x) for x in rest[len(k) + 1:].split()))); break
                else: return False
            else: o.append(('[]', sorted(int(x) for x in rest.split()[1:])))
        return sorted(o) == want
    return ('small', 'c', 1, oracle.qtext(q), d, want, chk, len(want) > 1)
def allkeys(v):
    r = set()
    for k, c in v.kids:
        if k is not None: r.add(k)
        r |= allkeys(c)
    return r
# ------------------------------------------------------------------ speculative stacks
class Stacks:
    """reference of the speculative query stacks: levels of nodes (state, count, start, parents, roots)"""
    def __init__(s, A, ki): s.A, s.ki, s.stack, s.nodes, s.cur = A, ki, [], [], (0, -1); s.chain = {}; s.tuples = []
    def init(s, sts): s.nodes = [[q, 0, -1, [], None] for q in sts]; s.cur = (0, len(sts) - 1); s.stack = []
    def push(s, key):
        s.stack.append(s.cur); a = s.cur[1] + 1; s.nodes = s.nodes[:a]; new = []
        for i in range(s.cur[0], s.cur[1] + 1):
            q, cnt, _, _, roots = s.nodes[i]; lo, up = s.A[q][1], s.A[q][2]
            ok = (lo == 0 and up == 0) or (cnt < up and (roots is None or cnt >= lo))
            nx = s.A[q][3 + s.ki[key]] if ok else 0
            rt = [i] if roots is None else roots
            for nd in new:
                if nd[0] == nx: nd[3].append(i); nd[4] += rt; break
            else: new.append([nx, 0, -1, [i], list(rt)])
        s.nodes += new; s.cur = (a, a + len(new) - 1)
    def pop(s): s.cur = s.stack.pop(); s.nodes = s.nodes[:s.cur[1] + 1]
def sscript(g, A, keys, root=None, ntup=True):
    r = g.r; N = len(A); ki = {k: i for i, k in enumerate(keys)}; m = Stacks(A, ki); ops = []
    sts = [root] if root is not None else list(range(N)) if r.random() < .6 else sorted(r.sample(range(N), r.randrange(1, N + 1)))
    m.init(sts); ops.append('I ' + ' '.join(map(str, sts))); nvs = 0
    for _ in range(r.choice((3, 10, 40))):
        x = r.random()
        if x < .45 and len(m.stack) < 40 and len(m.nodes) < 350 and sum(len(n[4] or ()) for n in m.nodes) < 400:
            k = r.choice(keys); ops.append('P' if k == '[]' else 'P ' + k); m.push(k)
        elif x < .65 and m.stack: ops.append('O'); m.pop()
        elif x < .8:
            ops.append('C')
            for i in range(m.cur[0], m.cur[1] + 1): m.nodes[i][1] += 1
        elif x < .88:
            v = r.randrange(1000); ops.append('S %d' % v)
            for i in range(m.cur[0], m.cur[1] + 1): m.nodes[i][2] = v; v += 1
        elif ntup and root is None:
            k = r.randrange(50); i = m.cur[0] + k % (m.cur[1] - m.cur[0] + 1); t = 't%d' % len(m.tuples); virt = r.random() < .4; m.tuples.append(t)
            ops.append('V %d' % k if virt else 'T %d %s' % (k, t))
            for rt in (m.nodes[i][4] if m.nodes[i][4] is not None else [i]): m.chain.setdefault(rt, []).append('@:%d:%d' % (k, m.nodes[i][0]) if virt else '%s:-1:%d' % (t, m.nodes[i][0]))
    return ops, m
def table(g, q):
    keys = ['a', 'b', 'c', 'd', 'name', 'id', 'x1', 'zz', 'unseen', '[]']
    aut = g.srv('small').run('x', 0, oracle.qtext(q), '\n'.join(keys))
    if not isinstance(aut, list) or aut == ['<mode unavailable>']: raise Skip
    return [[int(v) for v in l.split()] for l in aut], keys
def parse_dump(got):
    nodes = []
    for l in got[:-1]:
        h, _, rest = l.partition(' P'); f = [int(x) for x in h.split()[1:]]; P = R = None; T = None
        if rest or ' P' in l:
            ps, _, rest = rest.partition(' R'); rs, _, ts = rest.partition(' T'); P = [int(x) for x in ps.split()]; R = [int(x) for x in rs.split()]; T = ts.split()
        nodes.append((f, P, R, T))
    h = got[-1].split(' cur '); st = [tuple(int(v) for v in x.split('-')) for x in h[0].split()[1:]]; cur = tuple(int(v) for v in h[1].split('-'))
    return nodes, st, cur
def level(nodes, rng, getid, f):
    return sorted(f(nodes[i]) for i in range(rng[0], rng[1] + 1))
def p11(g):
    q = g.query(SIMPLE + ('range', 'filter'), 4); A, keys = table(g, q)
    ops, m = sscript(g, A, keys)
    # identify nodes by (depth, state): within a level states are distinct except on the first one
    exp = describe([(n[:3], n[3], n[4], m.chain.get(i, [])) for i, n in enumerate(m.nodes)], m.stack, m.cur)
    def chk(got, _):
        if not isinstance(got, list) or not got: return False
        n, st, cur = parse_dump(got)
        if any(r[1] < r[0] or r[1] >= len(n) for r in st + [cur]): return False
        return describe([(f, P, R if R else None, T or []) for f, P, R, T in n], st, cur) == exp
    return ('small', 'm', 1, oracle.qtext(q), '\n'.join(ops), exp, chk, len(m.stack) > 0)
def describe(nodes, stack, cur):
    lev = []; base = stack[0] if stack else cur
    for d, rng in enumerate(list(stack) + [cur]):
        out = []
        for i in range(rng[0], rng[1] + 1):
            f, P, R, T = nodes[i]
            out.append([list(f), sorted(nodes[p][0][0] for p in P) if d else [], sorted(nodes[x][0][0] for x in R) if d and R else [], list(T) if not d else []])
        lev.append(sorted(out))
    return lev
def p12(g):
    r = g.r
    if r.random() < .3:
        a = ''.join(r.choice('136') for _ in range(r.choice((0, 1, 3, 10, 40)))); c = ''.join(r.choice('136') for _ in range(r.choice((0, 1, 3, 10, 40, 55))))
        return ('small', 'r', 1, '$.a', a + '|' + c, [a + c], eq, bool(a and c))
    q = g.query(SIMPLE + ('range', 'filter'), 4); A, keys = table(g, q)
    if r.random() < .3:
        ops, m = sscript(g, A, keys)
        if m.stack: pass
        return p11(g)
    o1, m1 = sscript(g, A, keys, root=1, ntup=False); o2, m2 = sscript(g, A, keys, ntup=False)
    cur = m1.nodes[m1.cur[0]][0]
    path = [m1.nodes[x[0]][:3] for x in m1.stack]
    levels = m2.stack + [m2.cur]; roots = [i for i in range(levels[0][0], levels[0][1] + 1) if m2.nodes[i][0] == cur]
    exp = path + [m1.nodes[m1.cur[0]][:3]]
    if roots:
        if m2.nodes[roots[0]][2] != -1: exp[-1] = exp[-1][:2] + type(exp[-1])([m2.nodes[roots[0]][2]])
        for lv in levels[1:]:
            exp.append([m2.nodes[i] for i in range(lv[0], lv[1] + 1) if roots[0] in (m2.nodes[i][4] or ())][0][:3])
    if len(exp) > 98 or len(m1.nodes) + len(m2.nodes) > 480: raise Skip
    def chk(got, _):
        if not isinstance(got, list) or not got: return False
        n, st, cu = parse_dump(got)
        if any(a != b or a < 0 or a >= len(n) for a, b in st + [cu]): return False
        return [list(n[a][0]) for a, _ in st + [cu]] == exp
    return ('small', 'M', 1, oracle.qtext(q), '\n'.join(o1) + '\x1d' + '\n'.join(o2), exp, chk, len(exp) > len(path) + 1)
# ------------------------------------------------------------------ query automaton
def p16(g):
    r = g.r; q = g.query(SIMPLE + ('range', 'filter'), r.choice((3, 6, 10))); paths = []
    for _ in range(40):
        p = []
        for s in q:      # mostly along the query
            k = s[0]
            if k in ('dname', 'dany'): p += [r.choice(('[]', r.choice(gen.KEYS))) for _ in range(r.choice((0, 0, 1, 3)))]
            if r.random() < .04: p.append(r.choice(gen.KEYS + ['[]', 'q', 'unseen']))
            if k in ('name', 'dname'): p.append(s[1] if r.random() < .95 else r.choice(gen.KEYS + [s[1] + 'x', s[1][:-1] or 'q', '[]']))
            elif k in ('any', 'dany'): p.append(r.choice(gen.KEYS + ['unseen', '[]']))
            else: p.append('[]' if r.random() < .95 else r.choice(gen.KEYS))
            if r.random() < .04: break
        if r.random() < .15: p.append(r.choice(gen.KEYS + ['[]', 'q']))
        paths.append([x for x in p if x])
    exp = []
    for p in paths:
        pos = {0}
        for x in p: pos = qstep(q, pos, x)
        acc = len(q) in pos
        fi = [i for i in pos if i > 0 and q[i - 1][0] == 'filter']; rg = [i for i in pos if i > 0 and q[i - 1][0] in ('range',)]
        rng = None
        if rg:
            s = q[rg[0] - 1]; rng = [s[1] or 0, s[2]]
        cond = False
        if not acc:
            for i, s in enumerate(q):
                if s[0] == 'filter':
                    for v in s[3]:
                        n = v.split('.')
                        if len(p) > len(n) and p[-len(n):] == n and (i + 1) in prefix(q, p[:-len(n)]): cond = True
        exp.append((bool(acc), cond, bool(fi), rng))
    def chk(got, _):
        if not isinstance(got, list) or len(got) != len(exp): return False
        for l, (acc, cond, fi, rng) in zip(got, exp):
            t, lo, up, st = [int(x) for x in l.split()]
            if (t == 1) != acc: return False
            if not acc and (t == 2) != cond: return False
            if not acc and not cond and (t == 3) != fi: return False
            if rng and (max(lo, 0) != rng[0] or (up != rng[1] if rng[1] is not None else up < 2**30)): return False
            if not rng and (lo, up) != (0, 0): return False
        return True
    return ('small', 'a', 1, oracle.qtext(q), '\n'.join('\x1f'.join(p) if p else '-' for p in paths), exp, chk, any(e[0] for e in exp))
def qstep(q, pos, x):
    n = set()
    for i in pos:
        if i >= len(q): continue
        s = q[i]; k = s[0]
        if k == 'name': n |= {i + 1} if s[1] == x else set()
        elif k == 'any': n.add(i + 1)
        elif k == 'dname': n |= {i, i + 1} if s[1] == x else {i}
        elif k == 'dany': n |= {i, i + 1}
        elif x == '[]': n.add(i + 1)
    return n
def prefix(q, p):
    pos = {0}
    for x in p: pos = qstep(q, pos, x)
    return pos
# ------------------------------------------------------------------ parallel runs
def spans(e, cut):
    p = 0; n = {}
    for x in cut[:-1]:
        p += len(x)
        for a, b in e: n[a, b] = n.get((a, b), 0) + (a < p < b)
    return max(n.values(), default=0)
def parallel(g):
    r = g.r
    if r.random() < .2: return p20(g, True)      # a document loaded in pieces
    if r.random() < .65:
        q = g.query(SIMPLE, r.choice((3, 5))); d = g.doc(q, r.choice((10, 40, 120)))
    else:
        while True:
            q = g.query(('name', 'all', 'filter', 'filter'), 5, 2)
            if any(s[0] == 'filter' for s in q): break
        d = follow(g, q, 0); g.wsp = 0; info = {}
        try: tame(q, d, oracle.run(q, d, candidates=True, info=info))
        except OverflowError: raise Skip
        if info and sum(s[0] == 'filter' for s in q) > 1: raise Skip      # KF3
    e = oracle.run(q, d, extents=True); tame(q, d, [d[a:b] for a, b in e])
    for a, b in strings(d):
        if d[a+1:b-1].rstrip(WS)[-1:] in (',', '{', '['): raise Skip      # KF5
    c = r.randrange(1, 9); cut = g.srv('small').run('i', c, '$.a', d)
    if not isinstance(cut, list) or ''.join(cut) != d: raise Skip
    m = r.choice('poow')
    if m == 'w': t = g.doc(q if r.random() < .5 else g.query(SIMPLE, 3), r.choice((3, 10, 30)))    # constraints learned on another document
    return ('small', m, c, oracle.qtext(q), (t + '\x1d' if m == 'w' else '') + d, [d[a:b] for a, b in e], eq, bool(e) and len(cut) > 1)
# ------------------------------------------------------------------ races
RACE = ('DIE', 1066)
def p17(g):
    r = g.r; q = g.query(SIMPLE + ('range',), r.choice((2, 3, 4))); d = g.doc(q, r.choice((20, 60, 150))); tame(q, d); c = r.randrange(2, 7)
    cut = g.srv('tsan').run('i', c, '$.a', d)
    if not isinstance(cut, list): raise Skip
    m = r.choice('poow')
    return ('tsan', m, c, oracle.qtext(q), (g.doc(q, r.choice((5, 20, 60))) + '\x1d' if m == 'w' else '') + d, 'no race is reported', lambda got, e: tuple(got) != RACE, len(cut) > 2)
# ------------------------------------------------------------------ loaded pieces
def p20(g, parallel=False):
    rg = () if parallel else ('range',)
    q = g.query(SIMPLE + rg if g.r.random() < .5 else ('name', 'all', 'filter') + rg, 4); d = g.doc(q, g.r.choice((40, 120)))
    if len(d) < 60: raise Skip
    info = {}
    try: e = oracle.run(q, d, extents=True); cand = oracle.run(q, d, extents=True, candidates=True, info=info)
    except OverflowError: raise Skip
    if info and sum(s[0] == 'filter' for s in q) > 1: raise Skip
    tame(q, d, [d[a:b] for a, b in e])
    for a, b in strings(d):
        if d[a+1:b-1].rstrip(WS)[-1:] in (',', '{', '['): raise Skip
    cut = g.srv('chunk').run('l', 1, '$.a', d)
    if not isinstance(cut, list) or ''.join(cut) != d: raise Skip
    p = 0
    for x in cut[:-1]:
        p += len(x)
        for a, b in cand:
            if a < p < b: raise Skip     # known finding: a matched container spans two loaded pieces
    return ('chunk', g.r.choice('po') if parallel else 's', g.r.randrange(1, 8) if parallel else 1, oracle.qtext(q), d, [d[a:b] for a, b in e], eq, bool(e) and len(cut) > 1)

def mix(*fs):
    def f(g): return g.r.choice(fs)(g)
    return f
PROPS = {
 'P01': p01, 'P02': p02, 'P03': mix(deep, serial(SIMPLE), serial(SIMPLE), serial(SIMPLE + ('range', 'filter'))), 'P04': p04,
 'P05': p05, 'P06': p06, 'P07': p07, 'P08': p08, 'P09': p09, 'P10': p10, 'P13': p13, 'P11': p11, 'P12': p12, 'P17': p17,
 'P16': p16, 'P18': parallel, 'P20': p20,
}
def hashable(c): return json.dumps(c[1:5])

def worker(prop, seed, secs, dirs, idx, q):
    g = gen.Gen(seed * 1000003 + idx * 7919 + 17); srvs = {}; n = nt = sk = 0; seen = set(); samples = []
    def srv(v):
        if v not in srvs:
            t = os.path.join(dirs[v], 'run', 'w%s_%d' % (prop, idx)); os.makedirs(t, exist_ok=True); srvs[v] = diffrun.Srv(os.path.join(dirs[v], 'jsrv'), t)
        return srvs[v]
    g.srv = srv; t0 = time.time(); wit = None; un = 0
    f = PROPS[prop]
    while time.time() - t0 < secs:
        try: c = f(g)
        except (Skip, OverflowError): sk += 1; continue
        if c[0] not in dirs: sk += 1; continue
        got = srv(c[0]).run(c[1], c[2], c[3], c[4])
        if got == ['<mode unavailable>']: un += 1; break
        n += 1
        if c[7]:
            nt += 1; h = hash(hashable(c))
            if h not in seen: seen.add(h)
            if len(samples) < 2 and len(c[4]) < 300: samples.append({'mode': c[1], 'cores': c[2], 'query': c[3], 'input': c[4]})
        if not c[6](got, c[5]):
            if srv(c[0]).run(c[1], c[2], c[3], c[4]) != got and c[1] not in 'po': continue
            w = dict(property=prop, variant=c[0], mode=c[1], cores=c[2], query=c[3], input=c[4], expected=c[5], got=got)
            if wit is None or len(w['input']) < len(wit['input']): wit = w
            if time.time() - t0 > min(secs, 3): break
    for s in srvs.values():
        try: s.close()
        except Exception: pass
    q.put((n, nt, len(seen), sk, un, samples, wit))
def search(prop, seed, secs, dirs, procs=8):
    ctx = mp.get_context('fork'); q = ctx.Queue()
    ps = [ctx.Process(target=worker, args=(prop, seed, secs, dirs, i, q)) for i in range(procs)]
    for p in ps: p.start()
    r = dict(evaluations=0, nontrivial=0, distinct_nontrivial=0, skipped=0, unavailable=0, samples=[], witness=None, workers=0)
    end = time.time() + secs + 60
    for _ in ps:
        try: n, nt, ds, sk, un, sm, w = q.get(timeout=max(1, end - time.time()))
        except Exception: break
        r['workers'] += 1; r['evaluations'] += n; r['nontrivial'] += nt; r['distinct_nontrivial'] += ds; r['skipped'] += sk; r['unavailable'] += un
        if len(r['samples']) < 3: r['samples'] += sm[:1]
        if w and (r['witness'] is None or len(w['input']) < len(r['witness']['input'])): r['witness'] = w
    for p in ps:
        if p.is_alive(): p.kill()
        p.join()
    return r
def run1(d, i):
    t = os.path.join(d, 'run', 'one'); os.makedirs(t, exist_ok=True); s = diffrun.Srv(os.path.join(d, 'jsrv'), t)
    try:
        g = s.run(i['mode'], i['cores'], i['query'], i['input'])
        return list(g) if isinstance(g, tuple) else g
    finally: s.close()
if __name__ == '__main__':
    # standin.py PROP SEED SECS [DIR]: run one stand-in by hand
    d = sys.argv[4] if len(sys.argv) > 4 else '/tmp/si'
    dirs = {}
    for v in VARIANTS:
        if not os.path.exists(os.path.join(d, v, 'jsrv')):
            ok, err = build(os.path.join(d, v), v); print(v, ok, err)
        dirs[v] = os.path.join(d, v)
    for p in sys.argv[1].split(','):
        r = search(p, int(sys.argv[2]), float(sys.argv[3]), dirs); w = r.pop('witness'); r.pop('samples')
        print(p, r)
        if w: print('   ', {k: (str(v)[:700]) for k, v in w.items()})
