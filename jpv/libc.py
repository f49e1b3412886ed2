"""Assumed contracts of the C library functions the code calls (trusted base)."""
import z3
from .core import Ptr, UnknownPtr, Undecided, Alloc, NULL, iv, is_num, sel, upd, FP, INT, T, F, Ty, addt, Z

ARR = z3.ArraySort(INT, INT)
SLEN = z3.Function('slen', ARR, INT, INT)
CID = z3.Function('cid', ARR, INT, INT)
SCMP = z3.Function('scmp', INT, INT, INT)
LITS = {}
def litid(b):
    if isinstance(b, str): b = b.encode('latin-1')
    return LITS.setdefault(b, len(LITS) + 1)

def chars(ex, p, check=False):
    ex.ckptr(p, check)
    key, idxs = ex.keyof(p.path)
    if not p.path or p.path[-1][0] != 'i': raise Undecided('string operation on a non-buffer')
    ty = ex.typeat(p.root.ty, key)
    if not (ty.k == 'int' and ty.a == 8): raise Undecided('string operation on %r' % ty)
    t = ex.leafterm(p.root, key)
    for i in idxs[:-1]: t = sel(t, i)
    return t, idxs[-1]
def setchars(ex, p, arr):
    key, idxs = ex.keyof(p.path)
    ex.setraw(p.root, key, upd(ex.raw(p.root, key), idxs[:-1], arr))
def concrete(t, o, limit=64):
    """bytes of the C string at t[o..] if syntactically known"""
    out = []
    for i in range(limit):
        c = z3.simplify(sel(t, z3.simplify(addt(o, iv(i)))))
        if not is_num(c): return None
        if c.as_long() == 0: return bytes(x & 255 for x in out)
        out.append(c.as_long())
    return None
def size(ex, p):
    """number of elements of the buffer p points into (term) or None"""
    ty = p.root.ty; n = 0; lead = []
    res = None
    for k, x in p.path:
        if k == 'i':
            if ty.n is not None: res = iv(ty.n)
            else:
                f = p.root.sizes.get(n); res = f(lead) if callable(f) else f
                if n == 0 and p.root.region: res = None
            lead.append(x); n += 1; ty = ty.a
        else: ty = ex.typeat(ty, (x,)); res = None
    return res
def strfacts(ex, t, o):
    """instantiate the string axioms for the C string at t[o]"""
    k = ('str', t.get_id(), o.get_id())
    c = concrete(t, o)
    if c is not None:
        if k not in ex.facts:
            ex.facts.add(k); ex.keep.append((t, o))
            ex.assume(SLEN(t, o) == len(c)); ex.assume(CID(t, o) == litid(c))
        if c not in ex.lits:
            ex.lits.append(c)
            for (a, b) in ex.strs: litfact(ex, a, b, c)
        return len(c)
    if k not in ex.facts:
        ex.facts.add(k); ex.keep.append((t, o))
        n = SLEN(t, o)
        ex.assume(n >= 0); ex.assume(sel(t, addt(o, n)) == 0)
        i = z3.Int('?k')
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= o, i < o + n), z3.Select(t, i) != 0), patterns=[z3.Select(t, i)]))
        ex.strs.append((t, o))
        for c in ex.lits: litfact(ex, t, o, c)
    return None
def litfact(ex, t, o, c):
    cs = [sel(t, addt(o, iv(i))) == b for i, b in enumerate(c)] + [sel(t, addt(o, iv(len(c)))) == 0]
    ex.assume((CID(t, o) == litid(c)) == z3.And(*cs))
    ex.assume(z3.Implies(CID(t, o) == litid(c), SLEN(t, o) == len(c)))
def cid(ex, p, check=False):
    t, o = chars(ex, p, check); strfacts(ex, t, o); return CID(t, o)
def slen(ex, p, check=False):
    t, o = chars(ex, p, check); n = strfacts(ex, t, o)
    return iv(n) if n is not None else SLEN(t, o)

def room(ex, p, n, what):
    sz = size(ex, p)
    if sz is not None: ex.oblige('bounds', '%s fits its destination' % what, z3.And(p.off >= 0, p.off + n <= sz))
def copy(ex, dst, src, n, term, what):
    """dst[0..n) = src[0..n), plus a NUL when term"""
    d, od = chars(ex, dst, True); t, os_ = chars(ex, src, True)
    room(ex, dst, n + (1 if term else 0), what)
    if is_num(n) and n.as_long() <= 40:
        a = d
        for i in range(n.as_long()): a = z3.Store(a, addt(od, iv(i)), sel(t, addt(os_, iv(i))))
        if term: a = z3.Store(a, addt(od, n), 0)
        setchars(ex, dst, a)
        if term and is_num(z3.simplify(SLEN(t, os_) == n)) : pass
        return a, od
    a = ex.fresh('copied', ARR)
    i = z3.Int('?k')
    ex.assume(z3.ForAll([i], z3.Implies(z3.Or(i < od, i >= od + n + (1 if term else 0)), z3.Select(a, i) == z3.Select(d, i)), patterns=[z3.Select(a, i)]))
    ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(a, od + i) == z3.Select(t, os_ + i)), patterns=[z3.Select(t, os_ + i)]))
    ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= od, i < od + n), z3.Select(a, i) == z3.Select(t, os_ + (i - od))), patterns=[z3.Select(a, i)]))
    if term: ex.assume(z3.Select(a, od + n) == 0)
    setchars(ex, dst, a)
    return a, od
def m_strcpy(ex, n, argn):
    d, s = [ex.ev(a) for a in argn[:2]]
    t, o = chars(ex, s, True); k = strfacts(ex, t, o)
    ln = iv(k) if k is not None else SLEN(t, o)
    a, od = copy(ex, d, s, ln, True, 'strcpy')
    strfacts(ex, a, od); ex.assume(SLEN(a, od) == ln); ex.assume(CID(a, od) == CID(t, o))
    return d
def m_strncpy(ex, n, argn):
    d, s = [ex.ev(a) for a in argn[:2]]; cnt = ex.asint(ex.ev(argn[2]))
    t, o = chars(ex, s, True); k = strfacts(ex, t, o); ln = iv(k) if k is not None else SLEN(t, o)
    dt, od = chars(ex, d, True); ex.oblige('bounds', 'strncpy: length is not negative', cnt >= 0); room(ex, d, cnt, 'strncpy')
    a = ex.fresh('copied', ARR); i = z3.Int('?k')
    ex.assume(z3.ForAll([i], z3.Implies(z3.Or(i < od, i >= od + cnt), z3.Select(a, i) == z3.Select(dt, i)), patterns=[z3.Select(a, i)]))
    ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= od, i < od + cnt), z3.Select(a, i) == z3.If(i - od < ln, z3.Select(t, o + (i - od)), iv(0))), patterns=[z3.Select(a, i)]))
    setchars(ex, d, a); return d
CAT = z3.Function('cat', INT, INT, INT)
def m_strcat(ex, n, argn):
    d, s = [ex.ev(a) for a in argn[:2]]
    t, o = chars(ex, s, True); k = strfacts(ex, t, o); ls = iv(k) if k is not None else SLEN(t, o)
    dt, do = chars(ex, d, True); k2 = strfacts(ex, dt, do); ld = iv(k2) if k2 is not None else SLEN(dt, do)
    a, od = copy(ex, d.add(ld), s, ls, True, 'strcat')
    for x, y, l in ((t, o, ls), (dt, do, ld)):
        for j in range(3): ex.assume(z3.Implies(l > j, sel(x, addt(y, iv(j))) != 0))
    strfacts(ex, a, do); ex.assume(SLEN(a, do) == ld + ls); ex.assume(CID(a, do) == CAT(CID(dt, do), CID(t, o)))
    return d
def m_strcmp(ex, n, argn):
    a, b = [ex.ev(x) for x in argn[:2]]
    ca = cid(ex, a, True); cb = cid(ex, b, True)
    r = SCMP(ca, cb)
    ex.assume((r == 0) == (ca == cb)); ex.assume(z3.And(r >= -256, r <= 256))
    return r
def m_strlen(ex, n, argn): return slen(ex, ex.ev(argn[0]), True)
def m_malloc(ex, n, argn):
    v = ex.asint(ex.ev(argn[0])); return Alloc(v)
def m_calloc(ex, n, argn):
    a, b = ex.asint(ex.ev(argn[0])), ex.asint(ex.ev(argn[1]))
    return Alloc(z3.simplify(a * b), True)
def m_realloc(ex, n, argn):
    p = ex.ev(argn[0]); v = ex.asint(ex.ev(argn[1]))
    if isinstance(p, Ptr) and p.root is not None:
        # the block keeps its identity and content and changes its size (one owner is assumed; allocation succeeds)
        if len(p.path) != 1 or p.root.region or not p.root.fresh or p.root.sizes.get(0) is None or not (p.root.ty.k == 'arr' and p.root.ty.a.k == 'int' and p.root.ty.a.a == 8): raise Undecided('realloc')
        ex.oblige('bounds', 'realloc of the start of a block', z3.And(p.off == 0, v >= 0))
        gk = ex.growing(p.root); old = ex.ghost[gk]; ex.setghost(gk, v)
        t, _ = chars(ex, p); a = ex.fresh('grown', ARR); i = z3.Int('?k')
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(i < old, i < v), z3.Select(a, i) == z3.Select(t, i)), patterns=[z3.Select(a, i)])); setchars(ex, p, a)
        return p
    return Alloc(v)
# ---- files: one file, its bytes FBYTES[0..FSIZE), the position a ghost variable; no I/O error, nobody else writes it
FBYTES = z3.Const('FBYTES', ARR); FSIZE = z3.Int('FSIZE')
def m_fopen(ex, n, argn):
    for a in argn: ex.ev(a)
    if ex.decide(ex.fresh('fopen_fails', z3.BoolSort())): return NULL
    ex.setghost('fpos', iv(0)); return Ptr(ex.newobj('FILE', Ty('int', 32, 1)), (), False)
def fpos(ex):
    if 'fpos' not in ex.ghost: raise Undecided('file operation without fopen')
    return ex.ghost['fpos']
def m_fseek(ex, n, argn):
    ex.ev(argn[0]); o = ex.asint(ex.ev(argn[1])); w = ex.asint(ex.ev(argn[2]))
    if not is_num(w): raise Undecided('fseek')
    v = [o, fpos(ex) + o, FSIZE + o][w.as_long()]
    ex.oblige('pre', 'fseek to a position in the file', z3.And(v >= 0, v <= FSIZE)); ex.setghost('fpos', v); return iv(0)
def m_rewind(ex, n, argn): ex.ev(argn[0]); fpos(ex); ex.setghost('fpos', iv(0)); return iv(0)
def m_ftell(ex, n, argn): ex.ev(argn[0]); return fpos(ex)
def m_fgetc(ex, n, argn):
    ex.ev(argn[0]); p = fpos(ex); b = z3.Select(FBYTES, p)
    if not ex.decide(p < FSIZE): return iv(-1)
    ex.assume(z3.And(b >= -128, b <= 127)); ex.setghost('fpos', p + 1)
    x = ex.fresh('byte'); ex.assume(x == z3.If(b < 0, b + 256, b)); return x
def m_fread(ex, n, argn):
    d = ex.ev(argn[0]); sz = ex.asint(ex.ev(argn[1])); cnt = ex.asint(ex.ev(argn[2])); ex.ev(argn[3]); p = fpos(ex)
    if not (is_num(sz) and sz.as_long() == 1): raise Undecided('fread of more than bytes')
    ex.oblige('bounds', 'fread: length is not negative', cnt >= 0)
    m = z3.If(cnt <= FSIZE - p, cnt, FSIZE - p)
    dt, od = chars(ex, d, True); room(ex, d, m, 'fread')
    a = ex.fresh('read', ARR); i = z3.Int('?k')
    ex.assume(z3.ForAll([i], z3.Select(a, i) == z3.If(z3.And(i >= od, i < od + m), z3.Select(FBYTES, p + (i - od)), z3.Select(dt, i)), patterns=[z3.Select(a, i)]))
    setchars(ex, d, a); ex.setghost('fpos', p + m); return m
def m_free(ex, n, argn):
    ex.ev(argn[0]); return None
def m_void(ex, n, argn):
    for a in argn:
        try: ex.ev(a)
        except Undecided: pass
    return iv(0)
def isdig(c): return z3.And(c >= 48, c <= 57)
def m_isdigit(ex, n, argn):
    c = ex.asint(ex.ev(argn[0])); return z3.If(isdig(c), iv(1), iv(0))
def m_atof(ex, n, argn):
    return z3.Function('atof', INT, FP)(cid(ex, ex.ev(argn[0]), True))
def m_atoi(ex, n, argn):
    v = z3.Function('atoi', INT, INT)(cid(ex, ex.ev(argn[0]), True)); ex.assume(z3.And(v >= -2**31, v < 2**31)); return v
def m_abort(ex, n, argn):
    from .core import PathEnd
    raise PathEnd()
def m_memset(ex, n, argn):
    p = ex.ev(argn[0]); v = ex.asint(ex.ev(argn[1])); ln = ex.asint(ex.ev(argn[2]))
    ex.ckptr(p, True)
    key, idxs = ex.keyof(p.path); ty = ex.typeat(p.root.ty, key)
    if not (is_num(v) and v.as_long() == 0): raise Undecided('memset to a non-zero value')
    if is_num(ln) and ln.as_long() == ex.sizeof(ty) and not (p.path and p.path[-1][0] == 'i'):
        ex.zero(p, ty); return p
    if p.path and p.path[-1][0] == 'i' and ty.k == 'int':
        sz = ex.sizeof(ty); cnt = iv(ln.as_long() // sz) if is_num(ln) else ln / iv(sz)
        room(ex, p, cnt, 'memset')
        t = ex.leafterm(p.root, key)
        for i in idxs[:-1]: t = sel(t, i)
        a = ex.fresh('zeroed', t.sort()); i = z3.Int('?k'); o = idxs[-1]
        ex.assume(z3.ForAll([i], z3.Select(a, i) == z3.If(z3.And(i >= o, i < o + cnt), iv(0), z3.Select(t, i)), patterns=[z3.Select(a, i)]))
        ex.setraw(p.root, key, upd(ex.raw(p.root, key), idxs[:-1], a)); return p
    raise Undecided('memset')
def differ(ex, t, o, u, v, w, nul):
    """fresh result r of comparing t[o..] and u[v..]: zero iff the first w characters agree (up to a common NUL when nul)"""
    r = ex.fresh('cmp', INT); i = z3.Int('?k'); j = ex.fresh('at', INT)
    eq = lambda x: z3.Select(t, o + x) == z3.Select(u, v + x)
    ex.assume(z3.Implies(r == 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < w), eq(i)), patterns=[z3.Select(t, o + i), z3.Select(u, v + i)])))
    if is_num(w) and w.as_long() <= 20: ex.assume(z3.Implies(r == 0, z3.And(*[sel(t, addt(o, iv(x))) == sel(u, addt(v, iv(x))) for x in range(w.as_long())])))
    ex.assume(z3.Implies(r != 0, z3.And(j >= 0, j < w, z3.Not(eq(j)))))
    ex.assume(z3.And(r >= -256, r <= 256)); return r
def m_strncmp(ex, n, argn):
    a, b = [ex.ev(x) for x in argn[:2]]; cnt = ex.asint(ex.ev(argn[2]))
    (t, o), (u, v) = chars(ex, a, True), chars(ex, b, True); la, lb = slen(ex, a, True), slen(ex, b, True)
    w = z3.If(cnt <= la, cnt, la + 1) if not (is_num(la) and is_num(cnt)) else iv(min(cnt.as_long(), la.as_long() + 1))
    if not is_num(w): w = z3.If(cnt <= lb, w, z3.If(w <= lb + 1, w, lb + 1))     # no difference after the first NUL
    elif is_num(lb): w = iv(min(w.as_long(), lb.as_long() + 1))
    r = differ(ex, t, o, u, v, w, True)
    ex.assume(z3.Implies(cid(ex, a) == cid(ex, b), r == 0))
    ex.assume(z3.Implies(z3.And(r == 0, cnt > la), cid(ex, a) == cid(ex, b))); ex.assume(z3.Implies(z3.And(r == 0, cnt > lb), cid(ex, a) == cid(ex, b)))
    return r
def m_memcmp(ex, n, argn):
    a, b = [ex.ev(x) for x in argn[:2]]; cnt = ex.asint(ex.ev(argn[2]))
    (t, o), (u, v) = chars(ex, a, True), chars(ex, b, True); room(ex, a, cnt, 'memcmp'); room(ex, b, cnt, 'memcmp')
    return differ(ex, t, o, u, v, cnt, False)
def m_memcpy(ex, n, argn):
    d, s = [ex.ev(a) for a in argn[:2]]; cnt = ex.asint(ex.ev(argn[2])); t, o = chars(ex, s, True)
    ex.oblige('bounds', 'memcpy: length is not negative', cnt >= 0); room(ex, s, cnt, 'memcpy')
    copy(ex, d, s, z3.simplify(cnt), False, 'memcpy'); return d
def m_strtod(ex, n, argn):
    e = ex.ev(argn[1])
    if not (isinstance(e, Ptr) and e.root is None): raise Undecided('strtod with an end pointer')
    return z3.Function('atof', INT, FP)(cid(ex, ex.ev(argn[0]), True))
def m_strtof(ex, n, argn):
    e = ex.ev(argn[1])
    if not (isinstance(e, Ptr) and e.root is None): raise Undecided('strtof with an end pointer')
    return z3.Function('strtof', INT, FP)(cid(ex, ex.ev(argn[0]), True))
def m_atol(ex, n, argn):
    v = z3.Function('atol', INT, INT)(cid(ex, ex.ev(argn[0]), True)); ex.assume(z3.And(v >= -2**63, v < 2**63)); return v
def m_isspace(ex, n, argn):
    c = ex.asint(ex.ev(argn[0])); return z3.If(z3.Or(c == 32, z3.And(c >= 9, c <= 13)), iv(1), iv(0))
def m_isalpha(ex, n, argn):
    c = ex.asint(ex.ev(argn[0])); return z3.If(z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122)), iv(1), iv(0))
MODELS = {'strcpy': m_strcpy, 'strcat': m_strcat, 'strncpy': m_strncpy, 'strcmp': m_strcmp, 'strlen': m_strlen, 'malloc': m_malloc, 'calloc': m_calloc,
          'free': m_free, 'realloc': m_realloc, 'printf': m_void, 'fprintf': m_void, 'isdigit': m_isdigit, 'atof': m_atof, 'atoi': m_atoi,
          'exit': m_abort, 'abort': m_abort, 'memset': m_memset, 'gettimeofday': m_void, 'fopen': m_fopen, 'fseek': m_fseek, 'rewind': m_rewind, 'ftell': m_ftell, 'fgetc': m_fgetc, 'getc': m_fgetc, 'fread': m_fread, 'fclose': m_void, 'fflush': m_void, 'puts': m_void, 'perror': m_void}
MODELS.update(strncmp=m_strncmp, memcmp=m_memcmp, memcpy=m_memcpy, memmove=m_memcpy, strtod=m_strtod, strtof=m_strtof, atol=m_atol, atoll=m_atol, isspace=m_isspace, isalpha=m_isalpha)
