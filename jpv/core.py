"""jpv: a deductive verifier for the C code of this repository.

Forward symbolic execution of clang's AST, one function at a time: loops are cut at their heads by invariants
(everything a loop writes is havocked), calls to functions under contract are replaced by that contract (precondition
checked, frame havocked, postcondition assumed), other calls are inlined.  Every obligation is discharged by z3
(cvc5 as second back end).  Integers are mathematical with range obligations on every arithmetic operation and
conversion; doubles are IEEE binary64."""
import os, re, time, z3
from .cast import Ty, TU

class Undecided(Exception): pass
class PathEnd(Exception): pass
class ReturnEx(Exception):
    def __init__(s, v): s.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass

T, F = z3.BoolVal(True), z3.BoolVal(False)
INT = z3.IntSort()
FP = z3.Float64()
RNE = z3.RNE()
def iv(n): return z3.IntVal(n)
def is_num(t): return z3.is_int_value(t)
def isz(x): return isinstance(x, z3.ExprRef)
def Z(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    return x

class Ptr:
    __slots__ = ('root', 'path', 'null')
    def __init__(s, root, path=(), null=False): s.root, s.path, s.null = root, tuple(path), null
    def __repr__(s): return 'Ptr(%s,%s,%s)' % (s.root and s.root.id, s.path, s.null)
    def fld(s, *p): return Ptr(s.root, s.path + tuple(mkp(x) for x in p), False)
    def add(s, n):
        if not s.path or s.path[-1][0] != 'i':
            if is_num(n) and n.as_long() == 0: return s
            raise Undecided('arithmetic on a pointer to a single object')
        return Ptr(s.root, s.path[:-1] + (('i', addt(s.path[-1][1], n)),), s.null)
    @property
    def off(s):
        if not s.path or s.path[-1][0] != 'i': return iv(0)
        return s.path[-1][1]
    @property
    def base(s): return s.path[:-1] if s.path and s.path[-1][0] == 'i' else s.path
def mkp(x):
    if isinstance(x, tuple): return x
    return ('f', x) if isinstance(x, str) else ('i', Z(x))
NULL = Ptr(None, (), True)
class UnknownPtr:
    """a pointer variable after havoc whose target is not tracked; any use is undecided"""
    def __init__(s, why): s.why = why
class SV:
    __slots__ = ('ty', 'leaves')
    def __init__(s, ty, leaves): s.ty, s.leaves = ty, leaves
class Root:
    __slots__ = ('id', 'ty', 'sizes', 'region', 'fresh', 'seq')
    def __init__(s, id, ty, sizes=None, region=False, fresh=False): s.id, s.ty, s.sizes, s.region, s.fresh = id, ty, sizes or {}, region, fresh; s.seq = 0

def addt(a, b):
    if is_num(a) and is_num(b): return iv(a.as_long() + b.as_long())
    if is_num(b) and b.as_long() == 0: return a
    if is_num(a) and a.as_long() == 0: return b
    # fold  (x + c) + d
    if is_num(b) and z3.is_add(a) and a.num_args() == 2 and is_num(a.arg(1)):
        return addt(a.arg(0), iv(a.arg(1).as_long() + b.as_long()))
    return a + b
def sel(a, i):
    while z3.is_store(a):
        j = a.arg(1)
        if z3.eq(i, j): return a.arg(2)
        if distinct(i, j): a = a.arg(0); continue
        break
    if z3.is_const_array(a): return a.arg(0)
    return z3.Select(a, i)
def lin(t):
    """(base, const)"""
    if is_num(t): return None, t.as_long()
    if z3.is_add(t) and t.num_args() == 2 and is_num(t.arg(1)): return t.arg(0), t.arg(1).as_long()
    if z3.is_sub(t) and t.num_args() == 2 and is_num(t.arg(1)): return t.arg(0), -t.arg(1).as_long()
    return t, 0
def distinct(i, j):
    bi, ci = lin(i); bj, cj = lin(j)
    if bi is None and bj is None: return ci != cj
    if bi is None or bj is None: return False
    return z3.eq(bi, bj) and ci != cj
def upd(a, idxs, v):
    if not idxs: return v
    if len(idxs) == 1: return z3.Store(a, idxs[0], v)
    return z3.Store(a, idxs[0], upd(sel(a, idxs[0]), idxs[1:], v))

def rng(ty):
    if ty.a == 1: return 0, 1
    return (-(1 << (ty.a - 1)), (1 << (ty.a - 1)) - 1) if ty.n else (0, (1 << ty.a) - 1)

_q = {}
def quantified(f):
    k = f.get_id()
    if k in _q and z3.eq(_q[k][0], f): return _q[k][1]
    seen = set(); st = [f]; r = False
    while st:
        x = st.pop()
        if z3.is_quantifier(x): r = True; break
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st.extend(x.children())
    if len(_q) > 20000: _q.clear()
    _q[k] = (f, r)
    return r
class Ob:
    __slots__ = ('fn', 'kind', 'label', 'status', 'time', 'by', 'info', 'hyps', 'goal', 'n')
    def __init__(s, **k):
        for a in s.__slots__: setattr(s, a, k.get(a))
    @property
    def name(s): return '%s/%s/%s' % (s.fn, s.kind, s.label)

class Spec:
    """contract of one function; subclasses override.  c is a Ctx"""
    name = None
    modular = True          # callers use the contract instead of the body
    def setup(s, c): pass
    def pre(s, c): return []
    def post(s, c): return []
    def mods(s, c): return []
    def result(s, c): return None
    def lemma(s, c): return []
    loops = {}              # ordinal -> Loop
    trusted = False
class Loop:
    def __init__(s, inv=None, step=None, assume=None, havoc=None, variant=None, lemma=None, at=None, ghost=None, init=None):
        s.init = init          # c -> obligations when the loop is entered
        s.ghost = ghost        # c -> [(ghost variable, new value)], after every iteration
        s.inv, s.step, s.assume, s.havoc, s.variant, s.lemma, s.at = inv or (lambda c: []), step, assume, havoc, variant, lemma, at

class Module:
    """a translation unit with the contracts of its functions"""
    def __init__(s, tu, specs, buf=(), regions=None, opaque_calls=None, roles=None, untracked=()):
        s.untracked = set(untracked)  # pointer fields (of structs in arrays) of which only the nullness is tracked
        s.tu = tu; s.specs = {x.name: x for x in specs}
        s.buf = set(buf)              # struct types whose pointers address arrays
        s.regions = regions or {}     # (struct, field) or 'T*' -> region name
        s.models = opaque_calls or {} # extra call models
        s.roles = roles or {}

class View:
    def __init__(s, ex, snap=None): s.ex, s.snap = ex, snap
    def get(s, p, *path):
        q = p.fld(*path) if path else p
        return s.ex.load(q, snap=s.snap, check=False)
    def arr(s, p, *path):
        """whole array term of the leaf at path, where '[]' marks the open dimension"""
        q = p; rest = list(path); idx = []
        pre = []
        while rest and rest[0] != '[]': pre.append(rest.pop(0))
        q = p.fld(*pre) if pre else p
        key, idxs = s.ex.keyof(q.path)
        key = key + tuple(rest)
        t = s.ex.leafterm(q.root, key, s.snap)
        for i in idxs: t = sel(t, i)
        return t
    def chars(s, p):
        """(array term, offset) of the buffer a pointer points into"""
        key, idxs = s.ex.keyof(p.path)
        if not p.path or p.path[-1][0] != 'i': raise Undecided('chars of non-buffer')
        t = s.ex.leafterm(p.root, key, s.snap)
        for i in idxs[:-1]: t = sel(t, i)
        return t, idxs[-1]

class Ctx:
    def __init__(s, ex, fn, args, old, frame=None, spec=None):
        s.ex, s.fn, s.args, s.frame, s.spec = ex, fn, args, frame, spec
        s.old = View(ex, old); s.cur = View(ex); s.res = None; s.head = None; s.entry = None; s.call = False
        s.g = ex.ghost
    def a(s, i): return s.args[i]
    def v(s, name, snap=None):
        """current value of a local variable (by its baseline name)"""
        r = s.ex.local(s.frame, name)
        return s.ex.load(Ptr(r), check=False, snap=snap)
    def vp(s, name): return Ptr(s.ex.local(s.frame, name))
    def has(s, name):
        try: s.ex.local(s.frame, name); return True
        except Undecided: return False
    def fresh(s, name, sort=INT): return s.ex.fresh(name, sort)
    def assume(s, f): s.ex.assume(f)

class Frame:
    def __init__(s, fn, decl, n): s.fn, s.decl, s.n, s.vars, s.names, s.loopn = fn, decl, n, {}, {}, 0

class Exec:
    def __init__(s, mod, fname, timeout=20000, log=None):
        s.mod, s.tu, s.fname = mod, mod.tu, fname
        s.timeout = timeout
        s.obs = []; s.obseen = {}
        s.mods_of = {}; s.newmods = False
        s.loopinfo = {}
        s.inlined = set(); s.called = set(); s.assumed_models = set()
        s.solver_time = 0.0; s.nq = 0
        s.paths = 0; s.cover = {}
        s.maxpaths = 4000
        s.deadline = None
    # ---------------------------------------------------------------- exploration
    def explore(s, run):
        """run(): executes one path using s.decide; explores all decision sequences"""
        final = False
        for attempt in range(40):
            s.newmods = False
            s.trial = not final
            s.obs = []; s.badlabels = {}
            s.paths = 0
            work = [()]
            while work:
                pre = work.pop()
                s.begin(pre)
                try: run()
                except PathEnd: pass
                for alt in s.alts: work.append(alt)
                s.paths += 1
                if s.paths > s.maxpaths: raise Undecided('too many paths')
                if s.deadline and time.time() > s.deadline: raise Undecided('time budget')
            if final and not s.newmods: return
            final = final or not s.newmods or not s.mods_of       # the first passes only collect what loops write
        raise Undecided('loop footprints do not stabilise')
    def prepare(s):
        decl = s.tu.funcs.get(s.fname)
        if decl is None: raise Undecided('no function ' + s.fname)
        s.decl = decl
        s.spec = s.mod.specs.get(s.fname)
        s.looplist = None; s.defaultloops = set(); s.loopassume = set(); s.loopcov = {}; s.ghostmods = {}
        s.looplist = expand_loops(s, decl)
        want = getattr(s.spec, 'nloops', None)
        if want is not None and want != len(s.looplist): raise Undecided('%s has %d loops, its contract annotates %d' % (s.fname, len(s.looplist), want))
    drop, cand = frozenset(), False
    def one(s, prefix, trial, mods_of, ghostmods, bad):
        """one path, for the parallel driver"""
        s.mods_of = {k: set(v) for k, v in mods_of.items()}; s.ghostmods = {k: set(v) for k, v in ghostmods.items()}
        s.newmods = False; s.trial = trial; s.obs = []; s.badlabels = dict(bad)
        s.begin(prefix)
        try: s.onepath(s.decl)
        except PathEnd: pass
        return s.alts
    def begin(s, prefix):
        s.prefix, s.pos, s.taken, s.alts = prefix, 0, [], []
        s.mem = {}; s.roots = {}; s.pc = []; s.ctr = {}; s.nframe = 0; s.active = []; s.ghost = {}
        s.stack = []; s.seq = 0
        s.solver = z3.Solver(); s.solver.set('timeout', s.timeout); s.solver.set('random_seed', 1)
        s.qf = z3.Solver(); s.qf.set('timeout', 400); s.qf.set('random_seed', 1)     # quantifier-free part of the path condition
        s.alloc = []; s.movedin = {}; s.rowsize = {}; s.bound = {}      # bound: region name -> the one object its pointers address
        s.facts = set(); s.guards = []; s.strs = []; s.lits = []; s.keep = []; s.litroots = {}
    def fresh(s, name, sort=INT):
        k = s.ctr.get(name, 0); s.ctr[name] = k + 1
        return z3.Const('%s!%d' % (name, k), sort)
    def assume(s, f, guarded=False):
        f = Z(f)
        if z3.is_true(f): return
        if s.guards and not guarded: f = z3.Implies(z3.And(*s.guards), f)
        if z3.is_and(f):
            for x in f.children(): s.assume(x, True)
            return
        if z3.is_implies(f) and z3.is_and(f.arg(1)):
            for x in f.arg(1).children(): s.assume(z3.Implies(f.arg(0), x), True)
            return
        h = f.get_id()
        if h in s.facts: return
        s.facts.add(h); s.pc.append(f); s.solver.add(f)
        if not quantified(f): s.qf.add(f)
    def check(s, *extra, timeout=None):
        t = time.time(); s.nq += 1
        if timeout: s.solver.set('timeout', timeout)
        r = s.solver.check(*extra)
        if timeout: s.solver.set('timeout', s.timeout)
        s.solver_time += time.time() - t
        if SLOW and time.time() - t > SLOW: print('SLOW check %.0f %s' % (time.time() - t, s.taken), flush=True)
        return r
    def feasible(s, cond):
        """False only when the branch is certainly unreachable"""
        t = time.time(); s.nq += 1
        r = s.qf.check(cond)
        s.solver_time += time.time() - t
        if SLOW and time.time() - t > SLOW: print('SLOW feasible %.0f %s' % (time.time() - t, s.taken), flush=True)
        if r == z3.unsat: return False
        if getattr(s.spec, 'deep', False): return s.check(cond, timeout=1000) != z3.unsat
        return True
    def decide(s, cond):
        cond = z3.simplify(Z(cond))
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if s.pos < len(s.prefix):
            d = s.prefix[s.pos]; s.pos += 1
            s.taken.append(d); s.assume(cond if d else z3.Not(cond)); return d
        s.pos += 1
        can_t = s.feasible(cond)
        if not can_t:
            s.taken.append(False); s.assume(z3.Not(cond)); return False
        can_f = s.feasible(z3.Not(cond))
        if can_f: s.alts.append(tuple(s.taken) + (False,))
        s.taken.append(True); s.assume(cond)
        return True
    def oblige(s, kind, label, goal):
        goal = Z(goal)
        if z3.is_and(goal) and goal.num_args() > 1:
            for i, g in enumerate(goal.children()): s.oblige(kind, label if label.endswith(']') else '%s [%d]' % (label, i + 1), g)
            return
        if z3.is_implies(goal) and z3.is_and(goal.arg(1)):
            for i, g in enumerate(goal.arg(1).children()): s.oblige(kind, label if label.endswith(']') else '%s [%d]' % (label, i + 1), z3.Implies(goal.arg(0), g))
            return
        if z3.is_quantifier(goal) and goal.is_forall() and not s.guards:      # skolemise, then split the body
            vs = [s.fresh('sk_' + goal.var_name(i).strip('?'), goal.var_sort(i)) for i in range(goal.num_vars())]
            b = z3.substitute_vars(goal.body(), *reversed(vs))
            if z3.is_and(b) or z3.is_implies(b) and z3.is_and(b.arg(1)):
                bs = b.children() if z3.is_and(b) else [z3.Implies(b.arg(0), x) for x in b.arg(1).children()]
                for i, g in enumerate(bs): s.prove(kind, label if label.endswith(']') else '%s [%d]' % (label, i + 1), g, vs)
            else: s.prove(kind, label, b, vs)
            s.assume(goal, guarded=True)
            return
        s.prove(kind, label, goal)
    def prove(s, kind, label, goal, sk=None):
        if s.guards: goal = z3.Implies(z3.And(*s.guards), goal)
        fn = s.fname
        if s.stack and s.stack[-1].fn != s.fname: label = '%s@%s' % (label, s.stack[-1].fn)
        if s.pos < len(s.prefix):
            if sk is None: s.assume(goal, True)
            return     # checked on the path this one forked from
        if s.trial:
            if sk is None: s.assume(goal, True)
            return
        if kind in getattr(s.spec, 'takes', ()):      # safety taken from other contracts (stated in the evidence)
            if sk is None: s.assume(goal, True)
            s.loopassume.add('%s: %s obligations are assumed here' % (s.fname, kind)); return
        ob = Ob(fn=fn, kind=kind, label=label, status='proved', by='simplifier', time=0.0)
        if s.badlabels.get((kind, label), 0) >= 2:
            ob.status = 'skipped'; ob.by = None; s.obs.append(ob)
            if sk is None: s.assume(goal, True)
            return
        g = z3.simplify(goal)
        if not z3.is_true(g):
            t = time.time()
            s.nq += 1
            if not quantified(goal) and s.qf.check(z3.Not(goal)) == z3.unsat: r = z3.unsat
            elif sk and not quantified(goal) and s.atsk(goal, sk): r = z3.unsat
            else: r = None
            s.solver.push()
            if r is None:
                s.solver.add(z3.Not(goal)); r = s.solver.check()
            dt = time.time() - t; s.solver_time += dt; ob.time = dt
            if SLOW and dt > SLOW: print('SLOW %.0f %s %s %s %s' % (dt, fn, kind, label, s.taken), flush=True)
            ob.by = 'z3'
            if r == z3.unsat: pass
            else:
                reason = s.solver.reason_unknown() if r == z3.unknown else ''
                model = None
                if r == z3.sat:
                    try: model = str(s.solver.model())[:4000]
                    except z3.Z3Exception: pass
                s.solver.pop(); s.solver.push()
                ok, by, dt2 = s.second(goal)
                s.solver_time += dt2; ob.time += dt2
                if ok: ob.by = by
                else:
                    s.badlabels[(kind, label)] = s.badlabels.get((kind, label), 0) + 1
                    ob.status = 'refuted' if r == z3.sat else ('failed' if 'incomplete' in reason else 'unknown')
                    ob.info = {'reason': reason, 'model': model, 'goal': str(goal)[:1500], 'path': list(s.taken),
                               'hyps': [str(h)[:300] for h in s.pc[-12:]]}
            s.solver.pop()
        s.obs.append(ob)
        if sk is None: s.assume(goal, guarded=True)
    def atsk(s, goal, sk):
        s.qf.set('timeout', 2000)
        try: return s.qf.check(z3.Not(goal), *s.instances(sk)) == z3.unsat
        finally: s.qf.set('timeout', 400)
    def instances(s, sk):
        """universally quantified hypotheses at the skolem constants"""
        out = []
        for h in s.pc:
            g = []
            while z3.is_implies(h): g.append(h.arg(0)); h = h.arg(1)
            if z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1:
                for v in sk:
                    if v.sort() != h.var_sort(0): continue
                    b = z3.substitute_vars(h.body(), v)
                    if quantified(b): continue
                    out.append(z3.Implies(z3.And(*g), b) if g else b)
        return out
    def second(s, goal):
        """second opinion: a fresh z3 solver, then cvc5"""
        t = time.time()
        sol = z3.Solver(); sol.set('timeout', s.timeout); sol.add(*s.pc); sol.add(z3.Not(goal))
        from . import back
        try: text = sol.to_smt2()
        except Exception: text = None
        if text and any(back.z3_unsat(text, min(s.timeout, t), o) for o, t in (([], 12000), (['auto_config=false', 'smt.mbqi=false', 'smt.relevancy=2'], 8000))): return True, 'z3-fresh', time.time() - t
        sol.set('timeout', min(s.timeout, 6000))
        if sol.check() == z3.unsat: return True, 'z3-fresh', time.time() - t
        try:
            if back.cvc5_unsat(sol.to_smt2(), min(s.timeout, 6000)): return True, 'cvc5', time.time() - t
        except ImportError: pass
        return False, None, time.time() - t
    # ---------------------------------------------------------------- memory
    def mkroot(s, id, ty, sizes=None, region=False, fresh=False):
        if id in s.roots: return s.roots[id]
        r = Root(id, ty, sizes, region, fresh); s.seq += 1; r.seq = s.seq
        s.roots[id] = r; return r
    def keyof(s, path):
        key, idxs = [], []
        for k, x in path:
            if k == 'f': key.append(x)
            else: key.append('[]'); idxs.append(x)
        return tuple(key), idxs
    def typeat(s, ty, key):
        for k in key:
            if k == '[]':
                if ty.k != 'arr': raise Undecided('index into %r' % ty)
                ty = ty.a
            else:
                if ty.k != 'struct': raise Undecided('field %s of %r' % (k, ty))
                for f, t, u in s.tu.fields(ty.a):
                    if f == k: ty = t; break
                else: raise Undecided('no field %s in %s' % (k, ty.a))
        return ty
    def leaves(s, ty, key=()):
        if ty.k == 'struct':
            r = []
            for f, t, u in s.tu.fields(ty.a): r += s.leaves(t, key + (f,))
            return r
        if ty.k == 'arr': return s.leaves(ty.a, key + ('[]',))
        return [(key, ty)]
    def siblings(s, ty, key):
        """other members of the union the leaf belongs to"""
        out = []
        for n in range(len(key)):
            if key[n] == '[]': continue
            t = s.typeat(ty, key[:n])
            fs = s.tu.fields(t.a)
            u = [x for f, _, x in fs if f == key[n]][0]
            if u:
                for f, ft, x in fs:
                    if x == u and f != key[n]:
                        for k2, t2 in s.leaves(ft, key[:n] + (f,)): out.append((k2, t2))
        return out
    def regionof(s, rootty, key, leafty):
        """region a pointer leaf refers into, or None"""
        R = s.mod.regions
        n = len(key) - 1
        while n >= 0 and key[n] == '[]': n -= 1
        if n >= 0:
            t = s.typeat(rootty, key[:n])
            if t.k == 'struct' and (t.a, key[n]) in R: return R[(t.a, key[n])]
        return R.get(repr(leafty))
    def region(s, name):
        rid = 'R:' + name
        if rid in s.roots: return s.roots[rid]
        ty = s.mod.regions['#' + name]
        return s.mkroot(rid, Ty('arr', s.parsety(ty)), region=True)
    def parsety(s, t): return t if isinstance(t, Ty) else s.tu.ty(t)
    def sort(s, ty, nd):
        b = FP if ty.k == 'dbl' else INT
        for _ in range(nd): b = z3.ArraySort(INT, b)
        return b
    def nd(s, key): return sum(1 for k in key if k == '[]')
    def initname(s, root, key): return root.id + '.' + '.'.join(key)
    def raw(s, root, key, snap=None):
        """stored value of a leaf (z3 term, or Ptr for an undimensioned pointer)"""
        m = (s.mem if snap is None else snap).get(root.id)
        if m is not None and key in m: return m[key]
        # initial value
        ty = s.typeat(root.ty, key if not key or key[-1] != '?' else key[:-1])
        nd = s.nd(key)
        if key and key[-1] == '?':
            b = z3.BoolSort()
            for _ in range(nd): b = z3.ArraySort(INT, b)
            v = z3.Const(s.initname(root, key), b)
        elif ty.k == 'ptr' and not nd and not s.regionof(root.ty, key, ty):
            v = s.childptr(root, key, ty, [], z3.Const(s.initname(root, key) + '.null', z3.BoolSort()))
        else:
            v = z3.Const(s.initname(root, key), s.sort(ty, nd))
        return v
    def childptr(s, root, key, ty, idxs, null):
        """pointer stored in a leaf owned by its container: its target is the child root"""
        cid = root.id + '.' + '.'.join(key) + '*'
        el = ty.a
        nd = s.nd(key)
        buf = not (el.k == 'struct' and el.a not in s.mod.buf)
        cty = Ty('arr', el) if buf else el
        for _ in range(nd): cty = Ty('arr', cty)
        r = s.mkroot(cid, cty, fresh=root.fresh)
        path = tuple(('i', i) for i in idxs) + ((('i', iv(0)),) if buf else ())
        return Ptr(r, path, null)
    def leafterm(s, root, key, snap=None):
        v = s.raw(root, key, snap)
        return v
    def assume_range(s, t, ty):
        if ty.k == 'int' and isz(t) and not is_num(t):
            lo, hi = rng(ty); s.assume(z3.And(t >= lo, t <= hi))
    def load(s, p, snap=None, check=True):
        s.ckptr(p, check)
        root = p.root; key, idxs = s.keyof(p.path)
        ty = s.typeat(root.ty, key)
        if check: s.bounds(p)
        return s.loadk(root, key, idxs, ty, snap)
    def loadk(s, root, key, idxs, ty, snap=None):
        if ty.k in ('struct', 'arr'):
            lv = {}
            for k, t in s.leaves(ty):
                if t.k == 'ptr' and not s.nd(key + k) and not (s.bound and s.regionof(root.ty, key + k, t) in s.bound): lv[k] = s.raw(root, key + k, snap); continue
                if t.k == 'ptr' and not s.regionof(root.ty, key + k, t):
                    lv[k] = UnknownPtr('pointer inside a copied array') if s.nd(k) else s.loadk(root, key + k, idxs, t, snap)
                    continue
                x = s.raw(root, key + k, snap)
                for i in idxs: x = sel(x, i)
                if not s.nd(k):
                    s.assume_range(x, t)
                    if t.k == 'ptr': x = s.refptr(root, key + k, t, x)
                lv[k] = x
            return SV(ty, lv)
        if ty.k == 'ptr':
            rg = s.regionof(root.ty, key, ty)
            if rg:
                x = s.raw(root, key, snap)
                for i in idxs: x = sel(x, i)
                return s.refptr(root, key, ty, x)
            if not idxs: return s.raw(root, key, snap)
            nf = s.raw(root, key + ('?',), snap)
            for i in idxs: nf = sel(nf, i)
            return s.childptr(root, key, ty, idxs, nf)
        x = s.raw(root, key, snap)
        for i in idxs: x = sel(x, i)
        s.assume_range(x, ty)
        return x
    def refptr(s, root, key, ty, x):
        rg = s.regionof(root.ty, key, ty)
        if rg in s.bound: return Ptr(s.bound[rg], (('i', x - 1),), x == 0)
        r = s.region(rg)
        buf = r.ty.a.k == 'arr'
        return Ptr(r, (('i', x),) + ((('i', iv(0)),) if buf else ()), x == 0)
    def toref(s, p):
        """Int reference of a pointer into a region (0 for NULL)"""
        if p.root is None: return iv(0)
        if s.bound and any(p.root is r for r in s.bound.values()) and len(p.path) == 1: return p.off + 1 if p.null is False else z3.If(Z(p.null), 0, p.off + 1)
        if p.root.region:
            if len(p.path) > 1 and not (is_num(p.path[-1][1]) and p.path[-1][1].as_long() == 0): raise Undecided('interior pointer stored in a region field')
            x = p.path[0][1]
            return x
        return None
    def ckptr(s, p, check):
        if isinstance(p, UnknownPtr): raise Undecided('untracked pointer: ' + p.why)
        if not isinstance(p, Ptr): raise Undecided('not a pointer: %r' % (p,))
        if p.root is None:
            if check: s.oblige('null', 'dereference of NULL', F)
            raise Undecided('NULL dereference') if not check else PathEnd()
        if check and p.null is not False: s.oblige('null', 'pointer is not NULL', z3.Not(Z(p.null)))
    def bounds(s, p):
        ty = p.root.ty; n = 0; lead = []
        for k, x in p.path:
            if k == 'i':
                if ty.n is not None: size = iv(ty.n)
                else:
                    f = p.root.sizes.get(n)
                    size = f(lead) if callable(f) else f
                if size is not None and not (n == 0 and p.root.region):
                    s.oblige('bounds', 'index within %s' % s.rootname(p.root), z3.And(x >= 0, x < size))
                lead.append(x); n += 1; ty = ty.a
            else: ty = s.typeat(ty, (x,))
    def rootname(s, r): return r.id.split('#')[0]
    def dirty(s, root, key):
        """record a write for the enclosing loops"""
        for (lk, seq, pend) in s.active:
            if root.seq <= seq: pend.add((root.id, key))
    def setraw(s, root, key, v):
        s.dirty(root, key)
        s.mem.setdefault(root.id, {})[key] = v
    def snapshot(s): return {r: dict(m) for r, m in s.mem.items()}
    def store(s, p, v, check=True):
        s.ckptr(p, check)
        root = p.root; key, idxs = s.keyof(p.path)
        ty = s.typeat(root.ty, key)
        if check: s.bounds(p)
        s.storek(root, key, idxs, ty, v)
        for k2, t2 in s.siblings(root.ty, key):
            s.havoc_leaf(root, k2, t2, idxs)
    def storek(s, root, key, idxs, ty, v):
        if ty.k in ('struct', 'arr'):
            if not isinstance(v, SV): raise Undecided('struct store of %r' % (v,))
            for k, t in s.leaves(ty):
                x = v.leaves.get(k)
                if x is None: continue
                if t.k == 'ptr' and not s.nd(k): s.storek(root, key + k, idxs, t, x)
                elif isinstance(x, UnknownPtr): s.havoc_leaf(root, key + k, t, idxs)
                else: s.setraw(root, key + k, upd(s.raw(root, key + k), idxs, x))
            return
        if ty.k == 'ptr':
            rg = s.regionof(root.ty, key, ty)
            if rg:
                if isinstance(v, UnknownPtr): s.havoc_leaf(root, key, ty, idxs); return
                ref = s.toref(v)
                if ref is None: ref = s.into_region(v, rg)
                s.setraw(root, key, upd(s.raw(root, key), idxs, ref)); return
            if not idxs: s.setraw(root, key, v); return
            if key[-1] in s.mod.untracked:      # a plain pointer: only whether it is NULL is kept
                s.setraw(root, key + ('?',), upd(s.raw(root, key + ('?',)), idxs, s.fresh('null', z3.BoolSort()) if isinstance(v, UnknownPtr) else Z(v.null) if v.root is not None else T)); return
            # owned: NULL, or a fresh object that moves in
            if isinstance(v, UnknownPtr): raise Undecided('untracked pointer stored in a pointer array')
            s.setraw(root, key + ('?',), upd(s.raw(root, key + ('?',)), idxs, Z(v.null) if v.root is not None else T))
            if v.root is not None: s.movein(root, key, ty, idxs, v)
            return
        if isinstance(v, (SV, Ptr, UnknownPtr)): raise Undecided('store of %r to %r' % (v, ty))
        s.setraw(root, key, upd(s.raw(root, key), idxs, v))
    def movein(s, root, key, ty, idxs, v):
        cp = s.childptr(root, key, ty, idxs, False)
        if v.root is cp.root: return           # already the same object
        z = s.movedin[(root.id, key)] = v.root.sizes.get(len(v.path) - 1)
        if z is not None and not callable(z) and len(idxs) == 1 and len(cp.path) == 2 and cp.root.sizes.get(1) in (None, s.rowsize.get(cp.root.id)):
            s.rowsize[cp.root.id] = cp.root.sizes[1] = lambda lead, i=idxs[0], z=z: z if z3.eq(lead[-1], i) else None
        sk, si = s.keyof(v.path)
        buf = v.path and v.path[-1][0] == 'i'
        if buf:
            if not (is_num(v.path[-1][1]) and v.path[-1][1].as_long() == 0): raise Undecided('interior pointer stored in a pointer array')
            sk, si = sk[:-1], si[:-1]
        dk, di = s.keyof(cp.path)
        if buf: dk, di = dk[:-1], di[:-1]
        ety = s.typeat(v.root.ty, sk)
        for k, t in s.leaves(ety):
            x = s.raw(v.root, sk + k)
            for i in si: x = sel(x, i)
            if isinstance(x, (Ptr, UnknownPtr)): raise Undecided('pointer-bearing object moved into an array: %s %s %s' % (cp.root.id, dk, k))
            s.setraw(cp.root, dk + k, upd(s.raw(cp.root, dk + k), di, x))
    def into_region(s, v, rg):
        r = s.region(rg)
        ref = s.fresh('ref_' + rg)
        s.assume(ref > 0)
        for o in s.alloc: s.assume(ref != o)
        s.alloc.append(ref)
        if s.mod.regions.get('&' + rg): s.mod.regions['&' + rg](s, ref)
        sk, si = s.keyof(v.path)
        if v.path and v.path[-1][0] == 'i': sk, si = sk[:-1], si[:-1]
        ety = s.typeat(v.root.ty, sk)
        for k, t in s.leaves(ety):
            x = s.raw(v.root, sk + k)
            for i in si: x = sel(x, i)
            if isinstance(x, UnknownPtr): s.havoc_leaf(r, ('[]',) + k, t, [ref]); continue
            if isinstance(x, Ptr):
                x = s.toref(x)
                if x is None: raise Undecided('nested object moved into a region')
            s.setraw(r, ('[]',) + k, upd(s.raw(r, ('[]',) + k), [ref], x))
        return ref
    def havoc_leaf(s, root, key, ty, idxs=()):
        nm = s.initname(root, key)
        nd = s.nd(key) - len(idxs)
        if ty.k == 'ptr' and not s.regionof(root.ty, key, ty):
            if s.nd(key) == 0:
                cur = s.raw(root, key)
                if isinstance(cur, Ptr) and cur.root is not None and cur.root.region:
                    x = s.fresh(nm); s.assume(x >= 0)
                    v = Ptr(cur.root, (('i', x),) + cur.path[1:], x == 0)
                elif isinstance(cur, Ptr) and cur.root is not None and cur.path and cur.path[-1][0] == 'i':
                    v = Ptr(cur.root, cur.path[:-1] + (('i', s.fresh(nm)),), False if cur.null is False else s.fresh(nm + '.null', z3.BoolSort()))
                elif isinstance(cur, Ptr) and cur.root is not None and cur.null is not False:
                    v = Ptr(cur.root, cur.path, s.fresh(nm + '.null', z3.BoolSort()))
                else: v = UnknownPtr(nm)
                s.setraw(root, key, v)
            else:
                b = z3.BoolSort()
                for _ in range(nd): b = z3.ArraySort(INT, b)
                s.setraw(root, key + ('?',), upd(s.raw(root, key + ('?',)), list(idxs), s.fresh(nm + '.null', b)))
            return
        v = s.fresh(nm, s.sort(ty, nd))
        if nd == 0: s.assume_range(v, ty)
        s.setraw(root, key, upd(s.raw(root, key), list(idxs), v))
    def havoc_at(s, p):
        """havoc everything stored at the location p points to"""
        key, idxs = s.keyof(p.path)
        ty = s.typeat(p.root.ty, key)
        for k, t in s.leaves(ty): s.havoc_leaf(p.root, key + k, t, idxs)
    def havoc_buf(s, p):
        """havoc the whole buffer p points into"""
        key, idxs = s.keyof(p.path)
        ty = s.typeat(p.root.ty, key)
        for k, t in s.leaves(ty): s.havoc_leaf(p.root, key + k, t, idxs[:-1])
    def copyptr_static(s): pass
    # ---------------------------------------------------------------- locals
    def local(s, frame, name):
        if name in frame.names: return frame.names[name]
        alt = s.rolemap(frame).get(name)
        if alt and alt in frame.names: return frame.names[alt]
        raise Undecided('no local variable %s in %s' % (name, frame.fn))
    def rolemap(s, frame):
        base = s.mod.roles.get(frame.fn)
        if not base: return {}
        cur = declared(s.tu, frame.decl)
        return role_map(base, cur)

    # ================================================================ values
    def asint(s, v):
        if isz(v) and z3.is_bool(v):
            if z3.is_true(v): return iv(1)
            if z3.is_false(v): return iv(0)
            return z3.If(v, iv(1), iv(0))
        return v
    def truth(s, v):
        if isinstance(v, UnknownPtr): raise Undecided('truth of untracked pointer ' + v.why)
        if isinstance(v, Ptr): return z3.Not(Z(v.null)) if v.root is not None else F
        if isinstance(v, Alloc): return T
        if z3.is_bool(v): return v
        if z3.is_fp(v): return z3.Not(z3.fpEQ(v, z3.FPVal(0.0, FP)))
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and is_num(v.arg(1)) and is_num(v.arg(2)) and \
           v.arg(1).as_long() == 1 and v.arg(2).as_long() == 0: return v.arg(0)
        if is_num(v): return z3.BoolVal(v.as_long() != 0)
        return v != 0
    def sizeof(s, ty):
        a, n = s.layout(ty); return n
    def layout(s, ty):
        if ty.k == 'int': return max(1, ty.a // 8), max(1, ty.a // 8)
        if ty.k in ('ptr', 'dbl', 'fn'): return 8, 8
        if ty.k == 'void': return 1, 1
        if ty.k == 'arr': a, n = s.layout(ty.a); return a, n * ty.n
        if ty.k == 'struct':
            off, al = 0, 1; groups = {}
            for f, t, u in s.tu.fields(ty.a):
                a, n = s.layout(t); al = max(al, a)
                if u:
                    if u in groups: off = max(off, groups[u] + n); continue
                    off = (off + a - 1) // a * a; groups[u] = off; off += n; continue
                off = (off + a - 1) // a * a + n
            return al, (off + al - 1) // al * al
        raise Undecided('sizeof %r' % ty)
    def freshval(s, name, ty):
        if ty.k == 'int':
            v = s.fresh(name); s.assume_range(v, ty); return v
        if ty.k == 'dbl': return s.fresh(name, FP)
        if ty.k == 'struct':
            lv = {}
            for k, t in s.leaves(ty):
                if t.k == 'ptr' and not s.nd(k):
                    rg = s.regionof(ty, k, t)
                    lv[k] = s.refto(rg, s.fresh(name)) if rg else UnknownPtr(name)
                elif t.k == 'ptr': lv[k] = UnknownPtr(name)
                else:
                    lv[k] = s.fresh(name + '.' + '.'.join(k), s.sort(t, s.nd(k)))
                    if not s.nd(k): s.assume_range(lv[k], t)
            return SV(ty, lv)
        if ty.k == 'ptr':
            rg = s.mod.regions.get(repr(ty))
            if rg: return s.refto(rg, s.fresh(name))
            return UnknownPtr('result of ' + name)
        if ty.k == 'void': return None
        raise Undecided('fresh %r' % ty)
    def refto(s, rg, x):
        r = s.region(rg)
        s.assume(x >= 0)
        return Ptr(r, (('i', x),) + ((('i', iv(0)),) if r.ty.a.k == 'arr' else ()), x == 0)
    def newobj(s, hint, ty, size=None):
        k = s.ctr.get('@' + hint, 0); s.ctr['@' + hint] = k + 1
        r = s.mkroot('%s#%d' % (hint, k), ty, fresh=True)
        if size is not None: r.sizes[0] = size
        return r
    def strlit(s, text):
        b = text.encode('latin-1')
        rid = 'lit:' + repr(text)
        r = s.mkroot(rid, Ty('arr', Ty('int', 8, 1), len(b) + 1))
        if rid not in s.mem:
            a = z3.K(INT, iv(0))
            for i, ch in enumerate(b): a = z3.Store(a, i, ch)
            s.mem[rid] = {('[]',): a}
        s.litroots[rid] = b
        return Ptr(r, (('i', iv(0)),), False)

    # ================================================================ expressions
    def lv(s, n):
        k = n['kind']
        if k == 'ParenExpr': return s.lv(n['inner'][0])
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            r = s.frame.vars.get(d['id'])
            if r is None: r = s.globalvar(d)
            return Ptr(r)
        if k == 'MemberExpr':
            b = n['inner'][0]
            if not n.get('name'):      # anonymous union
                return s.ptrto(b) if n.get('isArrow') else s.lvmaybe(b)
            p = s.ptrto(b) if n.get('isArrow') else s.lvmaybe(b)
            if not isinstance(p, Ptr): s.ckptr(p, True)
            if n.get('isArrow') and p.root is not None and p.null is not False: s.ckptr(p, True)
            elif p.root is None: s.ckptr(p, True)
            return Ptr(p.root, p.path + (('f', n['name']),), False)
        if k == 'ArraySubscriptExpr':
            p = s.ev(n['inner'][0]); i = s.asint(s.ev(n['inner'][1]))
            s.ckptr(p, True)
            return p.add(i)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = s.ev(n['inner'][0])
            s.ckptr(p, True)
            return Ptr(p.root, p.path, False)
        if k == 'StringLiteral':
            return Ptr(s.strlit(unq(n['value'])).root)
        if k == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp', 'LValueBitCast'): return s.lv(n['inner'][0])
        raise Undecided('lvalue %s' % k)
    def ptrto(s, b):
        return s.ev(b)
    def lvmaybe(s, b):
        """object of a '.' access; rvalue structs get a temporary"""
        try_k = b['kind']
        if try_k in ('CallExpr',) or (try_k == 'ImplicitCastExpr'):
            v = s.ev(b)
            r = s.newobj('tmp', s.tu.tyof(b)); s.store(Ptr(r), v, check=False); return Ptr(r)
        return s.lv(b)
    def globalvar(s, d):
        g = s.tu.globals.get(d['id'])
        if g is None: raise Undecided('global %s' % d.get('name'))
        ty = s.tu.tyof(g)
        r = s.mkroot('g.' + g['name'], ty)
        if r.id not in s.mem and g.get('init') and g.get('inner') and not s.tu.assigned(g['id']):
            s.mem[r.id] = {}
            v = s.ev(g['inner'][-1])
            s.store(Ptr(r), s.coerce(v, ty), check=False)
        return r
    def coerce(s, v, ty):
        if ty.k == 'int':
            v = s.asint(v)
            return v
        if isinstance(v, Alloc): return v.to(s, ty)
        return v
    def ev(s, n):
        f = getattr(s, 'e_' + n['kind'], None)
        if f is None: raise Undecided('expression ' + n['kind'])
        return f(n)
    def e_ParenExpr(s, n): return s.ev(n['inner'][0])
    def e_ConstantExpr(s, n): return s.ev(n['inner'][0])
    def e_ExprWithCleanups(s, n): return s.ev(n['inner'][0])
    def e_IntegerLiteral(s, n): return iv(int(n['value']))
    def e_CharacterLiteral(s, n):
        v = n['value']
        return iv(v)
    def e_CXXBoolLiteralExpr(s, n): return z3.BoolVal(n['value'])
    def e_CXXNullPtrLiteralExpr(s, n): return NULL
    def e_FloatingLiteral(s, n): return z3.FPVal(float(n['value']), FP)
    def e_StringLiteral(s, n): return s.strlit(unq(n['value']))
    def e_GNUNullExpr(s, n): return iv(0)
    def e_DeclRefExpr(s, n):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            if d['name'] not in s.tu.enums: raise Undecided('enum ' + d['name'])
            return iv(s.tu.enums[d['name']])
        if d['kind'] == 'FunctionDecl': return FnVal(d['name'])
        return s.load(s.lv(n))
    def e_MemberExpr(s, n): return s.load(s.lv(n))
    def e_ArraySubscriptExpr(s, n): return s.load(s.lv(n))
    def e_UnaryExprOrTypeTraitExpr(s, n):
        if n.get('name') != 'sizeof': raise Undecided('trait')
        if 'argType' in n: t = s.tu.ty(n['argType']['qualType'])
        else: t = s.tu.tyof(n['inner'][0])
        return iv(s.sizeof(t))
    def e_CStyleCastExpr(s, n): return s.cast(n)
    def e_ImplicitCastExpr(s, n): return s.cast(n)
    def e_CXXFunctionalCastExpr(s, n): return s.cast(n)
    def e_CXXStaticCastExpr(s, n): return s.cast(n)
    def e_CXXReinterpretCastExpr(s, n): return s.cast(n)
    def cast(s, n):
        ck = n['castKind']; sub = n['inner'][0]
        if ck == 'LValueToRValue':
            p = s.lv(sub)
            return s.load(p)
        if ck == 'ArrayToPointerDecay':
            p = s.lv(sub)
            return Ptr(p.root, p.path + (('i', iv(0)),), False)
        if ck == 'FunctionToPointerDecay' or ck == 'BuiltinFnToFnPtr': return s.ev(sub)
        if ck == 'NoOp': return s.ev(sub)
        if ck == 'ToVoid': s.ev(sub); return None
        if ck == 'NullToPointer':
            s.ev(sub); return NULL
        if ck == 'BitCast':
            v = s.ev(sub); ty = s.tu.tyof(n)
            if isinstance(v, Alloc): return v if ty.k == 'ptr' and ty.a.k == 'void' else v.to(s, ty)
            if ty.k == 'ptr' and isinstance(v, Ptr) and v.root is not None and ty.a.k not in ('void',):
                src = s.tu.tyof(sub)
                if src.k == 'ptr' and src.a.k == 'void': return v      # round trip through void*: typed by its root
                if src == ty: return v
                if src.k == 'ptr' and src.a.k == 'int' and ty.a.k == 'int' and src.a.a == ty.a.a: return v
                return UnknownPtr('reinterpreted pointer %r -> %r' % (src, ty))
            return v
        v = s.ev(sub)
        if ck == 'IntegralCast' or ck == 'IntegralToBoolean' and False:
            ty = s.tu.tyof(n); v = s.asint(v)
            src = s.tu.tyof(sub)
            return s.convert(v, src, ty)
        if ck == 'IntegralToBoolean' or ck == 'PointerToBoolean' or ck == 'FloatingToBoolean': return s.truth(v)
        if ck == 'IntegralToFloating':
            v = s.asint(v)
            if is_num(v): return z3.FPVal(float(v.as_long()), FP)
            return s.uf('i2d', INT, FP)(v)
        if ck == 'FloatingToIntegral':
            w = s.uf('d2i', FP, INT)(v); ty = s.tu.tyof(n); b = ty.a
            if b == 64 and ty.n: return w
            nw = s.uf('d2%s%d' % ('i' if ty.n else 'u', b), FP, INT)(v); lo, hi = (-2**(b - 1), 2**(b - 1)) if ty.n else (0, 2**b)      # a narrower integer: the same value if it is one, otherwise undefined
            s.assume(z3.And(nw >= lo, nw < hi)); s.assume(z3.Implies(z3.And(w >= lo, w < hi), nw == w)); return nw
        if ck == 'FloatingCast':
            if n['type'].get('desugaredQualType', n['type']['qualType']) == 'float': return z3.fpFPToFP(z3.RNE(), z3.fpFPToFP(z3.RNE(), v, z3.Float32()), FP)     # rounded to single precision
            return v
        if ck == 'IntegralToPointer':
            if is_num(v) and v.as_long() == 0: return NULL
        if ck == 'PointerToIntegral':
            raise Undecided('pointer to integer')
        raise Undecided('cast ' + ck)
    def uf(s, name, *sorts): return z3.Function(name, *sorts)
    def convert(s, v, src, ty):
        if ty.k != 'int': return v
        lo, hi = rng(ty)
        if is_num(v):
            x = v.as_long()
            if lo <= x <= hi: return v
            m = 1 << ty.a; x %= m
            if ty.n and x > hi: x -= m
            return iv(x)
        if src.k == 'int':
            l2, h2 = rng(src)
            if l2 >= lo and h2 <= hi: return v
        if ty.a == 8 and ty.n:          # a byte held in an int becomes a (signed) char
            s.oblige('conv', 'value is a byte', z3.And(v >= -128, v <= 255)); x = s.fresh('char'); s.assume(x == z3.If(v > 127, v - 256, v)); return x
        s.oblige('conv', 'value fits %r' % ty, z3.And(v >= lo, v <= hi))
        return v
    def e_InitListExpr(s, n): raise Undecided('init list as a value')
    def e_ConditionalOperator(s, n):
        c = s.truth(s.ev(n['inner'][0]))
        return s.ev(n['inner'][1 if s.decide(c) else 2])
    def e_UnaryOperator(s, n):
        op = n['opcode']; sub = n['inner'][0]
        if op == '&':
            p = s.lv(sub)
            return Ptr(p.root, p.path, False)
        if op == '*': return s.load(s.lv(n))
        if op == '!': return z3.Not(s.truth(s.ev(sub)))
        if op == '-':
            v = s.ev(sub)
            if z3.is_fp(v): return z3.fpNeg(v)
            v = s.asint(v)
            if is_num(v): return iv(-v.as_long())
            ty = s.tu.tyof(n)
            return s.arith('-', iv(0), v, ty)
        if op == '+': return s.ev(sub)
        if op == '~':
            v = s.asint(s.ev(sub))
            return iv(~v.as_long()) if is_num(v) else -v - 1
        if op in ('++', '--'):
            p = s.lv(sub); v = s.load(p); ty = s.tu.tyof(sub)
            d = iv(1) if op == '++' else iv(-1)
            if ty.k == 'ptr':
                s.ckptr(v, True); nv = v.add(d)
            elif ty.k == 'dbl': nv = z3.fpAdd(RNE, v, z3.FPVal(float(d.as_long()), FP))
            else: nv = s.rangeck(addt(v, d), ty)
            s.store(p, nv)
            return v if n.get('isPostfix') else nv
        if op == '__extension__': return s.ev(sub)
        raise Undecided('unary ' + op)
    def rangeck(s, v, ty):
        if is_num(v):
            lo, hi = rng(ty); x = v.as_long()
            if lo <= x <= hi: return v
            if not ty.n: return iv(x % (1 << ty.a))
        lo, hi = rng(ty)
        s.oblige('overflow', 'no wrap-around in %r' % ty, z3.And(v >= lo, v <= hi))
        return v
    def arith(s, op, a, b, ty):
        if ty.k == 'dbl' or z3.is_fp(a):
            f = {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}.get(op)
            if f is None: raise Undecided('fp ' + op)
            return f(RNE, a, b)
        a, b = s.asint(a), s.asint(b)
        if op == '+': return s.rangeck(addt(a, b), ty)
        if op == '-':
            if z3.eq(a, b): return iv(0)
            return s.rangeck(addt(a, iv(-b.as_long())) if is_num(b) else a - b, ty)
        if op == '*':
            if is_num(a) and is_num(b): return s.rangeck(iv(a.as_long() * b.as_long()), ty)
            return s.rangeck(a * b, ty)
        if op in ('/', '%'):
            s.oblige('div', 'divisor is not zero', b != 0)
            if is_num(a) and is_num(b) and b.as_long():
                x, y = a.as_long(), b.as_long()
                q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
                return iv(q if op == '/' else x - q * y)
            if op == '/':
                q = z3.If(a >= 0, a / b, -((-a) / b))
                if is_num(b): return q
                r = s.fresh('quotient'); s.assume(r == q); s.assume(z3.Implies(z3.And(a >= 0, b > 0), z3.And(r >= 0, r <= a))); s.assume(z3.Implies(z3.And(a >= 1, b > 1), r < a))
                return s.rangeck(r, ty)
            return z3.If(a >= 0, a % b, -((-a) % b))
        if op == '<<' and is_num(b): return s.rangeck(a * iv(1 << b.as_long()), ty)
        if op == '>>' and is_num(b): return a / iv(1 << b.as_long())
        if op == '&' and is_num(b) and b.as_long() >= 0 and (b.as_long() & (b.as_long() + 1)) == 0: return a % iv(b.as_long() + 1)
        if is_num(a) and is_num(b):
            x, y = a.as_long(), b.as_long()
            return iv({'&': x & y, '|': x | y, '^': x ^ y}[op])
        if op in '&|^':
            w = max(ty.a, 8)
            r = z3.BV2Int({'&': lambda x, y: x & y, '|': lambda x, y: x | y, '^': lambda x, y: x ^ y}[op](z3.Int2BV(a, w), z3.Int2BV(b, w)), bool(ty.n))
            return r
        raise Undecided('operator ' + op)
    PURE_BAD = {'CallExpr', 'CompoundAssignOperator', 'ConditionalOperator', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'}
    def pure(s, n):
        k = n.get('kind')
        if k in s.PURE_BAD: return False
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'): return False
        if k == 'BinaryOperator' and n['opcode'] == '=': return False
        return all(s.pure(c) for c in n.get('inner', []) if isinstance(c, dict))
    def e_BinaryOperator(s, n):
        op = n['opcode']; L, R = n['inner']
        if op == '=':
            ty = s.tu.tyof(L)
            v = s.ev(R)
            p = s.lv(L)
            v = s.coerce(v, ty)
            s.store(p, v); return v
        if op == ',': s.ev(L); return s.ev(R)
        if op in ('&&', '||'):
            a = z3.simplify(s.truth(s.ev(L)))
            if z3.is_true(a): return T if op == '||' else s.truth(s.ev(R))
            if z3.is_false(a): return F if op == '&&' else s.truth(s.ev(R))
            if s.pure(R):
                s.guards.append(a if op == '&&' else z3.Not(a))
                try: b = s.truth(s.ev(R))
                finally: s.guards.pop()
                return z3.And(a, b) if op == '&&' else z3.Or(a, b)
            if op == '&&': return s.truth(s.ev(R)) if s.decide(a) else F
            return T if s.decide(a) else s.truth(s.ev(R))
        a, b = s.ev(L), s.ev(R)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return s.compare(op, a, b)
        ty = s.tu.tyof(n)
        if isinstance(a, (Ptr, UnknownPtr)) or isinstance(b, (Ptr, UnknownPtr)):
            if isinstance(a, (Ptr,)) and isinstance(b, Ptr) and op == '-':
                if a.root is not b.root or not samebase(a, b): raise Undecided('difference of unrelated pointers')
                return a.off - b.off
            if isinstance(b, Ptr) and op == '+': a, b = b, a
            s.ckptr(a, True)
            b = s.asint(b)
            return a.add(b if op == '+' else (iv(-b.as_long()) if is_num(b) else -b))
        return s.arith(op, a, b, ty)
    def compare(s, op, a, b):
        if isinstance(a, UnknownPtr) or isinstance(b, UnknownPtr): raise Undecided('comparison of untracked pointer')
        if isinstance(a, (Ptr, Alloc)) or isinstance(b, (Ptr, Alloc)):
            if isinstance(a, Alloc) or isinstance(b, Alloc): return z3.BoolVal(op == '!=')
            if not isinstance(a, Ptr) or not isinstance(b, Ptr):
                x = b if isinstance(a, Ptr) else a
                if is_num(x) and x.as_long() == 0:
                    if isinstance(a, Ptr): b = NULL
                    else: a = NULL
                else: raise Undecided('pointer compared with integer')
            if op in ('==', '!='):
                e = s.ptreq(a, b)
                return e if op == '==' else z3.Not(e)
            if a.root is b.root and a.root is not None and samebase(a, b): a, b = a.off, b.off
            else: raise Undecided('ordering of unrelated pointers')
        if z3.is_fp(a) or z3.is_fp(b):
            return {'==': z3.fpEQ, '!=': lambda x, y: z3.Not(z3.fpEQ(x, y)), '<': z3.fpLT, '>': z3.fpGT, '<=': z3.fpLEQ, '>=': z3.fpGEQ}[op](a, b)
        a, b = s.asint(a), s.asint(b)
        return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()
    def ptreq(s, a, b):
        if a.root is None and b.root is None: return T
        if a.root is None: return Z(b.null)
        if b.root is None: return Z(a.null)
        if a.root is b.root and len(a.path) == len(b.path):
            c = [z3.Or(z3.And(Z(a.null), Z(b.null)), z3.And(z3.Not(Z(a.null)), z3.Not(Z(b.null)), *[x[1] == y[1] for x, y in zip(a.path, b.path) if x[0] == 'i']))]
            if any(x[0] == 'f' and x != y for x, y in zip(a.path, b.path)): return F
            return z3.simplify(c[0])
        return z3.And(Z(a.null), Z(b.null))
    def e_CompoundAssignOperator(s, n):
        op = n['opcode'][:-1]; L, R = n['inner']
        b = s.ev(R); p = s.lv(L); a = s.load(p); ty = s.tu.tyof(L)
        if isinstance(a, Ptr):
            s.ckptr(a, True); b = s.asint(b)
            v = a.add(b if op == '+' else (iv(-b.as_long()) if is_num(b) else -b))
        else:
            v = s.arith(op, a, b, ty) if ty.k == 'dbl' else s.rangeck(s.arith(op, a, b, Ty('int', 64, 1)), ty)
        s.store(p, v); return v

    # ================================================================ calls
    def e_CallExpr(s, n):
        f = s.ev(n['inner'][0])
        if not isinstance(f, FnVal): raise Undecided('call through a pointer')
        return s.callfn(f.name, n['inner'][1:], n)
    def callfn(s, name, argn, n):
        if name in s.mod.models:
            s.assumed_models.add(name)
            return s.mod.models[name](s, n, argn)
        from . import libc
        m = libc.MODELS.get(name)
        if m and name not in s.tu.funcs:
            s.assumed_models.add(name)
            return m(s, n, argn)
        decl = s.tu.funcs.get(name)
        spec = s.mod.specs.get(name)
        if decl is None and spec is None: raise Undecided('call of unknown function ' + name)
        args = [s.ev(a) for a in argn]
        if decl is not None:
            pts = [s.tu.tyof(p) for p in decl.get('inner', []) if p.get('kind') == 'ParmVarDecl']
            args = [s.coerce(a, t) for a, t in zip(args, pts)] + args[len(pts):]
        if spec is not None and spec.modular: return s.contract(spec, args, n)
        return s.inline(decl, args, n)
    def contract(s, spec, args, n):
        s.called.add(spec.name)
        old = s.snapshot()
        c = Ctx(s, spec.name, args, old, s.frame, spec); c.call = True
        for lab, g in spec.pre(c): s.oblige('pre', '%s: %s' % (spec.name, lab), g)
        for m in spec.mods(c):
            if isinstance(m, tuple) and m[0] == 'leaf':
                key, idxs = s.keyof(m[1].path)
                for k, tt in s.leaves(s.typeat(m[1].root.ty, key)): s.havoc_leaf(m[1].root, key + k, tt)
            elif isinstance(m, tuple): s.havoc_buf(m[1])
            else: s.havoc_at(m)
        c.res = spec.result(c)
        if c.res is None:
            ty = s.tu.tyof(n)
            c.res = s.freshval(spec.name, ty) if ty.k != 'void' else None
        for g in spec.lemma(c): s.assume(g)
        for lab, g in spec.post(c): s.assume(g)
        return c.res
    def inline(s, decl, args, n):
        name = decl['name']
        if any(f.fn == name for f in s.stack): raise Undecided('recursive call of %s without contract' % name)
        if len(s.stack) > 8: raise Undecided('inlining depth')
        s.inlined.add(name)
        fr = Frame(name, decl, s.nframe); s.nframe += 1
        fr.callpath = s.frame.callpath + (n.get('id'),)
        s.bind(fr, decl, args)
        s.stack.append(fr); s.frame = fr
        try:
            s.stmt(body(decl)); r = None
        except ReturnEx as e: r = e.v
        finally:
            s.stack.pop(); s.frame = s.stack[-1]
        rt = s.tu.ty(decl['type']['qualType'].split('(')[0])
        if r is None and rt.k != 'void': return s.freshval('noresult', rt) if rt.k != 'ptr' else UnknownPtr('missing return')
        return r
    def bind(s, fr, decl, args):
        ps = [p for p in decl.get('inner', []) if p.get('kind') == 'ParmVarDecl']
        if len(ps) != len(args): raise Undecided('argument count of ' + decl['name'])
        for p, a in zip(ps, args):
            ty = s.tu.tyof(p)
            if ty.k == 'arr': ty = Ty('ptr', ty.a)
            r = s.mkroot('%s@%d.%s' % (fr.fn, fr.n, p.get('name', '_')), ty)
            fr.vars[p['id']] = r; fr.names[p.get('name', '_')] = r
            s.storek(r, (), [], ty, a) if ty.k != 'ptr' or s.regionof(ty, (), ty) else s.setraw(r, (), a)

    # ================================================================ statements
    def stmt(s, n):
        if s.deadline and time.time() > s.deadline: raise Undecided('time budget')
        k = n['kind']
        f = getattr(s, 's_' + k, None)
        if f: return f(n)
        s.ev(n)
    def s_CompoundStmt(s, n):
        for c in n.get('inner', []): s.stmt(c)
    def s_NullStmt(s, n): pass
    def s_DeclStmt(s, n):
        for d in n['inner']:
            if d['kind'] != 'VarDecl':
                if d['kind'] in ('RecordDecl', 'TypedefDecl', 'EnumDecl', 'StaticAssertDecl', 'UsingDecl', 'UsingDirectiveDecl'): continue
                raise Undecided('declaration ' + d['kind'])
            ty = s.tu.tyof(d)
            if d.get('storageClass') == 'static':      # lives across calls: its value at entry is unknown
                r = s.mkroot('static.%s.%s' % (s.frame.fn, d['name']), ty); s.frame.vars[d['id']] = r; s.frame.names[d['name']] = r
                if 'const ' in d['type']['qualType'] and d.get('init') and r.id not in s.mem and ty.k == 'int':
                    s.mem[r.id] = {}; s.store(Ptr(r), s.coerce(s.ev(d['inner'][-1]), ty), check=False)
                continue
            rid = '%s@%d.%s' % (s.frame.fn, s.frame.n, d['name'])
            if s.frame.names.get(d['name']) is not None and d['id'] not in s.frame.vars: rid += '~' + d['id'][-5:]
            if d['id'] in s.frame.vars: r = s.frame.vars[d['id']]
            else:
                r = s.mkroot(rid, ty)
                s.frame.vars[d['id']] = r; s.frame.names[d['name']] = r
            init = [c for c in d.get('inner', []) if c.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))] if d.get('init') else []
            if init:
                if init[-1]['kind'] == 'InitListExpr': s.initlist(Ptr(r), ty, init[-1])
                elif init[-1]['kind'] == 'StringLiteral' and ty.k == 'arr':
                    b = unq(init[-1]['value']).encode('latin-1')
                    a = z3.K(INT, iv(0))
                    for i, ch in enumerate(b): a = z3.Store(a, i, ch)
                    s.setraw(r, ('[]',), a)
                else:
                    v = s.coerce(s.ev(init[-1]), ty)
                    s.store(Ptr(r), v, check=False)
            else:
                # indeterminate value
                for kk, t in s.leaves(ty):
                    if t.k == 'ptr' and not s.nd(kk) and not s.regionof(ty, kk, t): s.setraw(r, kk, UnknownPtr('uninitialised ' + d['name']))
                    elif t.k == 'ptr' and s.nd(kk) and not s.regionof(ty, kk, t): s.havoc_leaf(r, kk, t)
                    elif t.k in ('int', 'dbl', 'ptr'): s.setraw(r, kk, s.fresh(s.initname(r, kk) + '?', s.sort(t, s.nd(kk))))
    def initlist(s, p, ty, n):
        inner = [c for c in n.get('inner', [])]
        if 'array_filler' in n: inner = [c for c in n['array_filler'] if c.get('kind') != 'ImplicitValueInitExpr']; fill = True
        else: fill = False
        if ty.k == 'arr':
            for k, t in s.leaves(ty):
                if t.k == 'ptr': raise Undecided('pointer initialiser list')
                key, idxs = s.keyof(p.path)
                z = iv(0) if t.k == 'int' else z3.FPVal(0.0, FP)
                for _ in range(s.nd(k)): z = z3.K(INT, z)
                s.setraw(p.root, key + k, upd(s.raw(p.root, key + k), idxs, z) if idxs else z)
            for i, c in enumerate(inner): s.store(p.fld(i), s.coerce(s.ev(c), ty.a), check=False)
        elif ty.k == 'struct':
            for (f, t, u), c in zip(s.tu.fields(ty.a), inner):
                if c['kind'] == 'InitListExpr': s.initlist(p.fld(f), t, c)
                elif c['kind'] == 'ImplicitValueInitExpr': s.zero(p.fld(f), t)
                else: s.store(p.fld(f), s.coerce(s.ev(c), t), check=False)
        else: s.store(p, s.coerce(s.ev(inner[0]), ty), check=False)
    def zero(s, p, ty):
        key, idxs = s.keyof(p.path)
        for k, t in s.leaves(ty):
            if t.k == 'ptr' and not s.regionof(p.root.ty, key + k, t):
                if s.nd(key + k) == 0: s.setraw(p.root, key + k, NULL); continue
                z = T
                for _ in range(s.nd(k)): z = z3.K(INT, z)
                s.setraw(p.root, key + k + ('?',), upd(s.raw(p.root, key + k + ('?',)), idxs, z)); continue
            z = iv(0) if t.k != 'dbl' else z3.FPVal(0.0, FP)
            for _ in range(s.nd(k)): z = z3.K(INT, z)
            s.setraw(p.root, key + k, upd(s.raw(p.root, key + k), idxs, z))
    def s_IfStmt(s, n):
        inner = n['inner']
        if n.get('hasInit'): raise Undecided('if with init')
        if s.decide(s.truth(s.ev(inner[0]))): s.stmt(inner[1])
        elif len(inner) > 2: s.stmt(inner[2])
    def s_ReturnStmt(s, n):
        v = None
        if n.get('inner'):
            v = s.ev(n['inner'][0])
            v = s.coerce(v, s.tu.tyof(n['inner'][0]))
        raise ReturnEx(v)
    def s_BreakStmt(s, n): raise BreakEx()
    def s_ContinueStmt(s, n): raise ContinueEx()
    def s_AttributedStmt(s, n): s.stmt(n['inner'][-1])
    def s_LabelStmt(s, n): s.stmt(n['inner'][-1])
    def s_SwitchStmt(s, n):
        v = s.asint(s.ev(n['inner'][0])); b = n['inner'][1]
        flat = []                       # ('case', expr) / ('default',) / ('stmt', node)
        def add(c):
            if c['kind'] == 'CaseStmt':
                flat.append(('case', c['inner'][0])); add(c['inner'][1])
            elif c['kind'] == 'DefaultStmt': flat.append(('default',)); add(c['inner'][0])
            else: flat.append(('stmt', c))
        for c in b.get('inner', []): add(c)
        start = None
        for i, x in enumerate(flat):
            if x[0] == 'case' and s.decide(v == s.asint(s.ev(x[1]))): start = i; break
        if start is None:
            for i, x in enumerate(flat):
                if x[0] == 'default': start = i
        if start is None: return
        try:
            for x in flat[start:]:
                if x[0] == 'stmt': s.stmt(x[1])
        except BreakEx: pass
    # ---- loops
    def s_WhileStmt(s, n): s.loop(n, None, n['inner'][0], None, n['inner'][1])
    def s_DoStmt(s, n): s.loop(n, None, n['inner'][1], None, n['inner'][0], do=True)
    def s_ForStmt(s, n):
        init, _, cond, inc, bd = n['inner']
        if init.get('kind'): s.stmt(init)
        s.loop(n, init, cond if cond.get('kind') else None, inc if inc.get('kind') else None, bd)
    def loopkey(s, n): return s.frame.callpath + (n['id'],)
    def loopord(s, key):
        if not s.looplist:
            s.looplist = expand_loops(s, s.tu.funcs[s.fname])
        try: return s.looplist.index(key)
        except ValueError: raise Undecided('loop not in the static list')
    def cond(s, c): return T if c is None else s.truth(s.ev(c))
    def loop(s, n, init, cond, inc, bd, do=False):
        key = s.loopkey(n); o = s.loopord(key)
        spec = s.spec.loops.get(o) if s.spec else None
        first = do
        if spec is None:
            for it in range(80):
                if not first:
                    c = z3.simplify(s.cond(cond))
                    if z3.is_false(c): return
                    if not z3.is_true(c): break
                first = False
                try:
                    try: s.stmt(bd)
                    except ContinueEx: pass
                    if inc: s.ev(inc)
                    if do:
                        c = z3.simplify(s.cond(cond))
                        if z3.is_false(c): return
                        if not z3.is_true(c): first = True; break
                        first = True
                except BreakEx: return
            else: raise Undecided('loop unrolled 80 times')
            spec = Loop()
            s.defaultloops.add('%s loop %d' % (s.frame.fn, o))
        c = Ctx(s, s.fname, s.args, s.old, s.frame, s.spec); c.entry = View(s, s.snapshot()); c.gentry = dict(s.ghost)
        s.loopcov.setdefault(o, False)
        s.lemmas(spec, c)
        cand = s.candidates(key, cond, c.entry) if s.cand and not spec.step else None
        for lab, g in s.invs(spec, c, o, cand): s.oblige('inv-entry', 'loop %d: %s' % (o, lab), g)
        for lab, g in (spec.init(c) if spec.init else []): s.oblige('inv-entry', 'loop %d: %s' % (o, lab), g)
        seq = s.seq
        for rid, k in sorted(s.mods_of.get(key, ()), key=repr):
            r = s.roots.get(rid)
            if r is None: continue
            if k == ('#ghost',): continue
            kk = k[:-1] if k and k[-1] == '?' else k
            s.havoc_leaf(r, kk, s.typeat(r.ty, kk))
        for gk in sorted(s.ghostmods.get(key, ())):
            if gk.startswith('size:') and gk not in s.ghost and gk[5:] in s.roots: s.growing(s.roots[gk[5:]])
            if gk in s.ghost: s.ghost[gk] = s.fresh('gh_' + gk, s.ghost[gk].sort())
        for h in (spec.havoc(c) if spec.havoc else []): s.havoc_at(h)
        s.lemmas(spec, c)
        for lab, g in s.invs(spec, c, o, cand): s.assume(g)
        for lab, g in (spec.assume(c) if spec.assume else []): s.assume(g); s.loopassume.add('%s loop %d: %s' % (s.fname, o, lab))
        c.head = View(s, s.snapshot()); gh = dict(s.ghost)
        var0 = spec.variant(c) if spec.variant else None
        pend = set(); s.active.append((key, seq, pend))
        try:
            if not do:
                if not s.decide(s.cond(cond)): return
            try: s.stmt(bd)
            except ContinueEx: pass
            if inc: s.ev(inc)
            if do and not s.decide(s.cond(cond)): return
            if spec.ghost:
                for gk, gv in spec.ghost(c): s.setghost(gk, gv)
            c.g = s.ghost; c.ghead = gh
            # only what is written on a path back to the head varies at the head
            for w in pend:
                if w[0] == '#ghost': m = s.ghostmods.setdefault(key, set()); w = w[1]
                else: m = s.mods_of.setdefault(key, set())
                if w not in m: m.add(w); s.newmods = True
            s.loopcov[o] = True
            s.lemmas(spec, c)
            for lab, g in s.invs(spec, c, o, cand): s.oblige('inv-kept', 'loop %d: %s' % (o, lab), g)
            if spec.step:
                for lab, g in spec.step(c): s.oblige('step', 'loop %d: %s' % (o, lab), g)
            if var0 is not None:
                v1 = spec.variant(c)
                s.oblige('variant', 'loop %d terminates' % o, z3.And(v1 < var0, var0 >= 0))
            raise PathEnd()
        except BreakEx: return
        finally: s.active.pop()
    # ---- weakening: a loop that was rewritten may not keep an annotation that mentions its old locals; such conjuncts are dropped and
    # candidate invariants read off the guard and the counters are added, and the proof is tried again (see par.verify)
    def invs(s, spec, c, o, cand):
        l = spec.inv(c)
        if not s.drop and cand is None: return l
        out = []
        def flat(lab, g):
            g = Z(g)
            sub = g.children() if z3.is_and(g) and g.num_args() > 1 else [z3.Implies(g.arg(0), x) for x in g.arg(1).children()] if z3.is_implies(g) and z3.is_and(g.arg(1)) else None
            if sub is not None:
                for i, x in enumerate(sub): flat(lab if lab.endswith(']') else '%s [%d]' % (lab, i + 1), x)
            else: out.append((lab, g))
        for lab, g in l: flat(lab, g)
        if cand: out += cand()
        gone = lambda lab: any(d == lab or d.startswith(lab + ' [') for d in (x[len('loop %d: ' % o):] for x in s.drop if x.startswith('loop %d: ' % o)))
        return [(lab, g) for lab, g in out if not gone(lab)]
    def candidates(s, key, cond, entry):
        vs = []
        for rid, k in sorted(s.mods_of.get(key, ()), key=repr):
            r = s.roots.get(rid)
            if r is not None and k == () and r.ty.k in ('int', 'ptr'): vs.append(r)
        def num(v):
            if isinstance(v, Ptr): return Z(v.off) if v.root is not None and v.path and v.path[-1][0] == 'i' else None
            return v if isinstance(v, z3.ArithRef) or isinstance(v, int) else None
        def cur(r):
            try: return s.raw(r, ())
            except Exception: return None
        def at(view, r):
            try: return view.get(Ptr(r))
            except Exception: return None
        def pure(n):
            k = n.get('kind')
            if k in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'ConstantExpr'): return pure(n['inner'][-1])
            if k in ('IntegerLiteral', 'CharacterLiteral'): return iv(int(n['value']))
            if k == 'DeclRefExpr':
                r = s.frame.vars.get(n['referencedDecl']['id']); v = cur(r) if r is not None and hasattr(r, 'ty') else None
                return v
            if k == 'BinaryOperator' and n['opcode'] in '+-':
                a, b = num(pure(n['inner'][0])), num(pure(n['inner'][1]))
                if a is None or b is None: return None
                return a + b if n['opcode'] == '+' else a - b
            return None
        def guards(n):
            if n is None: return []
            k = n.get('kind')
            if k in ('ParenExpr', 'ImplicitCastExpr'): return guards(n['inner'][0])
            if k == 'BinaryOperator' and n['opcode'] == '&&': return guards(n['inner'][0]) + guards(n['inner'][1])
            return [n] if k == 'BinaryOperator' and n['opcode'] in ('<', '<=', '>', '>=', '!=') else []
        nm = lambda r: r.id.replace('@', '.')
        ent = [(r, num(at(entry, r))) for r in vs]
        def f():
            out = []
            now = [num(cur(r)) for r, _ in ent]
            for (r, e), v in zip(ent, now):
                if e is None or v is None: continue
                out += [('candidate: %s grows' % nm(r), v >= e), ('candidate: %s shrinks' % nm(r), v <= e)]
            for i in range(len(ent)):
                for j in range(i):
                    if any(x is None for x in (ent[i][1], ent[j][1], now[i], now[j])): continue
                    out += [('candidate: %s - %s' % (nm(ent[i][0]), nm(ent[j][0])), now[i] - now[j] == ent[i][1] - ent[j][1]), ('candidate: %s + %s' % (nm(ent[i][0]), nm(ent[j][0])), now[i] + now[j] == ent[i][1] + ent[j][1])]
            for i, g in enumerate(guards(cond)):
                a, b = num(pure(g['inner'][0])), num(pure(g['inner'][1]))
                if a is None or b is None: continue
                out += {'<': [('candidate: guard %d' % i, a <= b)], '<=': [('candidate: guard %d' % i, a <= b + 1)], '>': [('candidate: guard %d' % i, a >= b)], '>=': [('candidate: guard %d' % i, a >= b - 1)],
                        '!=': [('candidate: guard %d' % i, a <= b), ('candidate: guard %d up' % i, a >= b)]}[g['opcode']]
            return out
        return f
    def lemmas(s, spec, c):
        """instances of the definitions of spec functions"""
        if spec.lemma:
            for g in spec.lemma(c): s.assume(g)
    def growing(s, r):
        """the size of buffer r becomes a ghost variable (realloc)"""
        gk = 'size:' + r.id
        if gk not in s.ghost:
            s.ghost[gk] = Z(r.sizes[0]); r.sizes[0] = lambda lead: s.ghost[gk]
        return gk
    def setghost(s, k, v):
        s.ghost[k] = v
        for (lk, seq, pend) in s.active: pend.add(('#ghost', k))

    # ================================================================ verification of one function
    def verify(s):
        s.prepare(); decl = s.decl
        s.explore(lambda: s.onepath(decl))
        return s.obs
    def params(s, decl):
        out = []
        for p in decl.get('inner', []):
            if p.get('kind') != 'ParmVarDecl': continue
            ty = s.tu.tyof(p); nm = p.get('name', '_')
            if ty.k == 'arr': ty = Ty('ptr', ty.a)
            i = len(out)
            if ty.k == 'ptr':
                rg = s.mod.regions.get(repr(ty))
                if rg: out.append(s.refto(rg, z3.Int('a%d' % i))); continue
                el = ty.a
                if el.k == 'void': out.append(UnknownPtr('void* parameter')); continue
                buf = not (el.k == 'struct' and el.a not in s.mod.buf)
                r = s.mkroot('a%d' % i, Ty('arr', el) if buf else el)
                out.append(Ptr(r, (('i', iv(0)),) if buf else (), False))
            elif ty.k == 'struct':
                r = s.mkroot('a%d' % i, ty)
                out.append(s.loadk(r, (), [], ty))
            elif ty.k == 'int':
                v = z3.Int('a%d' % i); s.assume_range(v, ty); out.append(v)
            elif ty.k == 'dbl': out.append(z3.Const('a%d' % i, FP))
            else: raise Undecided('parameter %r' % ty)
        return out
    def onepath(s, decl):
        s.guards = []; s.litroots = {}
        fr = Frame(s.fname, decl, 0); s.nframe = 1; fr.callpath = ()
        s.stack = [fr]; s.frame = fr
        args = s.params(decl)
        c = Ctx(s, s.fname, args, {}, fr, s.spec); c.call = False
        if s.spec:
            s.spec.setup(c); args = c.args
        for lab, g in (s.spec.pre(c) if s.spec else []): s.assume(g)
        if not s.trial and 'pre' not in s.cover:
            s.cover['pre'] = s.check(timeout=2500) != z3.unsat
        s.args = args; s.old = s.snapshot(); c.old = View(s, s.old)
        s.startroots = set(s.roots)
        s.bind(fr, decl, args)
        try: s.stmt(body(decl)); r = None
        except ReturnEx as e: r = e.v
        s.finish(decl, c, r)
    def finish(s, decl, c, r):
        rt = decl['type']['qualType'].split('(')[0].strip()
        c.res = r; c.g = s.ghost
        if not s.trial and not s.cover.get('exit'):
            s.cover['exit'] = s.check(timeout=2500) != z3.unsat
        if s.spec:
            for g in s.spec.lemma(c): s.assume(g)
            for lab, g in s.spec.post(c): s.oblige('post', lab, g)
            s.frameck(c)
    def frameck(s, c):
        mods = s.spec.mods(c)
        if mods is None: return
        allow = []
        for m in mods:
            p = m[1] if isinstance(m, tuple) else m
            key, idxs = s.keyof(p.path)
            if isinstance(m, tuple): idxs = [] if m[0] == 'leaf' else idxs[:-1]
            allow.append((p.root.id, key, idxs))
        for rid, m in s.mem.items():
            r = s.roots[rid]
            if rid.startswith(('lit:', '%s@' % s.fname)) or '@' in rid and '.' in rid and not re.match(r'a\d', rid) or r.fresh: continue
            if rid.startswith('tmp#') or rid.startswith('static.') and not getattr(s.spec, 'shared', False): continue
            for k, v in m.items():
                old = s.raw(r, k, s.old) if True else None
                if v is old or (isz(v) and isz(old) and z3.eq(v, old)): continue
                kk = k[:-1] if k and k[-1] == '?' else k
                ok = False; goal = None
                for aid, ak, ai in allow:
                    if aid != rid or kk[:len(ak)] != ak: continue
                    if not ai: ok = True; break
                    if isz(v): goal = (goal or []) + [ai]
                if ok:
                    if getattr(s.spec, 'shared', False): s.oblige('frame', '%s.%s belongs to the frame' % (rid, '.'.join(k)), T)
                    continue
                lab = '%s.%s unchanged outside the frame' % (rid, '.'.join(k))
                if isinstance(v, Ptr) and isinstance(old, Ptr):
                    s.oblige('frame', lab, s.ptreq(v, old)); continue
                if not isz(v): raise Undecided('frame of untracked value ' + lab)
                if goal:
                    o = old
                    for ai in goal:
                        x = v
                        for i in ai: x = sel(x, i)
                        o = upd(o, ai, x)
                    s.oblige('frame', lab, v == o)
                else: s.oblige('frame', lab, v == old)

def samebase(a, b):
    x, y = a.base, b.base
    return len(x) == len(y) and all(p[0] == q[0] and (p[1] == q[1] if p[0] == 'f' else z3.eq(z3.simplify(p[1]), z3.simplify(q[1]))) for p, q in zip(x, y))
def body(decl):
    for c in decl.get('inner', []):
        if c.get('kind') == 'CompoundStmt': return c
    raise Undecided('no body')
def unq(v):
    import ast as _a
    v = v[v.index('"'):]
    try: return _a.literal_eval(v)
    except Exception: raise Undecided('string literal ' + v)
class FnVal:
    def __init__(s, name): s.name = name
class Alloc:
    """untyped fresh storage of `size` bytes; `zeroed` by calloc; typed at its first cast"""
    def __init__(s, size, zeroed=False): s.size, s.zeroed = size, zeroed
    def to(s, ex, ty):
        if ty.k != 'ptr' or ty.a.k == 'void': return s
        el = ty.a; sz = ex.sizeof(el)
        buf = not (el.k == 'struct' and el.a not in ex.mod.buf)
        rg = ex.mod.regions.get(repr(ty))
        hint = 'new_' + repr(el)
        if buf:
            n = iv(s.size.as_long() // sz) if is_num(s.size) else (s.size if sz == 1 else s.size / iv(sz))
            r = ex.newobj(hint, Ty('arr', el), n)
            p = Ptr(r, (('i', iv(0)),), False)
        else:
            ex.oblige('alloc', 'allocation holds a %r' % el, s.size >= sz)
            r = ex.newobj(hint, el); p = Ptr(r, (), False)
        if s.zeroed: ex.zero(Ptr(r), r.ty) if not buf else ex.zero(Ptr(r), r.ty)
        else:
            for k, t in ex.leaves(r.ty):
                if t.k == 'ptr' and not ex.nd(k) and not ex.regionof(r.ty, k, t): ex.setraw(r, k, UnknownPtr('uninitialised heap'))
        if rg:
            ref = ex.into_region(p, rg)
            return ex.refto(rg, ref)
        return p
SLOW = float(os.environ.get('JPV_SLOW', '0'))
LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')
def callee(n):
    f = n['inner'][0]
    while f.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): f = f['inner'][0]
    d = f.get('referencedDecl') or {}
    return d.get('name')
def expand_loops(ex, decl, path=(), depth=0):
    out = []
    def walk(n):
        if not isinstance(n, dict): return
        k = n.get('kind')
        if k in LOOPS: out.append(path + (n['id'],))
        for c in n.get('inner', []): walk(c)
        if k == 'CallExpr':
            nm = callee(n); sp = ex.mod.specs.get(nm)
            from . import libc
            if nm in ex.mod.models: return
            if nm in ex.tu.funcs and not (sp and sp.modular) and depth < 8 and nm != decl['name']:
                out.extend(expand_loops(ex, ex.tu.funcs[nm], path + (n['id'],), depth + 1))
    walk(body(decl))
    return out
def declared(tu, decl):
    """[(name, type, position)] of the parameters and locals of a function"""
    out = []
    def walk(n):
        if not isinstance(n, dict): return
        if n.get('kind') in ('ParmVarDecl', 'VarDecl') and n.get('name'): out.append((n['name'], n['type']['qualType']))
        for c in n.get('inner', []): walk(c)
    walk(decl)
    return out
def role_map(base, cur):
    """baseline local name -> current name: names that disappeared are matched, by type and order, with names that appeared"""
    bn = [n for n, _ in base]; cn = [n for n, _ in cur]
    gone = [(n, t) for n, t in base if n not in cn]
    new = [(n, t) for n, t in cur if n not in bn]
    m = {}
    for n, t in gone:
        c = [x for x in new if x[1] == t]
        g = [x for x in gone if x[1] == t]
        if len(c) == len(g):
            m[n] = c[g.index((n, t))][0]
    return m
