"""Parallel driver: paths of the functions under verification are checked by a pool of worker processes."""
import os, sys, json, time, importlib, traceback, multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
NCPU = int(os.environ.get('JPV_JOBS', '0')) or min(8, os.cpu_count() or 4)
_mods, _ex = {}, {}

def module(name):
    """'stream' or 'stream:variant' -> Module"""
    if name not in _mods:
        m, _, v = name.partition(':')
        _mods[name] = importlib.import_module('specs.' + m).modules(*([v] if v else []))
        _mods[name].roles = baseline().get(name, {}).get('roles', {})
    return _mods[name]
_base = {}
def baseline():
    """specs/baseline.json: per module the fingerprint of the unit the contracts were last proved on, and the names of its locals
    (names the contracts mention; a local that was renamed is found again by type and order)"""
    if not _base:
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'baseline.json')
        if os.path.exists(p): _base.update(json.load(open(p)))
    return _base
def fnprint(m, fn): return m.tu.fingerprint(m.tu.reach(fn, {k for k, x in m.specs.items() if x.modular}))
def unchanged(name, fn=None):
    """the unit, or the text that matters for one function, is the one the contracts were proved on"""
    try:
        b = baseline().get(name, {}); m = module(name)
        return b.get('fingerprint') == m.tu.fingerprint() if fn is None else b.get('fns', {}).get(fn) == fnprint(m, fn)
    except Exception: return False      # a unit that cannot be read is not the one the contracts were proved on
def path_task(modname, fn, prefix, trial, mods, ghosts, bad, timeout, drop=frozenset(), cand=False):
    from .core import Exec, Undecided
    r = dict(err=None, alts=[], obs=[], mods={}, ghosts={}, newmods=False, cover={}, loopcov={}, info={}, t=0.0)
    t = time.time()
    try:
        ex = Exec(module(modname), fn, timeout)
        ex.prepare(); ex.drop, ex.cand = drop, cand
        r['alts'] = ex.one(prefix, trial, mods, ghosts, bad)
        r['mods'], r['ghosts'], r['newmods'] = ex.mods_of, ex.ghostmods, ex.newmods
        r['obs'] = [(o.kind, o.label, o.status, o.by, o.time or 0.0, o.info) for o in ex.obs]
        r['cover'], r['loopcov'] = ex.cover, ex.loopcov
        r['info'] = dict(default=ex.defaultloops, assume=ex.loopassume, inlined=ex.inlined, called=ex.called, models=ex.assumed_models)
        r['solver'], r['nq'] = ex.solver_time, ex.nq
    except Undecided as e: r['err'] = str(e)
    except RecursionError: r['err'] = 'recursion limit'
    except Exception as e: r['err'] = 'engine: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    r['t'] = time.time() - t
    return r

class FnState:
    def __init__(s, mod, fn):
        s.mod, s.fn = mod, fn
        s.changed = False; s.final = False; s.round = 0; s.pending = 0; s.done = False; s.err = None
        s.mods, s.ghosts, s.newmods = {}, {}, False
        s.drop, s.cand, s.first, s.weak = frozenset(), False, None, 0
        s.info = dict(default=set(), assume=set(), inlined=set(), called=set(), models=set())
        s.reset()
    def reset(s):
        s.obs = {}; s.fails = []; s.bad = {}; s.paths = 0; s.cover = {}; s.loopcov = {}; s.solver = 0.0; s.nq = 0; s.cpu = 0.0
    @property
    def status(s):
        """proved / refuted (an obligation has a counter-model or is a definite failure; or, on changed source, one of
        the function's postconditions is not accepted although every invariant is) / undecided"""
        if s.err: return 'undecided'
        if not s.done: return 'undecided'
        if any(st in ('refuted', 'failed') for _, _, st, _, _, _ in s.fails): return 'refuted'
        if s.fails and s.changed and not any(k.startswith('inv') for k, *_ in s.fails) and any(k in ('post', 'step', 'frame') for k, *_ in s.fails): return 'refuted'
        if s.fails: return 'undecided'
        if not (s.cover.get('pre') and s.cover.get('exit', True)): return 'undecided'
        return 'proved'
    def why(s):
        if s.err: return s.err
        if not s.done: return 'time budget'
        if s.fails: return 'obligation %s/%s %s' % (s.fails[0][0], s.fails[0][1], s.fails[0][2])
        if not s.cover.get('pre'): return 'precondition not satisfiable'
        if not s.cover.get('exit', True): return 'no exit reachable'
        return ''
    def total(s): return sum(sum(v.values()) for v in s.obs.values())
    def ndis(s): return sum(n for v in s.obs.values() for k, n in v.items() if k in ('simplifier', 'z3', 'z3-fresh', 'cvc5'))

WEAK = ('lex', 'part', 'fpart', 'stream', 'cons', 'multi', 'eval', 'pred', 'dfac', 'dfa', 'worker', 'merge')
KEEP = ('obs', 'fails', 'bad', 'paths', 'cover', 'loopcov', 'solver', 'nq', 'cpu')
def weaken(st, now):
    """the source changed and the proof failed: tries again without the loop annotations that fail, with candidate invariants read off
    the loops (an annotation that mentions locals of a rewritten loop is not a property).  True if another attempt is under way."""
    if st.first is None:
        if not st.fails or st.mod.split(':')[0] not in WEAK or unchanged(st.mod, st.fn) or not module(st.mod).specs[st.fn].loops: return False
        if any(l.step for l in module(st.mod).specs[st.fn].loops.values()) or st.cpu > 300: return False
        st.first = {k: getattr(st, k) for k in KEEP}; st.weakstart = now; st.cand = True
    elif not st.fails: return False                 # proved with the weaker annotations
    if os.environ.get('WEAKV'): print('weaken', st.weak, [(k, l, x, (i or {}).get('goal', '')[:150]) for k, l, x, b, t, i in st.fails])
    bad = {l.split('@')[0] for k, l, *_ in st.fails if k.startswith('inv')}
    new = st.drop | bad
    if st.weak >= 6 or st.weak and new == st.drop or now - st.weakstart > 60:
        for k in KEEP: setattr(st, k, st.first[k])  # no proof that way: the first result stands
        return False
    st.drop = frozenset(new); st.weak += 1
    st.reset(); return True
def verify(jobs, timeout=10000, budget=600, fnbudget=300, log=None):
    """jobs: [(module, function)] -> [FnState]"""
    states = [FnState(m, f) for m, f in jobs]
    t0 = time.time()
    ctx = mp.get_context('spawn')
    pool = ProcessPoolExecutor(NCPU, mp_context=ctx)
    fut = {}
    def submit(st, prefix):
        f = pool.submit(path_task, st.mod, st.fn, prefix, not st.final, st.mods, st.ghosts, {k: n for k, n in st.bad.items()}, timeout, st.drop, st.cand)
        fut[f] = st; st.pending += 1
    for st in states: st.start = time.time(); submit(st, ())
    try:
        while fut:
            ds, _ = wait(list(fut), timeout=5, return_when=FIRST_COMPLETED)
            now = time.time()
            if now - t0 > budget: break
            for f in ds:
                st = fut.pop(f); st.pending -= 1
                try: r = f.result()
                except Exception as e: st.err = st.err or 'worker: %r' % e; continue
                st.cpu += r['t']
                if r['err']: st.err = st.err or r['err']
                if st.err: continue
                st.paths += 1
                for k, v in r['mods'].items():
                    m = st.mods.setdefault(k, set())
                    if not v <= m: m |= v; st.newmods = True
                for k, v in r['ghosts'].items():
                    m = st.ghosts.setdefault(k, set())
                    if not v <= m: m |= v; st.newmods = True
                for k, v in r['info'].items(): st.info[k] |= set(v)
                for k, v in r['cover'].items(): st.cover[k] = st.cover.get(k) or v
                for k, v in r['loopcov'].items(): st.loopcov[k] = st.loopcov.get(k) or v
                st.solver += r.get('solver', 0); st.nq += r.get('nq', 0)
                for (kind, lab, status, by, t, info) in r['obs']:
                    o = st.obs.setdefault((kind, lab), {})
                    k = by if status == 'proved' else status
                    o[k] = o.get(k, 0) + 1
                    if status != 'proved':
                        st.bad[(kind, lab)] = st.bad.get((kind, lab), 0) + 1
                        if status != 'skipped': st.fails.append((kind, lab, status, by, t, info))
                if st.paths > 4000: st.err = 'too many paths'; continue
                if now - st.start > fnbudget: st.err = 'time budget of the function'; continue
                for a in r['alts']: submit(st, a)
            for st in set(states):
                if st.pending or st.done or st.err: continue
                if st.final and not st.newmods:
                    if not weaken(st, time.time()): st.done = True
                    else: submit(st, ())
                    continue
                if not st.newmods or not st.mods: st.final = True
                st.newmods = False; st.round += 1
                if st.round > 40: st.err = 'loop footprints do not stabilise'; continue
                st.reset(); submit(st, ())
    finally:
        procs = list(getattr(pool, '_processes', {}).values())
        pool.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            try: p.kill()
            except Exception: pass
    for st in states:
        if st.fails: st.changed = not unchanged(st.mod, st.fn)
    return states

if __name__ == '__main__':
    import tempfile, shutil
    d = tempfile.mkdtemp(); os.environ['JPV_ASTDIR'] = d
    try:
        mod = sys.argv[1]; module(mod)
        fns = sys.argv[2:] or [x for x in module(mod).specs if not module(mod).specs[x].trusted]
        t = time.time()
        for st in verify([(mod, f) for f in fns], timeout=int(os.environ.get('TMO', '10000')), fnbudget=float(os.environ.get('FB', '600'))):
            print(st.fn, st.status, st.why()[:1500], 'obs', st.total(), 'dis', st.ndis(), 'paths', st.paths, 'cpu %.1f' % st.cpu, 'solver %.1f' % st.solver, {k: v for k, v in st.loopcov.items() if not v})
            for k, l, s_, by, tm, info in st.fails:
                print('    ', k, '/', l, s_, '%.1f' % tm, (info or {}).get('reason'))
                if os.environ.get('V'): print('        ', (info or {}).get('goal', '')[:600], '\n        ', (info or {}).get('path'))
        print('wall %.1f' % (time.time() - t))
    finally: shutil.rmtree(d, ignore_errors=True)
