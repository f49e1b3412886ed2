"""run.py PROPERTY [--tier quick|thorough]: decides one property on /repo's current tree.
1. the obligations of the contracts the property depends on are generated from the current source and discharged
2. the bounded stand-in runs the real code; a mismatch is a witness
exit 0 / 1 only."""
import os, sys, json, time, shutil, tempfile, traceback
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.path.insert(0, os.path.join(ROOT, 'native'))
os.environ.setdefault('REPO', '/repo')

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    t0 = time.time()
    import checks
    cfg = checks.PROPS[prop]
    tmp = tempfile.mkdtemp(prefix='jpv_'); os.environ['JPV_ASTDIR'] = os.path.join(tmp, 'ast'); os.makedirs(os.environ['JPV_ASTDIR'])
    out = os.path.join(ROOT, 'out', prop); os.makedirs(out, exist_ok=True)
    try: rc = decide(prop, cfg, tier, seed, t0, tmp, out)
    except Exception:
        traceback.print_exc(); print('ERROR property=%s the check itself failed' % prop); rc = 2
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)

def decide(prop, cfg, tier, seed, t0, tmp, out):
    import standin
    quick = tier != 'thorough'
    # ---- native builds
    dirs, notes = {}, []
    for v in cfg.get('variants', ['small']):
        ok, err = standin.build(os.path.join(tmp, v), v)
        if ok: dirs[v] = os.path.join(tmp, v)
        if err.strip(): notes.append('build %s: %s' % (v, err.strip()[-300:]))
    # ---- known findings
    for k in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']:
        if k['property'] != prop or k.get('input', {}).get('variant') not in dirs: continue
        i = k['input']; got = standin.run1(dirs[i['variant']], i)
        if got != i['expected']: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    # ---- proofs
    states = []
    jobs = cfg.get('jobs', [])
    if jobs:
        from jpv import par
        states = par.verify(jobs, timeout=cfg.get('tmo', 8000) if quick else 60000, budget=cfg.get('budget', 420 if quick else 3000), fnbudget=cfg.get('fnbudget', 300 if quick else 2000))
    for st in states:
        print('%-28s %-10s %s' % (st.fn, st.status, '%d/%d obligations, %d paths' % (st.ndis(), st.total(), st.paths) if not st.err else st.why()[:160]))
    refuted = [s for s in states if s.status == 'refuted']; undecided = [s for s in states if s.status == 'undecided']
    # ---- bounded stand-in
    r = None
    if prop in standin.PROPS and dirs:
        r = standin.search(prop, seed, cfg.get('secs', 12) if quick else cfg.get('tsecs', 300), dirs)
        changed = [m for m in {s.mod for s in undecided} if not par.unchanged(m)] if undecided else []
        if r['witness'] is None and (refuted or changed): 
            r2 = standin.search(prop, seed + 1, 60, dirs)
            for k in ('evaluations', 'nontrivial', 'distinct_nontrivial', 'skipped', 'unavailable'): r[k] += r2[k]
            r['witness'] = r2['witness']
    extra = cfg.get('extra')
    x = extra(tmp, tier, seed) if extra else None     # property-specific bounded run: {'witness': .., 'evaluations': .., ...}
    wit = (r or {}).get('witness') or (x or {}).get('witness')
    # ---- verdict
    rc = 0
    if wit or refuted:
        rep = os.path.join(out, 'replay.json'); fails = []
        for s in refuted:
            seen = set()
            for kind, lab, stt, by, t, info in s.fails:
                if (kind, lab) in seen: continue
                seen.add((kind, lab)); fails.append(dict(function=s.fn, module=s.mod, obligation='%s/%s' % (kind, lab), status=stt, backend=by, seconds=round(t, 2), verifier=info))
        json.dump(dict(property=prop, witness=wit, failed_obligations=fails[:40], undecided=[(s.fn, s.why()[:300]) for s in undecided],
                       how='python3 native/replay.py <this file> rebuilds /repo and runs the witness' if wit else 'no failing input was found; the verifier output of the failed obligations is above'), open(rep, 'w'), indent=1, default=str)
        for f in fails[:6]: print('failed obligation: %s %s (%s)' % (f['function'], f['obligation'], f['status']))
        if wit: print('witness: %s' % {k: str(v)[:300] for k, v in wit.items()})
        print('VIOLATION property=%s replay=%s%s' % (prop, rep, '' if wit else ' no-failing-input-found')); rc = 1
    elif undecided:
        print('UNDECIDED property=%s %s; decided by the bounded stand-in alone' % (prop, ', '.join('%s (%s)' % (s.fn, s.why()[:80]) for s in undecided)))
    evidence(prop, cfg, tier, seed, t0, states, r, x, notes, rc)
    return rc

TRUST = ['clang 18 parser and JSON AST of the current source', 'jpv: the verification condition generator in /verif/jpv (paths, memory model, havoc of loops and calls)', 'z3 4.8.12 / cvc5 1.1.2 solvers',
         'contracts in /verif/specs (the reading of the property)']
ASSUME = ['integers are mathematical with range obligations on every signed operation', 'distinct pointer fields/arguments of a precondition are separate objects unless stated', 'use after free and double free are not checked',
          'allocation succeeds', 'termination is not proved except where a loop variant is given']
def evidence(prop, cfg, tier, seed, t0, states, r, x, notes, rc):
    cov = {}
    if states:
        back = {}
        for s in states:
            for d in s.obs.values():
                for k, n in d.items(): back[k] = back.get(k, 0) + n
        cov.update(obligations=sum(s.total() for s in states), discharged=sum(s.ndis() for s in states),
                   checker_cmd='cd /verif && python3-vt -m jpv.run %s' % prop, trusted_base=TRUST,
                   by_back_end=back, solver_seconds=round(sum(s.solver for s in states), 1), cpu_seconds=round(sum(s.cpu for s in states), 1),
                   functions_under_contract=[dict(function=s.fn, module=s.mod, status=s.status, obligations=s.total(), discharged=s.ndis(), paths=s.paths, precondition_reachable=bool(s.cover.get('pre')), exit_reachable=bool(s.cover.get('exit')), **({} if s.status == 'proved' else {'why': s.why()[:400]})) for s in states],
                   libc_models=sorted(set().union(*[s.info['models'] for s in states])), inlined=sorted(set().union(*[s.info['inlined'] for s in states])),
                   contracts_used_at_calls=sorted(set().union(*[s.info['called'] for s in states])), loops_without_contract=sorted(map(str, set().union(*[s.info['default'] for s in states]))),
                   loop_assumptions=sorted(map(str, set().union(*[s.info['assume'] for s in states]))))
        cov['contracts_used_but_not_proved_in_this_run'] = sorted(set(cov['contracts_used_at_calls']) - {s.fn for s in states})
    if r: cov['bounded_stand_in'] = dict(label='bounded: not counted as proved', evaluations=r['evaluations'], nontrivial=r['nontrivial'], distinct_nontrivial=r['distinct_nontrivial'], skipped_outside_domain=r['skipped'], samples=r['samples'], modes_unavailable=r['unavailable'], rule=cfg.get('rule', ''))
    if x: cov['bounded_extra'] = {k: v for k, v in x.items() if k != 'witness'}
    if notes: cov['notes'] = notes
    lvl = cfg.get('level', 'proof')
    if lvl != 'proof':
        cov.setdefault('explanation', cfg.get('note', ''))
        if r: cov.update(evaluations=r['evaluations'], distinct_nontrivial=r['distinct_nontrivial'], rule=cfg.get('rule', ''), samples=r['samples'])
    ev = dict(property=prop, tier=tier, seed=seed, level=lvl, coverage=cov, assumptions=ASSUME + cfg.get('assume', []), wall_s=round(time.time() - t0, 1), violations=1 if rc else 0)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
if __name__ == '__main__': main()
