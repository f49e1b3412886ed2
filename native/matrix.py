"""Which checks catch which changes: matrix.py [-a] [ID ...] runs the check of each planted bug's property on a copy of /repo with the
patch applied, in a mount namespace (with -a: every claimed check).  matrix.py -e FILE runs edits from a python file
EDITS = [(id, [property...], [(file, old, new)...])...] instead; these may be behaviour-preserving."""
import os, sys, json, shutil, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = '/tmp/mx'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def run(name, props, prepare):
    d = W + '/repo_' + name; shutil.rmtree(d, ignore_errors=True); os.makedirs(W, exist_ok=True)
    sh('cp -a /repo %s' % d); e = prepare(d)
    if e: print('%-28s cannot prepare: %s' % (name, e)); return
    b = sh('unshare -m sh -c "mount --bind %s /repo && bash /opt/vp/build.sh"' % d)
    if b.returncode: print('%-28s does not build: %s' % (name, b.stdout[-300:])); shutil.rmtree(d); return
    for p in props:
        t = time.time()
        r = sh('unshare -m sh -c "mount --bind %s /repo && cd %s && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt -m jpv.run %s"' % (d, V, p))
        l = [x for x in r.stdout.split('\n') if x.startswith(('VIOLATION', 'UNDECIDED', 'KNOWN'))] + [x for x in r.stdout.split('\n') if ' refuted ' in x or ' undecided ' in x]
        v = [x for x in l if x.startswith('VIOLATION')]
        print('%-28s %s exit %d %4ds %s' % (name, p, r.returncode, time.time() - t, ('CAUGHT' + (' no-input' if 'no-failing' in v[0] else '')) if v else 'quiet'))
        for x in l:
            if not x.startswith(('VIOLATION', 'KNOWN')): print('      ', x[:200])
        if r.returncode not in (0, 1): print(r.stdout[-1500:])
        sys.stdout.flush()
    shutil.rmtree(d)
def main():
    a = sys.argv[1:]; allp = '-a' in a; a = [x for x in a if x != '-a']
    if a[:1] == ['-e']:
        g = {}; exec(open(a[1]).read(), g)
        for name, props, edits in g['EDITS']:
            if len(a) > 2 and name not in a[2:]: continue
            def prep(d):
                for f, old, new in edits:
                    t = open(d + '/' + f, encoding='latin1', newline='').read()
                    if '\r\n' in t: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                    if old not in t: return 'no such text in %s: %r' % (f, old[:80])
                    open(d + '/' + f, 'w', encoding='latin1', newline='').write(t.replace(old, new))
            run(name, props, prep)
        return
    for i in sorted(os.listdir(V + '/seeded')):
        if a and i not in a: continue
        m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
        def prep(d):
            r = sh('git apply %s/seeded/%s/patch.diff' % (V, i), cwd=d)
            return r.stdout if r.returncode else None
        run(i, [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']] if allp else [m['property']], prep)
main()
