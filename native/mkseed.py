"""Makes seeded/<id>/ for the planted bugs described in native/seeds.py: mkseed.py [ID ...]
For each: patch, a small demonstration case found with the generators of the property, and confirmation in a mount namespace
(applies, builds, stable tests pass, demo 0 without and nonzero with the patch)."""
import os, sys, json, shutil, subprocess, tempfile, time
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H); sys.path.insert(0, H)
import standin, gen, diffrun
from seeds import SEEDS
W = '/tmp/mkseed'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def patched(s):
    d = W + '/' + s['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(W, exist_ok=True)
    sh('git -C /repo worktree prune; cp -a /repo %s' % d)
    for f, old, new in s['edits']:
        p = d + '/' + f; t = open(p, encoding='latin1', newline='').read()
        n = t.count(old)
        assert n == 1 or n and s.get('all'), (s['id'], f, old, n)
        open(p, 'w', encoding='latin1', newline='').write(t.replace(old, new))
    return d
def variants(d, out, env=None):
    r = {}
    for v in standin.VARIANTS:
        e = dict(os.environ, REPO=d)
        subprocess.run(['bash', H + '/build.sh', out + '/' + v] + standin.VARIANTS[v], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r[v] = out + '/' + v
    return r
def find(s, base, mut, secs):
    best = None; f = standin.PROPS[s.get('gen', s['property'])]
    g = gen.Gen(s.get('seed', 5)); srv = {}
    def srvf(b, v):
        if (b, v) not in srv:
            t = os.path.join((base if b else mut)[v], 'run', 'f%s' % s['id']); os.makedirs(t, exist_ok=True); srv[b, v] = diffrun.Srv(os.path.join((base if b else mut)[v], 'jsrv'), t)
        return srv[b, v]
    g.srv = lambda v: srvf(1, v); t0 = time.time(); n = 0
    while time.time() - t0 < secs:
        try: c = f(g)
        except standin.Skip: continue
        n += 1
        if s.get('filter') and not s['filter'](c): continue
        if best and len(c[4]) >= len(best['input']): continue
        a = srvf(1, c[0]).run(*c[1:5])
        if not c[6](a, c[5]): print('   unpatched fails?', c[:5]); continue
        b = srvf(0, c[0]).run(*c[1:5])
        if c[6](b, c[5]): continue
        best = dict(variant=c[0], mode=c[1], cores=c[2], query=c[3], input=c[4], expected=a)
        if c[6].__name__ == 'chk' and c[1] == 'a': best['check'] = 'automaton'
        if c[1] in 'ifl': best.update(check='chunks', expected=c[4])
        if c[1] in 'ck': best['check'] = 'rows'
    for x in srv.values(): x.close()
    return best, n
def main():
    want = sys.argv[1:]; base = None
    for s in SEEDS:
        if want and s['id'] not in want: continue
        out = os.path.join(V, 'seeded', s['id'])
        d = patched(s)
        diff = sh('git -C %s diff' % d).stdout
        if s.get('cases') is None and 'demo' not in s:
            if base is None: base = variants('/repo', W + '/base')
            mut = variants(d, W + '/m_' + s['id'])
            b, n = find(s, base, mut, s.get('secs', 30))
            print(s['id'], 'searched', n, 'found', b and {k: str(v)[:300] for k, v in b.items()})
            shutil.rmtree(W + '/m_' + s['id'], ignore_errors=True)
            if not b: shutil.rmtree(d); continue
            cases = [b]
        else: cases = s.get('cases')
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + '/patch.diff', 'wb').write(diff)
        if 'demo' in s:
            for n, t in s['demo'].items(): open(out + '/' + n, 'w').write(t)
        else:
            shutil.copy(H + '/seedkit/run.py', out); shutil.copy(H + '/jsrv.c', out + '/drv.c')
            if s['property'] == 'P13': shutil.copy(H + '/crow.cpp', out)
            json.dump([{k: v for k, v in c.items() if k != 'variant'} for c in cases], open(out + '/cases.json', 'w'), indent=1)
            if any(c.get('variant') == 'chunk' for c in cases): open(out + '/small_chunks', 'w').write('')
            t = open(H + '/seedkit/demo.sh').read()
            if s.get('san'): t = t.replace('${SAN:-}', s['san'])
            open(out + '/demo.sh', 'w').write(t)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(out + '/meta.json', 'w'), indent=1)
        os.chmod(out + '/demo.sh', 0o755)
        # confirmation
        lay = tempfile.mkdtemp()
        for f in os.listdir(out):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json': shutil.copy(out + '/' + f, lay)
        r0 = sh('cd /repo && bash %s/demo.sh' % lay, timeout=300)
        r1 = sh('unshare -m sh -c "mount --bind %s /repo && cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh %s/t.json >/dev/null 2>&1; bash %s/demo.sh"' % (d, W, lay), timeout=900)
        try: t = json.load(open(W + '/t.json'))
        except Exception as e: t = {'failed': ['?'], 'passed': []}
        st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        bad = st - set(t.get('passed', []))
        print(s['id'], 'demo unpatched', r0.returncode, 'patched', r1.returncode, 'stable tests failing', bad, '' if not r0.returncode and r1.returncode and not bad else '   <<<<<<<< NOT VALID')
        if r0.returncode or not r1.returncode: print(r0.stdout.decode()[-800:], '\n---\n', r1.stdout.decode()[-800:])
        if r0.returncode or not r1.returncode or bad: shutil.rmtree(out)
        shutil.rmtree(lay); shutil.rmtree(d)
main()
