"""run.py DRIVER SCRATCH CASES: each case runs the real code on one input; exit 1 when an answer is not the expected one"""
import sys, json, subprocess
drv, tmp, cases = sys.argv[1:4]; bad = 0
def chunks_ok(got, text, n):
    if not isinstance(got, list) or ''.join(got) != text or n and len(got) > n: return False
    p = 0
    for c in got[:-1]:
        p += len(c); j = p - 1
        while j >= 0 and text[j] in ' \t\n\r': j -= 1
        if text[p:p+1] != '"' or j < 0 or text[j] not in ',{[': return False
    return True
for c in json.load(open(cases)):
    q = c['query'].encode('latin1'); d = c['input'].encode('latin1')
    p = subprocess.run([drv, tmp], input=b'%s %d %d %d\n' % (c['mode'].encode(), c['cores'], len(q), len(d)) + q + d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    o = p.stdout; h, _, o = o.partition(b'\n'); got = h.decode()
    if h.startswith(b'OK'):
        got = []
        for _ in range(int(h.split()[1])):
            l, _, o = o.partition(b'\n'); got.append(o[:int(l)].decode('latin1')); o = o[int(l) + 1:]
    k = c.get('check')
    if k == 'chunks': ok = chunks_ok(got, c['expected'], c['cores'] if c['mode'] != 'l' else 0)
    elif k == 'rows': ok = isinstance(got, list) and sorted(' '.join(sorted(x.split())) for x in got) == sorted(' '.join(sorted(x.split())) for x in c['expected'])
    elif k == 'automaton': ok = isinstance(got, list) and [x.split()[:3] for x in got] == [x.split()[:3] for x in c['expected']]
    else: ok = got == c['expected']
    if not ok:
        bad = 1; print('query   ', c['query']); print('input   ', c['input'][:600]); print('expected', c['expected']); print('got     ', got)
sys.exit(bad)
