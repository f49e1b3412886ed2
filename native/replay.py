"""replay.py FILE: rebuilds /repo and runs the witness recorded in a replay file; exit 1 if it still fails"""
import sys, os, json, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import standin
r = json.load(open(sys.argv[1])); w = r.get('witness')
if not w: print('no witness; failed obligations:'); [print(' ', f['function'], f['obligation'], f['status'], str(f['verifier'])[:600]) for f in r['failed_obligations']]; sys.exit(1)
if 'mode' not in w: print(json.dumps(w, indent=1)[:4000]); sys.exit(1)
d = tempfile.mkdtemp()
try:
    ok, err = standin.build(d, w['variant']); print(err)
    got = standin.run1(d, w); print('query   ', w['query']); print('input   ', w['input'][:2000]); print('expected', str(w['expected'])[:2000]); print('got     ', str(got)[:2000])
    rc = 1 if got == w['got'] else 0
finally: shutil.rmtree(d)
sys.exit(rc)
