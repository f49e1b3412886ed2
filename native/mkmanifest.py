"""writes MANIFEST.json from checks.py"""
import json, sys; sys.path.insert(0, '/verif')
import checks
M = dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='JPV_UNUSED', enable='no hooks were added to /repo: the contracts are sidecar files in /verif/specs', source_commits=[]), checks=[], not_applicable=[dict(property=k, reason=v) for k, v in checks.NA.items()],
         notes='Technique: contract-based deductive verification of the C sources with the verification condition generator in /verif/jpv; see DESIGN.md.')
for p, c in checks.PROPS.items():
    M['checks'].append(dict(property=p, quick_cmd='python3-vt -m jpv.run %s' % p, thorough_cmd='python3-vt -m jpv.run %s --tier thorough' % p, technique=c.get('technique', 'function contracts on the real C source, discharged deductively (own VC generator over the clang AST, z3/cvc5)'),
                            level=c.get('level', 'proof'), level_note=c['note']))
json.dump(M, open('/verif/MANIFEST.json', 'w'), indent=1)
