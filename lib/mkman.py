import json,sys
sys.path.insert(0,'/verif/lib')
from units import PROPS
checks=[]
for k in sorted(PROPS):
    p=PROPS[k]; proof=bool(p['units'])
    checks.append(dict(property=k, quick_cmd='python3 lib/check.py %s'%k, thorough_cmd='VERIF_TIER=thorough python3 lib/check.py %s thorough'%k,
        technique='contract-based deductive verification: CBMC contract units over the real C functions (callees by contract, loops by inductive invariants)'+('; bounded native stand-in for: '+', '.join(p.get('bounded',[])) if p.get('bounded') else ''),
        level=p.get('level','proof'),
        level_note=p.get('note','Obligations are generated from the current source and discharged for inputs of any size up to 2^28 bytes. Assumes malloc succeeds and the C library behaves as modelled by CBMC; parts listed as bounded are only explored by randomized native scenarios against an independent model.')))
m=dict(version=1, setup_cmd='true', checks=checks, not_applicable=[dict(property='C20', reason='Crash points inside a call are outside pre/postconditions of functions: a contract speaks about the state after the call returns, not about every intermediate state of the disk. The code also rewrites the file in place (truncate, then copy back) by design, so the property does not hold and repairing it means a different algorithm (write beside, rename), which changes hard links, permissions and symlinks: not a small, safe patch.')],
  notes='No hooks in /repo: loop call-backs are inserted into a scratch copy of the sources, mechanically and insertion-only, on every run. See DESIGN.md.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
