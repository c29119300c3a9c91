import sys, tempfile, os, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner
from concurrent.futures import ThreadPoolExecutor
names = sys.argv[1:]
d = tempfile.mkdtemp(prefix='vd_')
b = runner.Build(d)
print('build', b.errors)
tr = 'trace' in names; names = [n for n in names if n not in ('trace', 'small', 'hints')] or list(runner.UNITS)
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(lambda n: runner.run_unit(b, n, trace=tr) if not 'small' in sys.argv else runner.run_unit(b, n, extra_defs=runner.UNITS[n].small, trace=tr, nocut=True, unwind=runner.UNITS[n].small_unwind), names):
        print('%-14s %-9s obl %d/%d reach %d rounds %d wall %.1f solver %.1f %s' % (r.name, r.status, r.discharged, r.obligations, r.reach, r.rounds, r.wall, r.solver, r.reason))
        if 'hints' in sys.argv and r.status == 'proved' and r.disabled: runner.HINTS[r.name] = r.disabled
        for f in r.failures: print('    ', f)
        print('     ', getattr(r,'backend',''), getattr(r, 'invariants', None) or '')
        if tr and hasattr(r, 'trace'): open('/tmp/trace_%s.txt' % r.name, 'w').write(r.trace)
if not os.environ.get('VERIF_KEEP'): shutil.rmtree(d)
else: print(d)

if 'hints' in sys.argv: import json; json.dump(runner.HINTS, open(os.path.dirname(os.path.abspath(__file__)) + '/hints.json', 'w'), indent=0, sort_keys=True)
