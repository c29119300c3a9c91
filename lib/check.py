"""check.py PROPERTY: decides one property on /repo's current source. Exit 0: held; exit 1: VIOLATION line."""
import os, sys, json, time, shutil, tempfile, subprocess, signal, atexit, threading, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import runner
from units import UNITS, PROPS, ASSUMPTIONS, TRUSTED
REPO = runner.REPO

PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'): TIER = sys.argv[2]
try: SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError: SEED = 1
THOROUGH = TIER == 'thorough'
T0 = time.time()
NATIVE_S = float(os.environ.get('VERIF_NATIVE_S', '120' if THOROUGH else '14'))
U_LIMIT = 3000 if THOROUGH else 520          # seconds for all proof units together
TOTAL = 6000 if THOROUGH else 780           # seconds for everything
WORKERS = 3
EVID = os.path.join(VERIF, 'evidence'); os.makedirs(EVID, exist_ok=True)
REPLAY = os.path.join(EVID, 'replay_%s.txt' % PROP)
scratch = tempfile.mkdtemp(prefix='vchk_%s_' % PROP, dir='/tmp')
atexit.register(lambda: shutil.rmtree(scratch, ignore_errors=True))
def on_term(*a): sys.exit(1)
signal.signal(signal.SIGTERM, on_term)

spec = PROPS[PROP]
out = dict(property=PROP, tier=TIER, seed=SEED, level=spec.get('level', 'proof'), coverage={}, assumptions=[], wall_s=0.0, violations=0)

# ---- the native scenarios -----------------------------------------------------------------------------------------
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=16:abort_on_error=0:exitcode=1', UBSAN_OPTIONS='print_stacktrace=1')
ENV.pop('SCEN_DEBUG', None)
def native(src, big=False):
    """-> dict(status=ok|fail|error, runs, iterations, report)"""
    n = dict(status='ok', runs=[], iterations=0, other=0, report='')
    exe = scratch + '/scen'; env = dict(ENV, SCEN_BIG='1') if big else ENV; seconds = min(30, 2 * NATIVE_S) if big else NATIVE_S
    extra = ['-fsanitize=undefined', '-fno-sanitize-recover=undefined'] if PROP in ('C01', 'C03') else []
    try: r = None if big else subprocess.run(['bash', VERIF + '/s/build.sh', src, exe] + extra, capture_output=True, text=True, timeout=300, errors='replace')
    except subprocess.TimeoutExpired: n['status'] = 'error'; n['report'] = 'building the scenarios timed out'; return n
    if r and r.returncode != 0: n['status'] = 'error'; n['report'] = 'the scenarios do not build: ' + r.stderr[-1500:]; return n
    l = subprocess.run([exe, 'list'], capture_output=True, text=True, env=ENV, timeout=20).stdout
    num = int(PROP[1:])
    scens = [x.split()[0] for x in l.splitlines() if len(x.split()) == 2 and int(x.split()[1]) >> num & 1]
    w = spec.get('weights', {})
    scens = [s for s in scens if w.get(s, 1)]
    if not scens: n['status'] = 'error'; n['report'] = 'no scenario'; return n
    procs = 8; per = max(1, procs // len(scens))
    jobs = [(s, SEED * 1000 + k + (500 if big else 0)) for s in scens for k in range(per)]
    secs = seconds * max(1, (len(jobs) + procs - 1) // procs) / max(1, (len(jobs) + procs - 1) // procs)
    stop = threading.Event()
    def one(j):
        s, seed = j
        if stop.is_set(): return None
        d = tempfile.mkdtemp(prefix='n_', dir=scratch)
        cmd = [exe, str(num), s, str(seed), '0', '1000000000', d, str(secs)]
        t = time.time()
        try:
            p = subprocess.run(cmd, capture_output=True, env=env, timeout=secs + 100)
            rc, o = p.returncode, (p.stdout + p.stderr).decode('latin-1')
        except subprocess.TimeoutExpired as e:
            rc, o = 'timeout', ((e.stdout or b'') + (e.stderr or b'')).decode('latin-1')
        shutil.rmtree(d, ignore_errors=True)
        if 'END-FAIL' in o or rc == 1: stop.set()
        return s, seed, rc, o, time.time() - t
    with ThreadPoolExecutor(procs) as ex: rs = [x for x in ex.map(one, jobs) if x]
    for s, seed, rc, o, dt in rs:
        m = re.search(r'^OK scenario=\S+ iterations=(\d+) other=(\d+)', o, re.M)
        it = int(m.group(1)) if m else 0
        n['iterations'] += it; n['other'] += int(m.group(2)) if m else 0
        n['runs'].append(dict(scenario=s, seed=seed, iterations=it, seconds=round(dt, 1), result='held' if m else 'failed' if 'END-FAIL' in o else 'error %s' % rc))
        if 'FAIL scenario=' in o:
            n['status'] = 'fail'
            if not n['report']:
                mm = re.search(r'FAIL scenario=(\S+) seed=(\d+) iteration=(\d+)', o)
                n['fail'] = mm.groups(); n['report'] = o[max(0, o.index('FAIL scenario=') - 12000):][-30000:]
        elif not m and n['status'] == 'ok': n['status'] = 'error'; n['report'] = '%s: %s' % (rc, o[-1500:])
    return n

# ---- the proof units ---------------------------------------------------------------------------------------------------
def units():
    if not spec.get('units'): return None, []
    b = runner.Build(scratch + '/b')
    if b.errors: return b, []
    end = time.time() + U_LIMIT
    def one(u):
        left = end - time.time()
        return runner.run_unit(b, u, limit=max(3, left))
    us = sorted(spec['units'] + (spec.get('thorough_units', []) if THOROUGH else []), key=lambda u: -UNITS[u].cost)
    with ThreadPoolExecutor(WORKERS) as ex: rs = list(ex.map(one, us))
    return b, rs

def confirm(b, r, n_ok=True):
    """a failed unit again, on small inputs and without cutting loops: removes failures of the proof, keeps those of the code"""
    u = UNITS[r.name]
    if not u.small: return None
    limit = min(240, TOTAL - (time.time() - T0) - (45 if n_ok else 0))
    if limit < 20: return None
    return runner.run_unit(b, r.name, extra_defs=u.small, trace=True, limit=limit, nocut=True, unwind=u.small_unwind)

def main():
    src = scratch + '/src'; os.makedirs(src)
    for d in ('src', 'include'): shutil.copytree(os.path.join(REPO, d), os.path.join(src, d), ignore=shutil.ignore_patterns('*.o'))
    b, rs = units()
    tU = time.time() - T0
    n = native(src)
    proved = [r for r in rs if r.status == 'proved']
    bounded = []; viol = []
    for r in rs:
        if r.status == 'proved': continue
        hard = [f for f in r.failures if f['kind'] in ('ensures', 'requires', 'safety')]
        soft = [f for f in r.failures if f['kind'] not in ('ensures', 'requires', 'safety')]
        why = r.reason or '; '.join('%s [%s]' % (f['description'], f['kind']) for f in (hard + soft)[:4])
        inv = any(f['kind'] == 'invariant' for f in soft)
        if r.status == 'failed' and (hard or inv) and n['status'] != 'fail' and not set(r.dropped) - set(UNITS[r.name].small_drop):
            c = confirm(b, r)
            if c is None: bounded.append((r, why))
            else:
                ch = [f for f in c.failures if f['kind'] in ('ensures', 'requires', 'safety')]
                cs = [f for f in c.failures if f['kind'] not in ('ensures', 'requires', 'safety', 'vacuity')]
                if c.status == 'failed' and ch and not cs: viol.append((c, ch, 'confirmed on inputs of bounded size with all loops unwound', getattr(c, 'trace', '')))
                elif c.status == 'proved' or (c.status == 'failed' and not ch): bounded.append((r, 'the proof fails (%s), the same obligations hold for inputs of bounded size' % why))
                else: bounded.append((r, 'the proof fails (%s), not confirmed on small inputs: %s' % (why, c.reason)))
        else: bounded.append((r, why))
    if bounded and not viol and n['status'] == 'ok' and TOTAL - (time.time() - T0) > 60:
        # what the proof no longer covers is searched for failures that only large inputs show
        m = native(src, big=True); m['runs'] = n['runs'] + m['runs']; m['iterations'] += n['iterations']; m['other'] += n['other']
        m['big'] = True; n = m
    obl = sum(r.obligations for r in rs); dis = sum(r.discharged for r in rs)
    cov = out['coverage']
    cov.update(obligations=obl, discharged=dis,
               checker_cmd=(rs[0].cmd if rs and hasattr(rs[0], 'cmd') else 'cbmc (no unit ran)') + '   [per unit; see units[].cmd]',
               trusted_base=TRUSTED,
               functions_under_contract=sorted({f for r in proved for f in UNITS[r.name].contract}),
               units=[dict(unit=r.name, status=r.status, functions=UNITS[r.name].contract, callees_by_contract=UNITS[r.name].stubs, obligations=r.obligations, discharged=r.discharged,
                           reachability_checks=r.reach, back_end=getattr(r, 'backend', None), wall_s=round(r.wall, 1), solver_s=round(r.solver, 1), rounds=r.rounds,
                           loop_invariants={k: v for k, v in getattr(r, 'invariants', {}).items()}, reason=r.reason[:400], cmd=getattr(r, 'cmd', '')) for r in rs],
               bounded_stand_ins=[dict(unit=r.name, why=w[:600], stand_in='native scenarios below, bounded: random inputs only') for r, w in bounded] + [dict(part=x, stand_in='native scenarios below, bounded') for x in spec.get('bounded', [])],
               native=dict(status=n['status'], runs=n['runs'], note='bounded search for failing inputs on the real code (AddressSanitizer build); not counted as proof'),
               evaluations=n['iterations'], distinct_nontrivial=max(0, n['iterations'] - n['other']),
               rule='each native iteration draws a fresh random case (determined by scenario, seed, iteration); iterations abandoned because of another property are not counted as non-trivial',
               samples=[dict(scenario=x['scenario'], seed=x['seed'], first_iteration=0, last_iteration=x['iterations'] - 1) for x in n['runs'][:4]])
    if b is not None and b.errors: cov['build_errors'] = [e[:600] for e in b.errors[:3]]
    out['assumptions'] = ASSUMPTIONS + spec.get('assumptions', [])
    lines = []
    kf = [l.strip() for l in open(VERIF + '/KNOWN_FINDINGS.txt') if l.startswith('known: property=%s ' % PROP)] if os.path.exists(VERIF + '/KNOWN_FINDINGS.txt') else []
    for l in kf: lines.append('KNOWN-FINDING: ' + l[len('known: '):])
    code = 0
    failed_obl = ['%s in %s (%s line %s) [unit %s]' % (f['description'], f.get('function'), f.get('file'), f.get('line'), r.name) for r in rs for f in r.failures if f['kind'] in ('ensures', 'requires', 'safety')]
    if n['status'] == 'fail':
        s, seed, it = n['fail']
        with open(REPLAY, 'w') as f:
            f.write('property %s: failing input, found on the real code\n\n' % PROP)
            f.write('failed proof obligations:\n' + (''.join('  %s\n' % x for x in failed_obl[:40]) or '  (none failed by name: unit undecided or loops cut; see evidence)\n'))
            f.write('\nreplay:\n  cd /tmp && bash %s/s/build.sh %s ./scen && mkdir -p scratch && %sASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 ./scen %d %s %s %s 1 scratch\n\n%s\n' % (VERIF, REPO, 'SCEN_BIG=1 ' if n.get('big') else '', int(PROP[1:]), s, seed, it, n['report']))
        lines.append('VIOLATION property=%s replay=%s' % (PROP, REPLAY)); code = 1
        out['violations'] = 1
    elif viol:
        with open(REPLAY, 'w') as f:
            f.write('property %s: failed proof obligations, no failing input found by the native scenarios (%d iterations)\n\n' % (PROP, n['iterations']))
            for r, hard, how, tr in viol:
                f.write('unit %s (%s), back end %s\n' % (r.name, how, getattr(r, 'backend', '?')))
                for x in hard: f.write('  FAILED %s: %s  in %s (%s line %s)\n' % (x['property'], x['description'], x.get('function'), x.get('file'), x.get('line')))
                f.write('  command: %s\n' % getattr(r, 'cmd', ''))
                if tr: f.write('\nverifier output with counterexample:\n%s\n' % tr[-20000:])
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (PROP, REPLAY)); code = 1
        out['violations'] = len(viol)
    out['wall_s'] = round(time.time() - T0, 1)
    cov['wall_units_s'] = round(tU, 1)
    json.dump(out, open(os.path.join(EVID, PROP + '.json'), 'w'), indent=1)
    print('%s [%s] units proved %d/%d, obligations %d/%d, functions under contract %d, native %s %d iterations, %.0f s' % (PROP, TIER, len(proved), len(rs), dis, obl, len(cov['functions_under_contract']), n['status'], n['iterations'], out['wall_s']))
    for r, w in bounded: print('  %s: unit %s: %s' % ('failed obligations' if r.status == 'failed' and n['status'] == 'fail' else 'bounded', r.name, w[:300]))
    if n['status'] == 'error': print('  native scenarios gave no answer: ' + n['report'][:600])
    for l in lines: print(l)
    sys.stdout.flush()
    return code

if __name__ == '__main__':
    try: rc = main()
    except Exception:
        import traceback; traceback.print_exc()
        out['coverage'].update(explanation='the check could not be completed: ' + traceback.format_exc()[-800:], obligations=0, discharged=0, checker_cmd='', trusted_base=[])
        out['wall_s'] = round(time.time() - T0, 1)
        json.dump(out, open(os.path.join(EVID, PROP + '.json'), 'w'), indent=1)
        rc = 2
    sys.exit(rc)
