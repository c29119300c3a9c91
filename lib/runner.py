import os, sys, json, subprocess, shutil, tempfile, time, re, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import instrument, loopgen
from units import UNITS, PROPS

REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

def sh(cmd, timeout=120, cwd=None, env=None, mem_gb=None):
    t0 = time.time()
    try:
        pre = None
        if mem_gb:
            import resource
            pre = lambda: resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        r = subprocess.run(cmd, capture_output=True, timeout=timeout, cwd=cwd, env=env, preexec_fn=pre)
        return r.returncode, r.stdout.decode('latin-1'), r.stderr.decode('latin-1'), time.time() - t0
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('latin-1'), (e.stderr or b'').decode('latin-1'), time.time() - t0

import signal
BACKENDS = {'sat': ['--sat-solver', 'minisat2'], 'cadical': ['--sat-solver', 'cadical'], 'slice': ['--sat-solver', 'minisat2', '--slice-formula'], 'kissat': ['--external-sat-solver', 'kissat'], 'cvc5': ['--cvc5'], 'z3': ['--z3']}
def race(cmd, backends, timeout, wd, mem_gb=12):
    """the same verification problem given to several back ends at once; the first complete answer counts"""
    import resource
    t0 = time.time(); ps = []; last = ''; crashed = 0
    for bk in backends:
        f = open('%s/out_%s' % (wd, bk), 'wb+')
        p = subprocess.Popen(cmd + BACKENDS[bk], stdout=f, stderr=subprocess.STDOUT, start_new_session=True,
                             preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30)))
        ps.append((bk, p, f))
    ans = None
    live = list(ps)
    while live and ans is None and time.time() - t0 < timeout:
        for x in list(live):
            bk, p, f = x
            if p.poll() is not None:
                live.remove(x)
                f.seek(0); o = f.read().decode('latin-1')
                res, solver, err = cbmc_json(o)
                if res is not None and (all(y['status'] in ('SUCCESS', 'FAILURE') for y in res) or any(y['status'] == 'FAILURE' and '.unwind.' in y['property'] for y in res)): ans = (bk, res, solver); break
                last = '%s: %s' % (bk, (err or o[-400:])[:800]); crashed += p.returncode == -signal.SIGSEGV
        else: time.sleep(0.02)
    for bk, p, f in ps:
        if p.poll() is None:
            try: os.killpg(p.pid, signal.SIGKILL)
            except Exception: pass
            p.wait()
        f.close()
    if ans: return ans[0], ans[1], ans[2], '', time.time() - t0
    if crashed == len(backends) and not '--no-simplify' in cmd:
        # the simplifier of this version crashes on some pointer comparisons; the same problem without simplification is the same obligation set
        return race(cmd + ['--no-simplify'], backends, max(5, timeout - (time.time() - t0)), wd, mem_gb)
    return None, None, None, ('timeout' if live else 'error: ' + last), time.time() - t0

class Build:
    """The real sources of /repo, copied to a scratch directory, compiled for the verifier: as they are, and with loop call-backs."""
    def __init__(self, scratch):
        self.dir = scratch; self.src = scratch + '/repo'
        os.makedirs(self.src)
        for d in ('src', 'include'):
            shutil.copytree(os.path.join(REPO, d), os.path.join(self.src, d), ignore=shutil.ignore_patterns('*.o'))
        self.incs = ['-I', self.src + '/include', '-I', self.src + '/src']
        self.files = sorted(os.path.join(r, f) for r, _, fs in os.walk(self.src + '/src') for f in fs if f.endswith('.c'))
        self.loops = []; self.funcs = {}; self.errors = []
        os.makedirs(scratch + '/o'); os.makedirs(scratch + '/i')
        with ThreadPoolExecutor(JOBS) as ex: list(ex.map(self.one, enumerate(self.files)))
        self.plain = [scratch + '/o/%d.gb' % k for k in range(len(self.files))]
        self.instr = [scratch + '/i/%d.gb' % k for k in range(len(self.files))]
        if not self.errors:
            for name, objs in (('lib', self.plain), ('libi', self.instr)):
                rc, o, e, _ = sh(['goto-cc', '-o', '%s/%s.gb' % (scratch, name)] + objs)
                if rc != 0: self.errors.append('link: ' + e[-2000:])
    def one(self, kf):
        k, f = kf
        rel = os.path.relpath(f, self.src)
        rc, o, e, _ = sh(['goto-cc', '-w', '-std=gnu99', '-c'] + self.incs + [f, '-o', self.dir + '/o/%d.gb' % k])
        if rc != 0: self.errors.append(rel + ': ' + e[-2000:]); return
        try:
            text, loops, funcs, src = instrument.instrument(f, self.incs, rel)
        except Exception as ex:
            self.errors.append('%s: instrumentation: %r' % (rel, ex)); return
        # prototypes after the last #include
        m = list(re.finditer(r'^[ \t]*#[ \t]*include.*$', text, re.M))
        pos = m[-1].end() if m else 0
        text = text[:pos] + '\n' + instrument.prototypes(loops) + text[pos:]
        g = os.path.join(os.path.dirname(f), 'v_instr_' + os.path.basename(f))
        open(g, 'w', encoding='latin-1').write(text)
        rc, o, e, _ = sh(['goto-cc', '-w', '-std=gnu99', '-c'] + self.incs + [g, '-o', self.dir + '/i/%d.gb' % k])
        if rc != 0: self.errors.append(rel + ' (instrumented): ' + e[-2000:]); return
        for l in loops: l['rel'] = rel
        self.loops += loops; self.funcs.update({n: dict(v, file=rel) for n, v in funcs.items()})

class Result: pass

def cbmc_json(out):
    """plain output of the verifier (its JSON output builds a trace for every failed assertion, which is far too slow here)"""
    if '** Results:' not in out: return None, None, out[-500:]
    solver = sum(float(x) for x in re.findall(r'^Runtime Solver: ([\d.e+-]+)s', out, re.M))
    res = []; fi = fn = ''
    for l in out[out.index('** Results:'):].split('\n'):
        m = re.match(r'(\S*) ?function (\S+)$', l)
        if m: fi, fn = m.group(1), m.group(2); continue
        m = re.match(r'\[(\S+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$', l)
        if m: res.append(dict(property=m.group(1), description=m.group(3), status=m.group(4), sourceLocation=dict(file=fi, function=fn, line=m.group(2))))
    m = re.search(r'^\*\* (\d+) of (\d+) failed', out, re.M)
    if not m or int(m.group(2)) != len(res): return None, None, 'output not understood: %s\n%s' % (m and m.group(0), out[-500:])
    return res, solver, ''

HINTS = json.load(open(HERE + '/hints.json')) if os.path.exists(HERE + '/hints.json') else {}
def run_unit(b, name, extra_defs=(), trace=False, limit=None, nocut=False, unwind=None):
    # hints: candidates known to be refuted, left out from the start (any inductive subset will do); if the proof does not go through with them, again from the full set
    h = HINTS.get(name)
    if h and not nocut and not os.environ.get('VERIF_NOHINTS'):
        t = time.time()
        r = run_unit_(b, name, extra_defs, trace, limit, nocut, unwind, set(h))
        if r.status == 'proved' or r.reason.startswith('function under') or r.structural: return r
        limit = max(10, (limit or 1e9) - (time.time() - t))
    return run_unit_(b, name, extra_defs, trace, limit, nocut, unwind, set())

def run_unit_(b, name, extra_defs, trace, limit, nocut, unwind, hints):
    """-> Result: status in proved / failed / undecided, obligations, failures, ..."""
    u = UNITS[name]; r = Result(); r.name = name; r.t0 = time.time(); r.solver = 0.0; r.rounds = 0
    r.failures = []; r.structural = []; r.obligations = 0; r.discharged = 0; r.reach = 0; r.reason = ''; r.dropped = []
    wd = tempfile.mkdtemp(prefix='u_%s_' % name, dir=b.dir)
    stubs = [s for s in u.stubs if not (nocut and s in u.small_drop)] + (u.small_add if nocut else [])
    libc = {'strlen', 'strrchr', 'fopen', 'fclose', 'fread', 'fwrite', 'getc', 'putc', 'fgetc', 'fputc', 'fseek', 'ftell', 'rewind', 'ferror', 'feof', 'fflush', 'perror', 'tmpfile', 'exit', 'ungetc', 'fgets', 'fputs', 'strcmp', 'remove', 'rename', 'fileno', 'ftruncate'}
    never = [s for s in u.never if s in b.funcs]
    real = [s for s in stubs if s in b.funcs] + never
    r.dropped = [s for s in stubs if s not in b.funcs and s not in libc]
    defs = ['-DUNIT_' + name] + ['-DUSE_' + s for s in stubs if s in b.funcs or s in libc] + ['-D' + d for d in extra_defs]
    missing = [f for f in u.contract if f not in b.funcs]
    if missing:
        r.status = 'undecided'; r.reason = 'function under contract not found: ' + ', '.join(missing); r.structural = ['missing: ' + ', '.join(missing)]; return fin(r, wd)
    # a loop whose effect on memory the invariants cannot speak about is unwound instead
    cuttable = lambda l: not l['opaque'] and (not l['passes'] or name in ('g_parse', 'g_ser'))
    cut = set() if nocut else {l['name'] for l in b.loops if l['func'] in u.cut and cuttable(l)}
    disabled = set(hints); unwind = unwind or u.unwind
    lib = b.dir + ('/libi.gb' if (u.cut is not None) else '/lib.gb')
    ulib = wd + '/lib.gb'
    if real:
        cmd = ['goto-instrument'] + sum([['--remove-function-body', s] for s in real], []) + [lib, ulib]
        rc, o, e, _ = sh(cmd)
        if rc != 0: r.status = 'undecided'; r.reason = 'goto-instrument: ' + (o + e)[-800:]; return fin(r, wd)
    else: ulib = lib
    lim = min(u.timeout, limit or u.timeout); t_end = r.t0 + lim
    while True:
        r.rounds += 1
        open(wd + '/loops.h', 'w').write(loopgen.gen(b.loops, cut, disabled) + never_stubs(b, never))
        rc, o, e, _ = sh(['goto-cc', '-w', '-std=gnu99', '-c', '-I', wd, '-I', VERIF + '/u'] + b.incs + defs + [VERIF + '/u/' + u.file, '-o', wd + '/h.gb'])
        if rc != 0: r.status = 'undecided'; r.reason = 'the unit does not compile against this source: ' + (o + e)[-1500:]; r.structural = ['does not compile']; return fin(r, wd)
        rc, o, e, _ = sh(['goto-cc', '-w', '--function', 'harness', ulib, wd + '/h.gb', '-o', wd + '/u.gb'])
        if rc != 0: r.status = 'undecided'; r.reason = 'link: ' + (o + e)[-1500:]; r.structural = ['does not link']; return fin(r, wd)
        cmd = ['cbmc', wd + '/u.gb', '--function', 'harness', '--no-malloc-may-fail', '--drop-unused-functions', '--unwind', str(unwind), '--unwinding-assertions', '--verbosity', '8'] + u.flags
        r.cmd = ' '.join(cmd).replace(wd, '$W').replace(b.dir, '$B')
        left = t_end - time.time()
        bk, res, solver, err, dt = race(cmd, u.backends, max(5, left), wd)
        r.cbmc_s = dt
        if res is None: r.status = 'undecided'; r.reason = 'verifier: %s (limit %d s)' % (err, lim); return fin(r, wd)
        r.backend = bk
        r.solver += dt
        fails = [x for x in res if x['status'] == 'FAILURE'] # UNKNOWN: not decided because a loop was not unwound far enough
        cands = {':'.join(x['description'].split(':')[1:3]) for x in fails if x['description'].startswith('cand:')}
        new = cands - disabled
        if new: disabled |= new; continue
        uw = [x for x in fails if '.unwind.' in x['property'] or 'unwinding assertion' in x['description']]
        if uw:
            newcut = set()
            for x in uw:
                fn = x['property'].split('.unwind.')[0]
                newcut |= {l['name'] for l in b.loops if l['func'] == fn and cuttable(l)} - cut
            if newcut and r.rounds < 12 and not nocut: cut |= newcut; continue
            if unwind < 40 and r.rounds < 14 and not nocut: unwind = 40 if unwind >= 16 else 16; continue
        break
    r.disabled = sorted(disabled); r.cut = sorted(cut)
    r.invariants = {}
    live = [x for x in res if x['description'].startswith('cand:')]
    for x in live:
        p = x['description'].split(':'); r.invariants.setdefault(p[1], set()).add(p[2])
    r.invariants = {k: sorted(v) for k, v in r.invariants.items()}
    for x in res:
        d = x['description']
        if d.startswith('reach:'):
            r.reach += 1
            if x['status'] == 'SUCCESS': r.failures.append(dict(kind='vacuity', property=x['property'], description=d, line=x.get('sourceLocation', {}).get('line')))
            continue
        r.obligations += 1
        if x['status'] == 'SUCCESS': r.discharged += 1
        else:
            sl = x.get('sourceLocation', {})
            kind = 'unwind' if (x['status'] != 'FAILURE' or '.unwind.' in x['property'] or 'unwinding' in d) else 'invariant' if d.startswith('invariant:') else 'termination' if d.startswith('term:') else 'no-body' if 'no body' in d or 'no-body' in x['property'] else 'ensures' if d.startswith('ensures:') else 'requires' if d.startswith('requires:') else 'shape' if d.startswith('shape:') else 'safety'
            r.failures.append(dict(kind=kind, property=x['property'], description=d, file=os.path.basename(sl.get('file', '')), function=sl.get('function'), line=sl.get('line')))
    if r.reach == 0: r.failures.append(dict(kind='vacuity', description='the unit has no reachability check', property=''))
    r.lost_inv = any(l not in r.invariants for l in cut)
    r.status = 'proved' if not r.failures else 'failed'
    r.keep = wd
    if trace and r.failures:
        f = [x for x in r.failures if x['kind'] not in ('vacuity',)]
        if f:
            rc, o, e, _ = sh(['cbmc', wd + '/u.gb', '--function', 'harness', '--no-malloc-may-fail', '--drop-unused-functions', '--unwind', str(unwind), '--unwinding-assertions', '--trace', '--property', f[0]['property']] + u.flags, timeout=120, mem_gb=12)
            r.trace = o
    return fin(r, wd)

def never_stubs(b, never):
    """functions that must not be reached in a unit (their contract there: requires false)"""
    o = ''
    for f in never:
        d = b.funcs[f]
        if d['static']: continue
        o += '%s %s(%s) { REQUIRES(0, "%s is not called here"); ASSUME(0); }\n' % (d['ret'], f, ', '.join(loopgen.decl(t, 'a%d' % i) for i, t in enumerate(d['params'])) or 'void', f)
    return o

def fin(r, wd):
    r.wall = time.time() - r.t0
    if not os.environ.get('VERIF_KEEP'): shutil.rmtree(wd, ignore_errors=True)
    else: r.keep = wd
    return r
