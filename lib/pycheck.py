"""C14: explores the Python binding in the simulated Python world (sim/py). Same contract as check.py's explore/replay."""
import collections, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('POLYSIM_REPO', '/repo')
PY = os.environ.get('POLYSIM_PYTHON', '/opt/vp/venv/bin/python3')
BUILD = os.path.join(ROOT, 'build')
EVID = os.path.join(ROOT, 'evidence')
SIM = os.path.join(ROOT, 'sim', 'py')
NCPU = max(1, min(8, os.cpu_count() or 1))
T0 = time.time()
CXX = 'clang++'

def main_mod():
    return sys.modules.get('__main__') if hasattr(sys.modules.get('__main__'), 'Broken') else __import__('check')

def Broken(msg):
    return main_mod().Broken(msg)

def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)

# ------------------------------------------------------------------ building
def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', **kw)
    if p.returncode != 0:
        raise Broken('%s failed:\n%s' % (' '.join(cmd[:4]), (p.stderr or p.stdout)[-3000:]))
    return p.stdout

_env = {}
def info():
    if not _env:
        if not os.path.exists(PY):
            raise Broken('no Python environment at ' + PY)
        out = run([PY, '-c', 'import sysconfig,numpy,Cython,sys; print(sysconfig.get_paths()["include"]); print(numpy.get_include()); print(sys.version.split()[0], numpy.__version__, Cython.__version__)'])
        _env['inc'], _env['np'], _env['ver'] = out.splitlines()[:3]
        _env['asan'] = run([CXX, '-print-file-name=libclang_rt.asan-x86_64.so']).strip()
        _env['cxx'] = run([CXX, '--version']).splitlines()[0]
    return _env

def build():
    e = info()
    files = sorted(glob.glob(os.path.join(REPO, 'include', 'poly_ops', '*'))) + sorted(glob.glob(os.path.join(REPO, 'py', '*.py*'))) + \
        sorted(glob.glob(os.path.join(REPO, 'py', '*.px*'))) + [os.path.join(SIM, f) for f in ('shim.cpp', 'gilcheck.h')]
    flags = ['-std=c++20', '-O1', '-g', '-fPIC', '-shared', '-fvisibility=hidden', '-w', '-I' + e['inc'], '-I' + e['np']]
    san = ['-fsanitize=address', '-shared-libasan', '-fsanitize-coverage=trace-pc-guard', '-include', os.path.join(SIM, 'gilcheck.h'),
           '-DCYTHON_USE_PYLONG_INTERNALS=0', '-I' + os.path.join(REPO, 'include')]
    h = hashlib.sha256(repr((flags, san, e)).encode())
    for f in files:
        h.update(os.path.basename(f).encode() + b'\0')
        with open(f, 'rb') as s:
            h.update(s.read())
    out = os.path.join(BUILD, 'py-' + h.hexdigest()[:16])
    if os.path.isdir(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    with open(out + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.isdir(out):
            tmp = out + '.tmp%d' % os.getpid()
            os.makedirs(os.path.join(tmp, 'polyops'))
            cpp = os.path.join(tmp, '_polyops.cpp')
            def ext():
                run([PY, '-m', 'cython', '--cplus', '-I' + os.path.join(REPO, 'py'), '-o', cpp, '--module-name', 'polyops._polyops', os.path.join(REPO, 'py', '_polyops.pyx')], cwd=tmp)
                run([CXX, *flags, *san, cpp, '-o', os.path.join(tmp, 'polyops', '_polyops.so')])
            def shim():
                run([CXX, *flags, os.path.join(SIM, 'shim.cpp'), '-o', os.path.join(tmp, 'polyshim.so'), '-ldl', '-lpthread'])
            with cf.ThreadPoolExecutor(2) as pool:
                for f in [pool.submit(ext), pool.submit(shim)]:
                    f.result()
            os.unlink(cpp)
            shutil.copy(os.path.join(REPO, 'py', '__init__.py'), os.path.join(tmp, 'polyops'))
            os.rename(tmp, out)
    try:
        os.unlink(out + '.lock')
    except OSError:
        pass
    for d in sorted((d for d in glob.glob(os.path.join(BUILD, 'py-*')) if os.path.isdir(d)), key=os.path.getmtime)[:-3]:
        shutil.rmtree(d, ignore_errors=True)
    return out

# ------------------------------------------------------------------ running
class Server:
    """one simulator process; every plan runs in a child forked from it"""
    def __init__(self, bld, seed, tmp):
        env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'ASAN', 'LD_'))}
        env.update(PYTHONPATH=bld, PYTHONHASHSEED='0', PYTHONMALLOC='malloc', PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1', OPENBLAS_NUM_THREADS='1',
                   ASAN_OPTIONS='detect_leaks=0:verify_asan_link_order=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=0:max_allocation_size_mb=2048',
                   LD_PRELOAD=os.path.join(bld, 'polyshim.so') + ':' + info()['asan'])
        self.bld = bld
        self.err = open(os.path.join(tmp, 'err%d' % id(self)), 'w+')
        # env(1) sets LD_PRELOAD for the interpreter only
        pre = env.pop('LD_PRELOAD')
        self.p = subprocess.Popen(['/usr/bin/env', 'LD_PRELOAD=' + pre, PY, os.path.join(SIM, 'world.py'), 'serve', str(seed)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, text=True, env=env, cwd=tmp)
    def ask(self, line):
        try:
            self.p.stdin.write(line + '\n')
            self.p.stdin.flush()
        except OSError:
            self.dead()
    def line(self):
        l = self.p.stdout.readline()
        if not l:
            self.dead()
        return json.loads(l)
    def dead(self):
        self.err.seek(0)
        raise Broken('the simulator of the Python world ended: ' + self.err.read()[-2000:])
    def plan(self, plan):
        self.ask('plan ' + json.dumps(plan))
        return self.line()
    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:   # noqa: BLE001
            self.p.kill()
        self.err.close()

def gen(bld, seed, index, tmp):
    s = Server(bld, seed, tmp)
    try:
        s.ask('gen %d' % index)
        return s.line()
    finally:
        s.close()

def where(bld, r):
    """the message of a result, with the functions of the extension on the stack of a crash"""
    offs = r.get('frames') or []
    msg = r['msg'].replace('\n', ' ')
    if offs:
        p = subprocess.run(['addr2line', '-Cfse', os.path.join(bld, 'polyops', '_polyops.so'), *offs[:5]], capture_output=True, text=True, errors='replace')
        l = p.stdout.splitlines()
        msg = (' < '.join('%s %s' % (l[i].split('(')[0].split('<')[0], l[i + 1]) for i in range(0, len(l) - 1, 2)) + ' | ' + msg)[:600]
    return msg

CRASH = ('asan', 'crash', 'hang')
def same(a, b):
    return a == b or (a is not None and b is not None and a.startswith(CRASH) and b.startswith(CRASH))

def minimise(srv, plan, kind, budget):
    end = time.time() + budget
    def bad(p):
        return time.time() < end and same(kind, srv.plan(p)['kind'])
    def cp(p):
        return json.loads(json.dumps(p))
    changed = True
    while changed and time.time() < end:
        changed = False
        def attempt(f):
            nonlocal plan, changed
            q = cp(plan)
            if f(q) is False or q == plan:
                return False
            if bad(q):
                plan = q
                changed = True
                return True
            return False
        for t in range(len(plan['tasks']) - 1, -1, -1):
            if plan['mode'] == 'shared' and len(plan['tasks']) > 2:
                attempt(lambda q: q['tasks'].pop(t) and None)
            elif plan['mode'] != 'solo':
                attempt(lambda q: q['tasks'][t].clear())
        for t in range(len(plan['tasks'])):
            k = len(plan['tasks'][t]) - 1
            while k >= 0:
                if k < len(plan['tasks'][t]) and not attempt(lambda q: q['tasks'][t].pop(k) and None):
                    op = plan['tasks'][t][k]
                    for key in ('fault', 'dtype', 'badset', 'badop', 'baddtype'):
                        if key in op:
                            attempt(lambda q: q['tasks'][t][k].pop(key) and None)
                    for key in ('l', 'l2'):
                        j = len(op.get(key, [])) - 1
                        while j >= 0:
                            attempt(lambda q: len(q['tasks'][t][k][key]) > (1 if 'c' not in op else 0) and q['tasks'][t][k][key].pop(j) and None)
                            j -= 1
                        for j in range(len(plan['tasks'][t][k].get(key, []))):
                            i = len(plan['tasks'][t][k][key][j]['p']) - 1
                            while i >= 0:
                                attempt(lambda q: len(q['tasks'][t][k][key][j]['p']) > 3 and q['tasks'][t][k][key][j]['p'].pop(i) and None)
                                i -= 1
                k -= 1
        for key, v in (('rare', 0), ('sticky', 1), ('smode', 0)):
            if key in plan:
                attempt(lambda q: q.__setitem__(key, v))
    return plan

def write_replay(prop, plan, kind, msg):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    body = json.dumps(plan, sort_keys=True)
    path = os.path.join(d, '%s-%s.plan' % (prop, hashlib.sha256(body.encode()).hexdigest()[:12]))
    with open(path, 'w') as f:
        f.write('# world=py config=py\n# %s: %s\n# replay: python3 check.py --replay %s\n%s\n' % (kind, msg[:400].replace('\n', ' '), os.path.relpath(path, ROOT), body))
    return path, body

RULE = ('run i is a plan generated from (VERIF_SEED, i): one task with failing calls, several tasks with an object each, or several tasks sharing one object; every argument layout, '
        'container and iterator kind, element type, operation and fault is drawn from it. A run is non-trivial when a fault fired or the scheduler took the baton from a running call; '
        'distinct means a different hash of outcomes and schedule.')

def explore(prop, tier, seed):
    from plan_table import PROPS
    spec = PROPS[prop]
    os.makedirs(EVID, exist_ok=True)
    bld = build()
    log('built', os.path.basename(bld))
    tmp = tempfile.mkdtemp(prefix='polysim')
    t1 = time.time()
    deadline = t1 + (330 if tier == 'quick' else 720)
    n = spec['runs']['py'] * (1 if tier == 'quick' else spec.get('thorough', 8))
    ch = 50
    chunks = collections.deque((s, min(ch, n - s)) for s in range(0, n, ch))
    lock = threading.Lock()
    stats, modes = collections.Counter(), collections.Counter()
    hashes, nontrivial, cand, notes = set(), set(), [], []
    state = {'skipped': 0, 'nondet': 0, 'again': 0, 'stop': False}
    def worker():
        srv = Server(bld, seed, tmp)
        try:
            while True:
                with lock:
                    if not chunks or state['stop']:
                        return
                    if time.time() > deadline:
                        state['skipped'] = sum(c for _, c in chunks)
                        return
                    s, c = chunks.popleft()
                srv.ask('%d %d' % (s, c))
                while True:
                    r = srv.line()
                    if 'done' in r:
                        break
                    with lock:
                        stats['runs'] += 1
                        modes[r['mode']] += 1
                        for k, v in r['stats'].items():
                            stats[k] += v
                        hashes.add(r['hash'])
                        if any(k.startswith('fault_fired') for k in r['stats']) or r['stats'].get('sched_switches', 0) > 4:
                            nontrivial.add(r['hash'])
                        if 'again' in r:
                            state['again'] += 1
                            if r['again'] != r['hash']:
                                state['nondet'] += 1
                                notes.append('run %d gave two different histories' % r['i'])
                        if r['kind']:
                            cand.append(r)
                            state['stop'] = len(cand) >= 3
        finally:
            srv.close()
    try:
        result = None
        while result is None:
            state['stop'] = False
            cand.clear()
            with cf.ThreadPoolExecutor(NCPU) as pool:
                for f in [pool.submit(worker) for _ in range(NCPU)]:
                    f.result()
            if not cand:
                break
            cand.sort(key=lambda r: r['i'])
            srv = Server(bld, seed, tmp)
            for r in cand:
                log('candidate', r['i'], r['kind'], r['msg'][:200])
                srv.ask('gen %d' % r['i'])
                plan = srv.line()
                rs = [srv.plan(plan) for _ in range(2)]
                if not all(same(r['kind'], x['kind']) for x in rs):
                    notes.append('run %d failed once (%s) but not again' % (r['i'], r['kind']))
                    if len([x for x in notes if 'failed once' in x]) > 5:
                        raise Broken('; '.join(notes[-3:]))
                    continue
                if r['kind'] == 'harness':
                    raise Broken('run %d: %s' % (r['i'], r['msg']))
                plan = minimise(srv, plan, r['kind'], 40 if tier == 'quick' else 120)
                x = srv.plan(plan)
                result = (r, x['kind'], where(bld, x), plan)
                break
            srv.close()
        run_s = time.time() - t1
        samples = []
        srv = Server(bld, seed, tmp)
        for i in range(3):
            srv.ask('gen %d' % (i * 5 + 1))
            plan = srv.line()
            x = srv.plan(plan)
            samples.append({'index': i * 5 + 1, 'plan': json.dumps(plan, sort_keys=True)[:1500], 'observed': x['kind'] or 'held', 'history_hash': x['hash'], 'stats': x['stats']})
        srv.close()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    faults = {k[len('fault_fired_'):]: {'armed': stats.get('fault_armed_' + k[len('fault_fired_'):], 0), 'fired': v} for k, v in stats.items() if k.startswith('fault_fired_')}
    cov = {'evaluations': stats['runs'], 'distinct_nontrivial': len(nontrivial), 'rule': RULE, 'samples': samples, 'distinct_histories': len(hashes),
           'runs_per_mode': dict(modes), 'runs_per_hour': int(stats['runs'] / max(run_s, .1) * 3600), 'seeds': 'VERIF_SEED=%d; run i is generated from (seed, i)' % seed,
           'runs_executed_twice_for_determinism': state['again'], 'runs_that_differed_when_repeated': state['nondet'],
           'simulated_time': 'the binding has no clock; progress is counted in scheduler yields (sched_yields)', 'faults': faults, 'counters': dict(sorted(stats.items())),
           'real_code': spec['real'], 'stubs': spec['stubs'], 'environment': info()['ver'], 'runs_not_started_for_lack_of_time': state['skipped'], 'notes': notes}
    status = 0
    if result is not None:
        r, kind, msg, plan = result
        path, body = write_replay(prop, plan, kind, msg)
        known = None
        for k in main_mod().known_findings():
            if k['property'] == prop and k['kind'] == kind and open(os.path.join(ROOT, k['plan'])).read().strip() == body:
                known = k
        if known:
            print('KNOWN-FINDING: property=%s %s' % (prop, known['what']))
        else:
            status = 1
        cov['violation'] = {'kind': kind, 'message': msg[:1000], 'index': r['i'], 'plan': body}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'exploration'), 'coverage': cov, 'assumptions': spec['assumptions'],
          'wall_s': round(time.time() - T0, 2), 'violations': status}
    tmpf = os.path.join(EVID, prop + '.json.tmp')
    with open(tmpf, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmpf, os.path.join(EVID, prop + '.json'))
    if status:
        print('%s: %s' % (kind, msg))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    else:
        print('%s held: %d runs (%d distinct nontrivial histories) in %.1fs' % (prop, stats['runs'], len(nontrivial), run_s))
    return status

def replay(path):
    text = open(path).read()
    plan = json.loads('\n'.join(l for l in text.splitlines() if not l.startswith('#')))
    bld = build()
    tmp = tempfile.mkdtemp(prefix='polysim')
    try:
        srv = Server(bld, 1, tmp)
        r = srv.plan(plan)
        srv.close()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print('HASH %s' % r['hash'])
    if r['kind']:
        print('REPRODUCED %s: %s' % (r['kind'], where(bld, r)))
        return 1
    print('no violation')
    return 0
