#!/usr/bin/env python3
"""Decides one property of polyops by deterministic simulation.

usage: check.py Cnn            explore (VERIF_SEED, VERIF_TIER=quick|thorough)
       check.py --replay FILE  rebuild and run one recorded plan
       check.py --setup        build the simulators ahead of time

exit 0: held on everything explored; 1: VIOLATION line printed; anything else: error of the check.
"""
import collections, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
import planmin
REPO = os.environ.get('POLYSIM_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
EVID = os.path.join(ROOT, 'evidence')
NCPU = max(1, min(8, os.cpu_count() or 1))
T0 = time.time()

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
CFGS = {  # name: (coordinate type, index type)
    '32': ('std::int32_t', 'std::size_t'),
    '16': ('std::int16_t', 'std::uint16_t'),
    '64': ('std::int64_t', 'std::int32_t'),
}
VARIANTS = {  # name: (compiler, flags)
    'san': ('clang++', ['-O2', '-g'] + SAN),
    'gcc': ('g++', ['-O1', '-g'] + SAN),
    'o0': ('clang++', ['-O0', '-g'] + SAN),
    'pat': ('clang++', ['-O2', '-g', '-ftrivial-auto-var-init=pattern']),
    'pre': ('clang++', ['-O1', '-g', '-DSIM_PREEMPT', '-fsanitize-coverage=trace-pc-guard'] + SAN + ['-fno-sanitize=vptr']),   # the vptr check branches on a cache of addresses
    'zero': ('clang++', ['-O2', '-g', '-ftrivial-auto-var-init=zero']),
}

def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)

class Broken(Exception):
    """the check itself could not give an answer"""

# ------------------------------------------------------------------ building
def src_files(world):
    fs = sorted(glob.glob(os.path.join(REPO, 'include', 'poly_ops', '*')))
    fs += sorted(glob.glob(os.path.join(ROOT, 'sim', '*.hpp'))) + [os.path.join(ROOT, 'sim', world + '.cpp')]
    return fs

_ver = {}
def compiler_version(cxx):
    if cxx not in _ver:
        _ver[cxx] = subprocess.run([cxx, '--version'], capture_output=True, text=True).stdout.splitlines()[0]
    return _ver[cxx]

def build(world, cfg, variant):
    cxx, flags = VARIANTS[variant]
    coord, index = CFGS[cfg]
    cmd = [cxx, '-std=c++20', *flags, '-I' + os.path.join(REPO, 'include'), '-DSIM_COORD=' + coord, '-DSIM_INDEX=' + index,
           os.path.join(ROOT, 'sim', world + '.cpp'), '-ldl', '-lpthread']
    h = hashlib.sha256()
    h.update(repr((cmd, compiler_version(cxx))).encode())
    for f in src_files(world):
        h.update(os.path.basename(f).encode() + b'\0')
        with open(f, 'rb') as s:
            h.update(s.read())
    out = os.path.join(BUILD, '%s-%s-%s-%s' % (world, cfg, variant, h.hexdigest()[:16]))
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    with open(out + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            tmp = out + '.tmp%d' % os.getpid()
            p = subprocess.run([*cmd, '-o', tmp], capture_output=True, text=True, errors='replace')
            if p.returncode != 0:
                raise Broken('cannot build the simulator (%s %s %s):\n%s' % (world, cfg, variant, p.stderr[-3000:]))
            os.rename(tmp, out)
    try:
        os.unlink(out + '.lock')
    except OSError:
        pass
    # keep the cache small
    old = sorted((f for f in glob.glob(os.path.join(BUILD, '%s-%s-%s-*' % (world, cfg, variant))) if '.' not in os.path.basename(f)), key=os.path.getmtime)
    for f in old[:-3]:
        try:
            os.unlink(f)
        except OSError:
            pass
    return out

# ------------------------------------------------------------------ running
ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=2048:handle_abort=0:detect_stack_use_after_return=0'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1'

class Failure:
    def __init__(self, exe, cfg, index, kind, msg, plan, batch=None):
        self.exe, self.cfg, self.index, self.kind, self.msg, self.plan, self.batch = exe, cfg, index, kind, msg, plan, batch

class Explorer:
    def __init__(self, prop, world, seed, tmp):
        self.prop, self.world, self.seed, self.tmp = prop, world, seed, tmp
        self.stats = collections.Counter()
        self.hashes = set()
        self.nontrivial = set()
        self.failures = []
        self.notes = []
        self.stop = threading.Event()
        self.lock = threading.Lock()
        self.per_cfg = collections.Counter()
        self.deadline = None
        self.skipped = 0

    def merge_stats(self, out):
        for line in out.splitlines():
            if line.startswith('STAT '):
                _, k, v = line.split()
                v = int(v)
                if k.startswith('max_') or '_max_' in k or k.startswith('worst_'):
                    self.stats[k] = max(self.stats[k], v)
                elif not k.startswith('distinct_'):
                    self.stats[k] += v

    def chunk(self, job):
        cfg, exe, start, count, wanthash = job
        if self.stop.is_set():
            return None
        left = self.deadline - time.time()
        if left <= 0:
            with self.lock:
                self.skipped += count
            return None
        tag = '%s_%s_%d' % (cfg, os.path.basename(exe)[-6:], start)
        pf, hf = os.path.join(self.tmp, 'p' + tag), os.path.join(self.tmp, 'h' + tag)
        cmd = [exe, 'run', '--prop', self.prop, '--seed', str(self.seed), '--start', str(start), '--count', str(count),
               '--progress', pf, '--hashes', hf, '--time', '%.1f' % max(1.0, left)]
        if self.prop in STATELESS:
            cmd += ['--nondet', '1']
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=ENV, timeout=left + 120, cwd=self.tmp)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            rc, out, err = 'timeout', '', ''
        recs = []
        if os.path.exists(hf):
            with open(hf, 'rb') as f:
                b = f.read()
            recs = list(struct.iter_unpack('QQQ', b))
            os.unlink(hf)
        idx = None
        if os.path.exists(pf):
            with open(pf, 'rb') as f:
                b = f.read(8)
            if len(b) == 8:
                idx = struct.unpack('Q', b)[0]
            os.unlink(pf)
        if 'NONDET' in out and self.prop not in STATELESS:
            with self.lock:
                self.notes.append('a plan gave two different histories in one process (%s %d)' % (cfg, start))
        with self.lock:
            if 'DONE' in out:
                self.merge_stats(out)
                for i, h, nt in recs:
                    self.hashes.add(h)
                    if nt:
                        self.nontrivial.add(h)
                self.per_cfg[cfg] += len(recs)
        sig = planmin.signature(rc, out, err)
        if sig is None and 'DONE' not in out:
            sig = ('crash', 'simulator ended with status %s' % rc)
        if sig is not None:
            if idx is None:
                raise Broken('simulator did not start: ' + err[-500:])
            f = Failure(exe, cfg, idx, sig[0], sig[1], self.gen(exe, idx), (start, idx - start + 1))
            with self.lock:
                self.failures.append(f)
                if len(self.failures) >= 4:
                    self.stop.set()
            # enough has been found in this round; later chunks need not start
            self.stop.set()
        return recs if wanthash else None

    def gen(self, exe, idx):
        p = subprocess.run([exe, 'gen', '--prop', self.prop, '--seed', str(self.seed), '--index', str(idx)], capture_output=True, text=True, errors='replace', env=ENV)
        if p.returncode != 0 or not p.stdout:
            raise Broken('cannot regenerate plan %d: %s' % (idx, p.stderr[-300:]))
        return p.stdout

CRASH = ('asan', 'ubsan', 'crash', 'hang', 'terminate')
def is_crash(kind):
    return kind.startswith(CRASH)

def same(kind, sig):
    return sig is not None and (sig[0] == kind or (is_crash(kind) and is_crash(sig[0])))

# properties that forbid hidden state: what one run does must not depend on the runs before it
STATELESS = ('C07', 'C08', 'C09')

def run_batch(exe, prop, seed, start, count):
    cmd = [exe, 'run', '--prop', prop, '--seed', str(seed), '--start', str(start), '--count', str(count)]
    if prop in STATELESS:
        cmd += ['--nondet', '1']
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=ENV, timeout=300)
    except subprocess.TimeoutExpired:
        return None
    return planmin.signature(p.returncode, p.stdout, p.stderr)

def confirm_batch(ex, f):
    """A failure that needs the runs before it in the same process (state kept between runs): the
    same batch must fail the same way twice; the shortest tail of it that still fails is the replay."""
    start, count = f.batch
    last = start + count - 1
    n = 1
    while True:
        n = min(n, count)
        r = [run_batch(f.exe, ex.prop, ex.seed, last - n + 1, n) for _ in range(2)]
        if all(same(f.kind, x) for x in r):
            head, rest = f.plan.split('\n', 1)
            text = '%s\n# batch prop=%s seed=%d start=%d count=%d\n%s' % (head, ex.prop, ex.seed, last - n + 1, n, rest)
            return r[0][0], r[0][1] + ' (after %d earlier runs in the same process)' % (n - 1), text
        if n == count:
            return None
        n *= 4

def schedule_crash(ex, f):
    """true if the crash is gone when the same build runs the same plan without preemption"""
    if '-DSIM_PREEMPT' not in VARIANTS[PROPS[ex.prop].get('variants', ['san'])[0]][1]:
        return False
    text = re.sub(r'^cfg sched_(mean|rare) .*\n', '', f.plan, flags=re.M)
    text = re.sub(r' sched_(mean|rare)=\d+', '', text)
    if text == f.plan:
        return False
    return all(planmin.replay(f.exe, text, env=ENV, timeout=90)[0] is None for _ in range(2))

def confirm(ex, f, budget):
    """Gate: the failing plan must fail the same way twice in fresh processes; crash reports must
    also fail when built by another compiler. Returns (kind,msg,minimised text) or None."""
    r = [planmin.replay(f.exe, f.plan, env=ENV, timeout=90) for _ in range(2)]
    if not all(same(f.kind, x[0]) for x in r):
        b = confirm_batch(ex, f)
        if b is not None:
            return b
        ex.notes.append('plan %s/%d failed in its batch (%s) but not alone' % (f.cfg, f.index, f.kind))
        return None
    if not is_crash(f.kind) and r[0][1] != r[1][1]:
        raise Broken('plan %s/%d is not deterministic' % (f.cfg, f.index))
    kind = r[0][0][0]
    if is_crash(kind) and kind != 'hang':
        ok = schedule_crash(ex, f)
        for variant in () if ok else ('gcc', 'o0'):
            exe2 = build(ex.world, f.cfg, variant)
            s, _, _, _ = planmin.replay(exe2, f.plan, env=ENV, timeout=180)
            if s is not None:
                ok = True
                break
        if not ok:
            ex.notes.append('plan %s/%d: %s was not confirmed by a second compiler (treated as a compiler artefact)' % (f.cfg, f.index, kind))
            return None
    text = planmin.minimise(f.exe, f.plan, kind, budget=budget, env=ENV)
    s, _, _, _ = planmin.replay(f.exe, text, env=ENV, timeout=90)
    s2, _, _, _ = planmin.replay(f.exe, text, env=ENV, timeout=90)
    if not same(kind, s) or not same(kind, s2):
        text = f.plan
        s = r[0][0]
    return s[0], s[1], text

def write_replay(prop, world, cfg, text, kind, msg):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.plan' % (prop, hashlib.sha256(text.encode()).hexdigest()[:12]))
    head, rest = text.split('\n', 1)
    with open(path, 'w') as f:
        f.write('%s\n# world=%s config=%s\n# %s: %s\n# replay: python3 check.py --replay %s\n%s' % (head, world, cfg, kind, msg.replace('\n', ' ')[:400], os.path.relpath(path, ROOT), rest))
    return path

def known_findings():
    p = os.path.join(ROOT, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])

# ------------------------------------------------------------------ properties
from plan_table import PROPS   # noqa: E402

def explore(prop, tier, seed):
    spec = PROPS[prop]
    world = spec['world']
    os.makedirs(EVID, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='polysim')
    try:
        ex = Explorer(prop, world, seed, tmp)
        variants = spec.get('variants', ['san'])
        todo = [(c, v) for c in spec['runs'] for v in variants]
        with cf.ThreadPoolExecutor(NCPU) as pool:
            exes = dict(zip(todo, pool.map(lambda cv: build(world, *cv), todo)))
        log('built', len(exes), 'simulators')
        t1 = time.time()
        cap = 330 if tier == 'quick' else 720
        ex.deadline = t1 + cap
        jobs = []
        for (cfg, variant), exe in exes.items():
            n = spec['runs'][cfg] * (1 if tier == 'quick' else spec.get('thorough', 8))
            ch = spec.get('chunk', 250)
            for s in range(0, n, ch):
                jobs.append((cfg, exe, s, min(ch, n - s), len(variants) > 1))
        jobs.sort(key=lambda j: (j[2], j[0], j[1]))
        result = None
        groups = {}
        found = 0
        todo_jobs = list(jobs)
        artefacts = 0
        while todo_jobs and result is None:
            ex.stop.clear()
            ex.failures = []
            done = set()
            with cf.ThreadPoolExecutor(NCPU) as pool:
                for j, recs in zip(todo_jobs, pool.map(ex.chunk, todo_jobs)):
                    if recs:
                        for i, h, nt in recs:
                            g = groups.setdefault((j[0], i), {})
                            g[j[1]] = h
            if not ex.failures:
                break
            ex.failures.sort(key=lambda f: (f.index, f.cfg))
            for f in ex.failures:
                log('candidate', f.cfg, f.index, f.kind, f.msg[:200])
                found += 1
                r = confirm(ex, f, 60 if tier == 'quick' else 150)
                if r is None and f.batch and 'failed in its batch' in (ex.notes[-1] if ex.notes else ''):
                    raise Broken(ex.notes[-1])
                if r is not None:
                    result = (f, *r)
                    break
                artefacts += 1
            if result is None:
                if artefacts > 6:
                    raise Broken('too many unconfirmed candidates: ' + '; '.join(ex.notes[-3:]))
                # skip the unconfirmed plans and go on behind them
                bad = {(f.cfg, f.exe): f.index for f in ex.failures}
                nj = []
                for cfg, exe, s, n, wh in todo_jobs:
                    b = bad.get((cfg, exe))
                    if b is not None and s <= b < s + n:
                        if b + 1 < s + n:
                            nj.append((cfg, exe, b + 1, s + n - b - 1, wh))
                    elif b is None or s > b:
                        nj.append((cfg, exe, s, n, wh))
                todo_jobs = nj
        # builds that differ only in what uninitialised stack memory contains must agree
        if result is None and len(variants) > 1:
            ex.stats['build_variant_comparisons'] = sum(1 for g in groups.values() if len(g) > 1)
            for (cfg, i), g in sorted(groups.items(), key=lambda x: x[0][1]):
                if len(set(g.values())) > 1:
                    exe = list(g)
                    plan = ex.gen(exe[0], i)
                    hs = [planmin.replay(e, plan, env=ENV)[1] for e in exe for _ in range(2)]
                    if hs[0] != hs[1] or hs[2] != hs[3]:
                        raise Broken('plan %s/%d is not deterministic' % (cfg, i))
                    if hs[0] != hs[2]:
                        def differs(text):
                            a, b = (planmin.replay(e, text, env=ENV)[1] for e in exe[:2])
                            return a is not None and b is not None and a != b
                        text = planmin.minimise_pred(plan, differs, 60)
                        result = (Failure(exe[0], cfg, i, 'stack_content', '', plan), 'stack_content',
                                  'builds that differ only in the contents of uninitialised variables behave differently', text)
                        break
        run_s = time.time() - t1
        return finish(prop, tier, seed, spec, ex, exes, result, run_s, world)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def finish(prop, tier, seed, spec, ex, exes, result, run_s, world):
    st = ex.stats
    samples = []
    anyexe = next(iter(exes.items()))
    for i in range(3):
        try:
            text = ex.gen(anyexe[1], i * 7 + 1)
            s, h, out, err = planmin.replay(anyexe[1], text, extra=['--verbose', '1'], env=ENV)
            samples.append({'config': anyexe[0][0], 'index': i * 7 + 1, 'plan': text[:1500], 'observed': [l for l in err.splitlines() if l][:6], 'history_hash': h})
        except Exception as e:  # noqa: BLE001
            samples.append({'error': str(e)})
    faults = {k[len('fault_fired_'):]: {'armed': st.get('fault_armed_' + k[len('fault_fired_'):], 0), 'fired': v}
              for k, v in st.items() if k.startswith('fault_fired_') and not k.startswith('fault_fired_in_')}
    cov = {
        'evaluations': st.get('runs', 0),
        'distinct_nontrivial': len(ex.nontrivial),
        'rule': spec['rule'],
        'samples': samples,
        'distinct_histories': len(ex.hashes),
        'runs_per_configuration': dict(ex.per_cfg),
        'runs_per_hour': int(st.get('runs', 0) / max(run_s, 0.1) * 3600),
        'seeds': 'VERIF_SEED=%d; run i of a configuration is generated from (seed, i)' % seed,
        'runs_executed_twice_for_determinism': st.get('runs_executed_twice', 0),
        'simulated_time': spec.get('simtime', 'the library has no clock; progress is counted in sweep steps and scheduler yields'),
        'faults': faults,
        'counters': dict(sorted(st.items())),
        'real_code': spec['real'],
        'stubs': spec['stubs'],
        'runs_not_started_for_lack_of_time': ex.skipped,
        'notes': ex.notes,
    }
    status = 0
    if result is not None:
        f, kind, msg, text = result
        path = write_replay(prop, world, f.cfg, text, kind, msg)
        known = None
        for k in known_findings():
            if k['property'] == prop and k['kind'] == kind and os.path.exists(os.path.join(ROOT, k['plan'])) and \
               open(os.path.join(ROOT, k['plan'])).read() == text:
                known = k
        if known:
            print('KNOWN-FINDING: property=%s %s' % (prop, known['what']))
        else:
            status = 1
        cov['violation'] = {'kind': kind, 'message': msg[:1000], 'config': f.cfg, 'index': f.index, 'plan': text}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'exploration'), 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - T0, 2), 'violations': status}
    tmpf = os.path.join(EVID, prop + '.json.tmp')
    with open(tmpf, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmpf, os.path.join(EVID, prop + '.json'))
    if status:
        print('%s: %s' % (kind, msg))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    else:
        print('%s held: %d runs (%d distinct nontrivial histories) in %.1fs' % (prop, st.get('runs', 0), len(ex.nontrivial), run_s))
    return status

def do_replay(path):
    text = open(path).read()
    m = re.search(r'# world=(\S+) config=(\S+)', text)
    if not m:
        raise Broken('no world/config line in ' + path)
    if m[1] == 'py':
        import pycheck
        return pycheck.replay(path)
    c = re.search(r'^cfg .*\bprop=(\d+)', text, re.M)
    prop = 'C%02d' % int(c[1])
    spec = PROPS[prop]
    b = re.search(r'^# batch prop=(\w+) seed=(\d+) start=(\d+) count=(\d+)', text, re.M)
    if b:
        sig = run_batch(build(m[1], m[2], spec.get('variants', ['san'])[0]), b[1], int(b[2]), int(b[3]), int(b[4]))
        print('REPRODUCED %s: %s' % sig if sig else 'no violation')
        return 1 if sig else 0
    hs = []
    for v in spec.get('variants', ['san']):
        exe = build(m[1], m[2], v)
        p = subprocess.run([exe, 'replay', path, '--verbose', '1'], capture_output=True, text=True, errors='replace', env=ENV)
        sys.stdout.write(p.stdout)
        sys.stderr.write(p.stderr[-6000:])
        sig = planmin.signature(p.returncode, p.stdout, p.stderr)
        if sig is not None:
            print('REPRODUCED %s: %s' % sig)
            return 1
        h = re.search(r'HASH (\w+)', p.stdout)
        hs.append(h[1] if h else None)
    if len(set(hs)) > 1:
        print('REPRODUCED builds differ: %s' % hs)
        return 1
    print('no violation')
    return 0

def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ['--setup']:
            todo = sorted({(s['world'], c, v) for s in PROPS.values() if s['world'] != 'py' for c in s['runs'] for v in s.get('variants', ['san'])})
            with cf.ThreadPoolExecutor(NCPU) as pool:
                py = None
                if any(s['world'] == 'py' for s in PROPS.values()):
                    import pycheck
                    py = pool.submit(pycheck.build)
                list(pool.map(lambda t: build(*t), todo))
                if py:
                    py.result()
            return 0
        if a[:1] == ['--replay']:
            return do_replay(a[1])
        prop = a[0]
        tier = os.environ.get('VERIF_TIER', 'quick')
        if len(a) > 1:
            tier = a[1]
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        if PROPS[prop]['world'] == 'py':
            import pycheck
            return pycheck.explore(prop, tier, seed)
        return explore(prop, 'thorough' if tier == 'thorough' else 'quick', seed)
    except Broken as e:
        print('ERROR: %s' % e)
        return 3

if __name__ == '__main__':
    sys.exit(main())
