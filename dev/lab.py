#!/usr/bin/env python3
"""Mutation lab (development only): lab.py MUTANTS.py [-t] [-c] [ids...]
-t: build+stable tests of each mutant; -c: run its check(s). Works on scratch copies of /repo under /tmp/lab."""
import concurrent.futures as cf, importlib.util, json, os, queue, re, shutil, subprocess, sys, time
LAB = '/tmp/lab'
BASE = json.load(open('/opt/vp/BASELINE.json'))
def stable():
    b = BASE
    for k in ('stable', 'passed', 'tests', 'stable_passed'):
        if isinstance(b, dict) and k in b and isinstance(b[k], list):
            return set(x if isinstance(x, str) else x['id'] for x in b[k])
    raise SystemExit('baseline format: %s' % list(b)[:5])
def load(p):
    s = importlib.util.spec_from_file_location('m', p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m.M
def lane(i):
    d = '%s/r%d' % (LAB, i)
    if not os.path.exists(d):
        subprocess.run(['cp', '-a', '/repo', d], check=True)
    return d
def apply(d, m):
    subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.'], check=True)
    h = subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
    if subprocess.run(['git', '-C', d, 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip() != h:
        subprocess.run(['git', '-C', d, 'fetch', '-q', '/repo', 'HEAD'], check=True)
        subprocess.run(['git', '-C', d, 'reset', '-q', '--hard', h], check=True)
    for e in m['edits']:
        f, old, new = e[:3]
        p = os.path.join(d, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1 and len(e) < 4:
            raise SystemExit('%s: edit matches %d times in %s: %r' % (m['id'], n, f, old[:60]))
        if len(e) >= 4:
            parts = s.split(old); k = e[3]
            s = old.join(parts[:k+1]) + new + old.join(parts[k+1:])
        else:
            s = s.replace(old, new)
        open(p, 'w').write(s)
    return subprocess.run(['git', '-C', d, 'diff'], capture_output=True, text=True).stdout
def test(d, m):
    out = '%s/out-%s.json' % (LAB, m['id'])
    p = subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && timeout 600 bash /opt/vp/test.sh %s > %s.log 2>&1' % (d, out, out)])
    try:
        r = json.load(open(out))
    except Exception as e:
        return 'no result'
    miss = stable() - set(r['passed'])
    return 'pass' if not miss else 'FAILS %d: %s' % (len(miss), sorted(miss)[:3])
def check(d, m, prop, lanei):
    v = '%s/v%d' % (LAB, lanei)
    os.makedirs(v, exist_ok=True)
    subprocess.run('rsync -a --delete --exclude=.git --exclude=build --exclude=evidence --exclude=seeded %s/ %s/' % (os.environ.get('VSRC','/verif'), v) if shutil.which('rsync') else
      'cd /verif && for x in check.py lib sim tools known-findings.json properties.jsonl MANIFEST.json; do rm -rf %s/$x; cp -a $x %s/; done' % (v, v), shell=True, check=True)
    os.makedirs(v + '/evidence', exist_ok=True)
    env = dict(os.environ, POLYSIM_REPO=d, VERIF_SEED='1', VERIF_TIER='quick')
    t = time.time()
    p = subprocess.run(['python3', 'check.py', prop], cwd=v, env=env, capture_output=True, text=True, timeout=int(os.environ.get("LABTIMEOUT","1200")))
    viol = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
    msg = [l for l in (p.stdout + p.stderr).splitlines() if 'violation' in l.lower() or 'what:' in l]
    open('%s/chk-%s-%s.log' % (LAB, m['id'], prop), 'w').write(p.stdout + p.stderr)
    return 'rc=%d %s %.0fs %s' % (p.returncode, 'CAUGHT' if p.returncode == 1 and viol else 'missed' if p.returncode == 0 else 'ERROR', time.time() - t, (msg[-1][:150] if msg else ''))
def main():
    ms = load(sys.argv[1]); args = sys.argv[2:]
    do_t, do_c = '-t' in args, '-c' in args
    ids = [a for a in args if not a.startswith('-')]
    if ids: ms = [m for m in ms if m['id'] in ids]
    os.makedirs(LAB, exist_ok=True)
    ok = {}
    if do_t:
        lanes = queue.Queue()
        for i in range(6): lanes.put(i)
        def one(m):
            i = lanes.get()
            try:
                d = lane(i)
                diff = apply(d, m)
                r = test(d, m)
                print('%-28s %s tests: %s' % (m['id'], m['prop'], r), flush=True)
                return m['id'], r
            finally:
                lanes.put(i)
        with cf.ThreadPoolExecutor(6) as ex:
            for k, r in ex.map(one, ms): ok[k] = r
    if do_c:
        for m in ms:
            if ok.get(m['id'], 'pass') != 'pass': continue
            ln = int(os.environ.get('LANE', '9')); d = lane(ln)
            apply(d, m)
            for prop in [m['prop']] + list(m.get('also', [])):
                print('%-28s %s check: %s' % (m['id'], prop, check(d, m, prop, ln)), flush=True)
main()
