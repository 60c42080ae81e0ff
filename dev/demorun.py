#!/usr/bin/env python3
"""demorun.py MUTANTS.py [ids]: build the demo against each mutant's headers, report which demo modes fail."""
import sys, os, subprocess, shutil, importlib.util, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(__file__))
MODES = dict(region=2000, cross=2000, hier=1000, set=3000, origin=1000, offorigin=300, offset=800, raster=1500, fill=300, oom=15, oomorigin=15, reuse=400, threads=20, address=150, time=150, life=300)
MODES['except'] = 300
def load(p):
    s = importlib.util.spec_from_file_location('m', p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m.M
def one(m):
    d = '/tmp/demo/w-' + m['id']
    os.makedirs(d, exist_ok=True)
    subprocess.run(['cp', '-a', '/repo/include', d + '/'], check=True)
    for e in m['edits']:
        f, old, new = e[:3]
        p = os.path.join(d, f); s = open(p).read()
        if len(e) >= 4:
            parts = s.split(old); k = e[3]; s = old.join(parts[:k+1]) + new + old.join(parts[k+1:])
        else:
            assert s.count(old) == 1, (m['id'], s.count(old)); s = s.replace(old, new)
        open(p, 'w').write(s)
    r = subprocess.run(['g++', '-std=c++20', '-O1', '-g', '-fsanitize=address,undefined', '-I' + d + '/include', os.path.dirname(os.path.abspath(__file__)) + '/demo/demo.cpp', '-o', d + '/demo', '-pthread', '-ldl'], capture_output=True, text=True)
    if r.returncode: return m['id'], 'BUILD ' + [l for l in r.stderr.splitlines() if 'error' in l][:1].__str__()
    bad = []
    for mode, n in MODES.items():
        try:
            q = subprocess.run(['bash', '-c', 'ulimit -v unlimited; exec %s/demo %s %d 1' % (d, mode, n)], capture_output=True, text=True, timeout=200)
            if q.returncode: bad.append('%s(rc%d)' % (mode, q.returncode))
        except subprocess.TimeoutExpired:
            bad.append(mode + '(timeout)')
    shutil.rmtree(d)
    return m['id'], ' '.join(bad) or '-'
ms = load(sys.argv[1]); ids = sys.argv[2:]
if ids: ms = [m for m in ms if m['id'] in ids]
with cf.ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for i, r in ex.map(one, ms): print('%-24s %s' % (i, r), flush=True)
