#!/usr/bin/env python3
"""writes /verif/seeded/<id> for the Python mutants of mutants3.py listed in seedtext.SP (development only)"""
import importlib.util, json, os, shutil, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
def load(p, a):
    s = importlib.util.spec_from_file_location('m', p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return getattr(m, a)
SP = load(HERE + '/seedtext.py', 'SP')
for m in load(HERE + '/mutants3.py', 'M'):
    if m['id'] not in SP: continue
    prop, needs, breaks = SP[m['id']]
    w = '/tmp/mkseed'; shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    for f, old, new in m['edits']:
        p = os.path.join(w, f); s = open(p).read(); assert s.count(old) == 1, m['id']
        open(p, 'w').write(s.replace(old, new))
    d = HERE + '/../seeded/' + m['id']; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout)
    for f in ('demo.py', 'failnew.cpp'): shutil.copy(HERE + '/pydemo/' + f, d)
    open(d + '/demo.sh', 'w').write(open(HERE + '/pydemo/demo.sh').read().replace('MODE', m['pydemo']))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('wrote', m['id'])
shutil.rmtree('/tmp/mkseed', ignore_errors=True)
