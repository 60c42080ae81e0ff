#!/usr/bin/env python3
"""mkseed.py MUTANTS.py: write /verif/seeded/<id> for each entry of dev/seedtext.py whose id is in MUTANTS.py (development only).
seedtext.S: id -> (property, demo mode, count, seed, sanitize?, needs, what_it_breaks)"""
import importlib.util, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
def load(p, a):
    s = importlib.util.spec_from_file_location('m', p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return getattr(m, a)
S = load(HERE + '/seedtext.py', 'S')
for mf in sys.argv[1:]:
    for m in load(mf, 'M'):
        if m['id'] not in S: continue
        prop, mode, count, seed, san, needs, breaks = S[m['id']]
        w = '/tmp/mkseed'
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        for e in m['edits']:
            f, old, new = e[:3]
            p = os.path.join(w, f); s = open(p).read()
            if len(e) >= 4:
                parts = s.split(old); k = e[3]; s = old.join(parts[:k+1]) + new + old.join(parts[k+1:])
            else:
                assert s.count(old) == 1, (m['id'], s.count(old)); s = s.replace(old, new)
            open(p, 'w').write(s)
        diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
        d = HERE + '/../seeded/' + m['id']
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        shutil.copy(HERE + '/demo/demo.cpp', d + '/demo.cpp')
        flags = '-O1 -fsanitize=address' if san else '-O1'
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Builds a small program against the headers in the current directory and runs it; fails when the library misbehaves.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 %s -I"$PWD/include" "$here/demo.cpp" -o "$tmp/demo" -pthread -ldl || exit 2
timeout 200 "$tmp/demo" %s %d %d
''' % (flags, mode, count, seed))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        print('wrote', m['id'])
shutil.rmtree('/tmp/mkseed', ignore_errors=True)
