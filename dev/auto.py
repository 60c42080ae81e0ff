#!/usr/bin/env python3
"""Automatic mutants (development only): auto.py FILE N SEED JOBS OUT. Prints mutants no light check catches."""
import concurrent.futures as cf, json, os, queue, random, re, shutil, subprocess, sys, time
LAB = os.environ.get('ALAB', '/tmp/lab/auto'); SIM = os.environ.get('VSRC', '/verif') + '/sim'; INC = '/repo/include'
REL = [(' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '),
       (' + ', ' - '), (' - ', ' + '), ('++', '--'), ('--', '++'), ('true', 'false'), ('false', 'true'), ('std::min', 'std::max'), ('std::max', 'std::min'),
       ('next', 'prev'), ('prev', 'next'), ('.x()', '.y()'), ('.y()', '.x()'), ('<', '<='), ('>', '>='), ('<=', '<'), ('>=', '>'), ('==', '!='), ('!=', '=='),
       ('if(', 'if(!'), ('!', ''), ('1', '0'), ('0', '1'), ('2', '3'), ('else ', ''), ('+', '-'), ('-', '+'), ('*', '/'), ('_a', '_b'), ('sa', 'sb'), ('break;', ';'), ('continue;', ';')]
def sites(text):
    res = []; comment = False; tmpl = False
    for n, l in enumerate(text.split('\n')):
        s = l.strip()
        if comment:
            if '*/' in s: comment = False
            continue
        if s.startswith('/*'):
            if '*/' not in s: comment = True
            continue
        if not s or s.startswith(('//', '#', 'template', 'using', 'static_assert', 'assert', 'POLY_OPS', 'concept', 'requires', 'namespace', 'friend', 'struct', 'class', 'explicit', 'public', 'private')): continue
        if 'concept' in s or 'requires' in s or 'assert' in s.lower() or 'template' in s or 'decltype' in s or '->' in s and 'return' not in s and 'auto' in s: continue
        code = l.split('//')[0]
        for a, b in REL:
            i = -1
            while True:
                i = code.find(a, i + 1)
                if i < 0: break
                if a in ('<', '>') and not re.search(r'\bif\(|while\(|for\(|\?|return', code): continue
                if a in ('<', '>', '-', '+', '!', '*') and (code[i+1:i+2] in '=<>-+&' or code[i-1:i] in '<>=-+&(,|' and a != '!'): continue
                if a == '!' and code[i+1:i+2] == '=': continue
                if a in ('1', '0', '2') and (re.match(r'[\w.]', code[i-1:i] or ' ') or re.match(r'[\w.]', code[i+1:i+2] or ' ')): continue
                if a in ('next', 'prev', 'sa', 'true', 'false') and (re.match(r'\w', code[i-1:i] or ' ') or re.match(r'\w', code[i+len(a):i+len(a)+1] or ' ')): continue
                res.append((n, i, a, b))
        if re.match(r'\s*[\w.\->\[\]()&*:]+(\(.*\)| [-+*|&]?= .*|\+\+|--);\s*$', code) and not re.match(r'\s*(return|delete|auto|const|bool|int|std::size_t|index_t|real_t|coord_t|throw)\b', code):
            res.append((n, 0, None, None))
    return res
def mutate(text, st):
    L = text.split('\n'); n, i, a, b = st
    if a is None: new = re.match(r'\s*', L[n])[0] + ';'
    elif a == 'if(':
        # negate the whole condition
        d = 0; j = i + 2
        while j < len(L[n]):
            d += (L[n][j] == '(') - (L[n][j] == ')')
            if d == 0: break
            j += 1
        if d: return None
        new = L[n][:i] + 'if(!(' + L[n][i+3:j] + ')' + L[n][j:]
    else: new = L[n][:i] + b + L[n][i+len(a):]
    old = L[n]; L[n] = new
    return '\n'.join(L), old.strip(), new.strip()
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=2048:handle_abort=0:detect_stack_use_after_return=0:symbolize=0')
MAIN = [('C01', 1500), ('C07', 500), ('C02', 1500), ('C03', 1500), ('C12', 1500), ('C11', 1500), ('C18', 800), ('C10', 1000), ('C05', 1200), ('C06', 1000), ('C15', 1000), ('C01', 4000), ('C02', 4000), ('C03', 5000), ('C04', 3000), ('C12', 4000), ('C11', 4000), ('C05', 3000), ('C07', 1500), ('C18', 1500)]
def one(w, f, text, st):
    m = mutate(text, st)
    if m is None: return None
    t, old, new = m
    d = '%s/w%d' % (LAB, w)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree(INC, d + '/include')
    open(d + '/include/poly_ops/' + f, 'w').write(t)
    worlds = ['raster'] if f == 'polydraw.hpp' else ['main'] if f in ('clip.hpp', 'offset.hpp', 'mini_flat_set.hpp') else ['main', 'raster']
    for wd in worlds:
        p = subprocess.run(['clang++', '-std=c++20', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-I' + d + '/include', '-DSIM_COORD=std::int32_t', '-DSIM_INDEX=std::size_t',
                            SIM + '/' + wd + '.cpp', '-ldl', '-lpthread', '-o', d + '/' + wd], capture_output=True, text=True)
        if p.returncode: return ('nocompile', st[0] + 1, old, new, '')
    start = {}
    for wd in worlds:
        for prop, cnt in (MAIN if wd == 'main' else [('C13', 1500), ('C13', 4000)]):
            s = start.get(prop, 0); start[prop] = s + cnt
            try: p = subprocess.run([d + '/' + wd, 'run', '--prop', prop, '--seed', '77', '--start', str(s), '--count', str(cnt), '--nondet', '1'], capture_output=True, text=True, errors='replace', env=ENV, timeout=150, cwd=d)
            except subprocess.TimeoutExpired: return ('caught', st[0] + 1, old, new, prop + ' timeout')
            if p.returncode: return ('caught', st[0] + 1, old, new, prop)
    return ('SURVIVES', st[0] + 1, old, new, '')
def main():
    f, n, seed, jobs, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    text = open(INC + '/poly_ops/' + f).read()
    r = random.Random(seed); ss = sites(text); r.shuffle(ss)
    seen = set(); pick = []
    for st in ss:                       # no more than 3 of a line
        c = sum(1 for q in pick if q[0] == st[0])
        if c < 3: pick.append(st)
    pick = pick[:n]
    print(len(ss), 'sites', len(pick), 'picked', flush=True)
    q = queue.Queue()
    for i in range(jobs): q.put(i + 100 * (seed % 50))
    def go(st):
        w = q.get()
        try: return one(w, f, text, st)
        except Exception as e: return ('error', st[0] + 1, '', '', repr(e))
        finally: q.put(w)
    with cf.ThreadPoolExecutor(jobs) as ex, open(out, 'a') as o:
        for r_ in ex.map(go, pick):
            if r_: o.write(f + ' ' + json.dumps(r_) + '\n'); o.flush()
    shutil.rmtree(LAB + '/w', ignore_errors=True)
main()
