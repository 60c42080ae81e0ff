"""Plan parsing, replay and minimisation (delta debugging over operations, points, parameters)."""
import os, re, subprocess, tempfile, time

class Plan:
    def __init__(self, head, cfg, ops):
        self.head, self.cfg, self.ops = head, cfg, ops
    @staticmethod
    def parse(text):
        head, cfg, ops = None, {}, []
        for line in text.splitlines():
            if not line or line.startswith('#'):
                continue
            if head is None:
                head = line
                continue
            w = line.split()
            if w[0] == 'cfg':
                for x in w[1:]:
                    k, v = x.split('=')
                    cfg[k] = int(v)
            elif w[0] == 'op':
                at, pts, inp = {}, [], False
                for x in w[2:]:
                    if x == ':':
                        inp = True
                    elif inp:
                        pts.append(tuple(int(q) for q in x.split(',')))
                    else:
                        k, v = x.split('=')
                        at[k] = int(v)
                ops.append((w[1], at, pts))
        return Plan(head, cfg, ops)
    def text(self):
        o = [self.head, 'cfg ' + ' '.join('%s=%d' % kv for kv in sorted(self.cfg.items()))]
        for k, a, p in self.ops:
            s = 'op ' + k + ''.join(' %s=%d' % kv for kv in sorted(a.items()))
            if p:
                s += ' :' + ''.join(' %d,%d' % q for q in p)
            o.append(s)
        return '\n'.join(o) + '\n'
    def copy(self):
        return Plan(self.head, dict(self.cfg), [(k, dict(a), list(p)) for k, a, p in self.ops])

def signature(proc_rc, out, err, prop=None):
    """Returns (kind, message) of the failure or None."""
    if proc_rc == 'timeout':
        return ('hang', 'wall-clock limit exceeded')
    for line in out.splitlines():
        m = re.match(r'VIOL (\S+) (?:index=\d+ )?kind=(\S+) msg=(.*)', line)
        if m:
            return (m[2], m[3])
    m = re.search(r'FATAL kind=(\S+) msg=(.*)', err)
    if m:
        return (m[1] if m[1] != 'assertion' else 'assertion(' + m[2] + ')', m[2])
    m = re.search(r'ERROR: AddressSanitizer:? ([^\s(]+)', err)
    if m:
        f = re.search(r'#\d+ 0x\S+ in .*?/include/poly_ops/(\S+?):(\d+)', err)
        return ('asan:' + m[1], m[0] + (' in ' + f[1] if f else ''))
    m = re.search(r'poly_ops/(\S+?):\d+:\d+: runtime error: (.*)', err) or re.search(r'()runtime error: (.*)', err)
    if m:
        t = re.sub(r'[0-9][0-9a-fx]*', 'N', m[2])
        return ('ubsan:' + re.sub(r'\W+', '_', t)[:40], m[1] + ' ' + m[2])
    if proc_rc not in (0, 10):
        return ('crash', 'exit status %s: %s' % (proc_rc, err.strip().splitlines()[-1][:200] if err.strip() else ''))
    return None

def replay(exe, plan_text, path=None, extra=(), timeout=60, env=None):
    own = path is None
    if own:
        fd, path = tempfile.mkstemp(suffix='.plan', prefix='psmin')
        os.close(fd)
    try:
        with open(path, 'w') as f:
            f.write(plan_text)
        try:
            p = subprocess.run([*exe, 'replay', path, *extra] if isinstance(exe, (list, tuple)) else [exe, 'replay', path, *extra],
                               capture_output=True, text=True, errors='replace', timeout=timeout, env=env)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, out, err = 'timeout', '', ''
    finally:
        if own:
            os.unlink(path)
    h = re.search(r'HASH (\w+)', out)
    return signature(rc, out, err), (h[1] if h else None), out, err

def minimise(exe, text, kind, budget=60.0, timeout=30, env=None, log=None):
    def fails(t):
        s, _, _, _ = replay(exe, t, timeout=timeout, env=env)
        return s is not None and s[0] == kind
    return minimise_pred(text, fails, budget, log)

def minimise_pred(text, fails, budget=60.0, log=None):
    t0 = time.time()
    best = Plan.parse(text)
    n = [0]
    def ok(p):
        if time.time() - t0 > budget:
            return False
        n[0] += 1
        return fails(p.text())
    def dd(items, rebuild):
        nonlocal best
        g = 2
        while len(items) >= 1 and time.time() - t0 < budget:
            step = max(1, len(items) // g)
            hit = False
            i = 0
            while i < len(items):
                cand = items[:i] + items[i + step:]
                p = rebuild(cand)
                if ok(p):
                    items, best, hit = cand, p, True
                else:
                    i += step
            if step == 1:
                if not hit:
                    break
            else:
                g = min(len(items) or 1, g * 2)
        return items
    for rnd in range(3):
        before = best.text()
        def rb(ops):
            p = best.copy(); p.ops = ops; return p
        dd(list(best.ops), rb)
        for k in range(len(best.ops)):
            if best.ops[k][2]:
                def rb2(pts, k=k):
                    p = best.copy(); o = p.ops[k]; p.ops[k] = (o[0], o[1], pts); return p
                dd(list(best.ops[k][2]), rb2)
        # drop attributes, shrink numbers
        for k in range(len(best.ops)):
            for a in sorted(best.ops[k][1]):
                p = best.copy()
                del p.ops[k][1][a]
                if ok(p):
                    best = p
                    continue
                v = best.ops[k][1][a]
                for nv in (0, 1, v // 1000, v // 10, v // 2, v - 1):
                    if nv == v or abs(nv) > abs(v):
                        continue
                    p = best.copy()
                    p.ops[k][1][a] = nv
                    if ok(p):
                        best = p
                        break
        for c in sorted(best.cfg):
            if c in ('prop', 'coord', 'index', 'seed'):
                continue
            p = best.copy()
            del p.cfg[c]
            if ok(p):
                best = p
        # translate towards the origin and halve coordinates
        allp = [q for o in best.ops for q in o[2]]
        if allp:
            mx, my = min(q[0] for q in allp), min(q[1] for q in allp)
            if mx or my:
                p = best.copy()
                p.ops = [(k, a, [(x - mx, y - my) for x, y in q]) for k, a, q in p.ops]
                if ok(p):
                    best = p
            for f in (1000, 100, 10, 2, 2, 2):
                p = best.copy()
                p.ops = [(k, a, [(int(x / f), int(y / f)) for x, y in q]) for k, a, q in p.ops]
                if p.text() != best.text() and ok(p):
                    best = p
        # coordinates one by one
        for k in range(len(best.ops)):
            for i in range(len(best.ops[k][2])):
                for d in (0, 1):
                    v = best.ops[k][2][i][d]
                    for nv in (0, v // 10, v // 2, v - 1 if v > 0 else v + 1):
                        if nv == v or abs(nv) > abs(v):
                            continue
                        p = best.copy()
                        q = list(p.ops[k][2][i]); q[d] = nv
                        p.ops[k][2][i] = tuple(q)
                        if ok(p):
                            best = p
                            break
        if best.text() == before or time.time() - t0 > budget:
            break
    if log is not None:
        log.append(n[0])
    return best.text()
