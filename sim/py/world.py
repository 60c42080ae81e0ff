"""The simulated Python world: plans are generated from (seed, index) and executed in a forked child, so that every run starts
from the same process state. Run by the interpreter the extension is built for, with polyshim.so preloaded.

world.py gen SEED INDEX | replay FILE [-v] | serve SEED   (serve: reads 'START COUNT' lines, writes one JSON line per plan)"""
import array, gc, hashlib, json, os, random, resource, signal, sys, _thread
import numpy as np
import polyshim as shim
import polyops
from polyops import _polyops as po

CHILD_CPU = 60
CHILD_WALL = 200

class Injected(Exception):
    pass

# ------------------------------------------------------------------ plans
GOOD = ['list', 'tuple', 'i64', 'i64', 'i32', 'i16', 'fort', 'strided', 'rev', 'readonly', 'swapped', 'array_if', 'f64', 'obj', 'matrixT', 'off']
BAD = ['oned', 'threecol', 'str', 'floatplain', 'objbad', 'array_raise', 'index_raise', 'none', 'ragged', 'empty3']
OPS = ['union', 'intersection', 'xor', 'difference', 'normalize']

def gen_loop(r, G):
    k = r.randrange(7)
    if k == 0:
        x, y, w, h = r.randrange(G), r.randrange(G), 1 + r.randrange(G), 1 + r.randrange(G)
        p = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
    elif k == 1:
        x, y, w = r.randrange(G), r.randrange(G), 1 + r.randrange(G)
        p = [(x, y - w), (x + w, y), (x, y + w), (x - w, y)]
    elif k == 2:
        p = [(r.randrange(G), r.randrange(G)) for _ in range(r.randrange(3))]
    elif k == 3:
        x, y = r.randrange(G), r.randrange(G)
        p = []
        for i in range(3 + r.randrange(8)):
            p.append((x, y))
            if i & 1: x = r.randrange(G)
            else: y = r.randrange(G)
    else:
        p = [(r.randrange(G), r.randrange(G)) for _ in range(3 + r.randrange(9))]
    if r.random() < .4: p.reverse()
    return [list(q) for q in p]

def gen_arg(r, G, bad):
    d = {'p': gen_loop(r, G), 'k': r.choice(GOOD)}
    if not d['p'] and d['k'] in ('list', 'tuple', 'array_if', 'obj'):
        d['k'] = 'i64'
    if bad:
        d['k'] = r.choice(BAD)
        if len(d['p']) < 3:
            d['p'] = [[0, 0], [5, 0], [5, 5]]
    return d

def gen_fault(r, F):
    k = r.choice(F)
    # part: the failing allocation as a fraction of those the call makes without a fault (known only when one task runs)
    if k in ('cxx', 'py'):
        f = {'k': k, 'n': int(2 ** r.uniform(0, 6.5)) - 1, 'sticky': int(r.random() < .3)}
        if r.random() < .8: f['part'] = round(r.random(), 4)
        return f
    return {'k': k}

def gen_op(r, objs, G, F, modfuncs):
    """objs: list of kinds ('C' or 'T')"""
    o = {}
    bad = r.random() < (.15 if 'bad' in F else 0)
    rest = [f for f in F if f not in ('bad',)]
    if objs and (not modfuncs or r.random() < .75):
        i = r.randrange(len(objs))
        o['o'] = i
        m = r.choice(['add_loop', 'add_loop_subject', 'add_loop_clip', 'add_loops', 'add_loops_subject', 'add_loops_clip', 'add_offset', 'add_offset_subject',
                      'add_offset_clip', 'add_offsets', 'add_offsets_subject', 'add_offsets_clip', 'execute', 'execute', 'execute', 'execute', 'reset', 'orig'])
        if m == 'orig' and objs[i] != 'T': m = 'execute'
        o['m'] = m
    else:
        o['m'] = m = r.choice(['union', 'normalize', 'offset', 'boolean_op', 'winding_dir'])
        o['f'] = 1
    if m in ('reset',): pass
    elif m == 'orig':
        o['v'] = r.choice([None, r.randrange(50)])
    elif m == 'execute':
        o['op'] = r.choice(OPS)
        o['tree'] = int(r.random() < .5)
        if r.random() < .3: o['dtype'] = r.choice(['i4', 'f8', 'f4', 'i8', '>i8', 'i2', 'O', 'c16'])
        if bad: o[r.choice(['badop', 'baddtype'])] = 1
    else:
        many = m in ('add_loops', 'add_loops_subject', 'add_loops_clip', 'add_offsets', 'add_offsets_subject', 'add_offsets_clip', 'union', 'normalize', 'offset', 'boolean_op')
        n = (1 + r.randrange(4)) if many else 1
        if many and r.random() < .05: n = 0
        o['l'] = [gen_arg(r, G, 0) for _ in range(n)]
        if bad and n: o['l'][r.randrange(n)] = gen_arg(r, G, 1)
        if many: o['c'] = r.choice(['list', 'tuple', 'gen', 'gen', 'iter'])
        if m == 'boolean_op':
            o['l2'] = [gen_arg(r, G, 0) for _ in range(r.randrange(3))]
            o['c2'] = r.choice(['list', 'gen', 'iter'])
        if 'offset' in m:
            o['mag'] = r.choice([-1, 1]) * r.choice([1, 2, 5, 13, 40])
            o['arc'] = r.choice([1, 2, 5, 20])
            o['closed'] = r.choice([None, 0, 1])
            if bad and r.random() < .3: o['arc'] = r.choice([0, -3])
        if m in ('add_loop', 'add_loops', 'add_offset', 'add_offsets'):
            o['set'] = r.choice(['subject', 'clip'])
            if bad and r.random() < .4: o['badset'] = r.choice([7, -1, 2])
        if bad and r.random() < .15: o['badcast'] = 1
        if o.get('f') and m != 'winding_dir':
            o['op'] = r.choice(OPS)
            o['tree'] = int(r.random() < .5)
            o['track'] = int(r.random() < .5)
            if r.random() < .25: o['dtype'] = r.choice(['i4', 'f8', 'f4', 'i8', '>i8', 'i2', 'O', 'c16'])
    if rest and r.random() < .5:
        f = gen_fault(r, rest)
        if f['k'] == 'iter':
            if o.get('l') and 'c' in o: f['n'] = r.randrange(len(o['l']) + 1); o['c'] = r.choice(['gen', 'iter']); o['fault'] = f
        elif f['k'] == 'reenter':
            if o.get('l') and 'c' in o and 'o' in o: f['n'] = r.randrange(len(o['l']) + 1); f['m'] = r.choice(['reset', 'execute', 'add']); o['c'] = 'gen'; o['fault'] = f
        else: o['fault'] = f
        if o.get('fault', {}).get('k') == 'py':
            # failures inside the interpreter while it runs Python code are not the binding's
            for key in ('c', 'c2'):
                if key in o: o[key] = r.choice(['list', 'tuple'])
            for a in o.get('l', []) + o.get('l2', []):
                if a['k'] == 'array_if' or a['k'] in BAD: a['k'] = 'i64'    # numpy crashes when it fails to describe an error
    return o

def gen_plan(seed, index):
    r = random.Random('C14/%d/%d' % (seed, index))
    G = r.choice([6, 12, 40, 300])
    mode = r.choice(['solo', 'solo', 'multi', 'multi', 'shared', 'shared'])
    p = {'v': 1, 'mode': mode}
    if mode == 'solo':
        p['objs'] = [r.choice('CT') for _ in range(r.choice([0, 1, 1, 2]))]
        F = r.sample(['cxx', 'py', 'iter', 'bad', 'reenter'], r.randrange(4))
        p['tasks'] = [[gen_op(r, p['objs'], G, F, True) for _ in range(1 + r.randrange(8))]]
    elif mode == 'multi':
        nt = 2 + r.randrange(3)
        F = r.sample(['cxx', 'iter', 'bad'], r.randrange(3))
        p['objs'] = [r.choice('CT') for _ in range(nt)]
        p['tasks'] = []
        for t in range(nt):
            ops = []
            for _ in range(1 + r.randrange(4)):
                o = gen_op(r, [p['objs'][t]], G, F, True)
                if 'o' in o: o['o'] = t
                ops.append(o)
            p['tasks'].append(ops)
    else:
        nt = 2 + r.randrange(2)
        F = r.sample(['iter', 'bad', 'cxx'], r.randrange(2))
        p['objs'] = [r.choice('CT')]
        p['tasks'] = [[gen_op(r, p['objs'], G, F, False) for _ in range(1 + r.randrange(3))] for _ in range(nt)]
    if mode != 'solo':
        p['seed'] = r.randrange(1 << 48)
        p['mean'] = r.choice([5, 20, 100, 1000, 20000])
        p['rare'] = r.choice([0, 0, 2, 6])
        p['smode'] = r.randrange(3)
        p['sticky'] = 1 + r.randrange(8)
    return p

# ------------------------------------------------------------------ building arguments
class ArrayIf:
    def __init__(self, v): self.v = v
    def __array__(self, dtype=None, copy=None): return np.array(self.v, dtype='i8')
class ArrayRaise:
    def __init__(self, e): self.e = e
    def __array__(self, dtype=None, copy=None): raise self.e
class IndexRaise:
    def __init__(self, e): self.e = e
    def __int__(self): raise self.e
    def __index__(self): raise self.e
    def __float__(self): raise self.e

def make_arg(a, err):
    p, k = a['p'], a['k']
    b = np.array(p, dtype='i8').reshape(-1, 2)
    if k == 'list': return [list(q) for q in p]
    if k == 'tuple': return tuple(tuple(q) for q in p)
    if k == 'i64': return b
    if k == 'i32': return b.astype('i4')
    if k == 'i16': return b.astype('i2')
    if k == 'fort': return np.asfortranarray(b)
    if k == 'strided':
        w = np.zeros((len(p) * 2, 5), dtype='i8'); w[::2, 1:5:3] = b
        return w[::2, 1:5:3]
    if k == 'rev': return np.ascontiguousarray(b[::-1])[::-1]
    if k == 'matrixT': return np.ascontiguousarray(b.T).T
    if k == 'off': return np.concatenate([np.full((1, 2), 77777, dtype='i8'), b])[1:]
    if k == 'readonly': b.setflags(write=False); return b
    if k == 'swapped': return b.astype('>i8')
    if k == 'array_if': return ArrayIf(p)
    if k == 'f64': return b.astype('f8')
    if k == 'obj': return b.astype('O')
    if k == 'oned': return b.reshape(-1)
    if k == 'threecol': return np.zeros((len(p), 3), dtype='i8')
    if k == 'str': return np.array([['a', 'b']] * len(p))
    if k == 'floatplain': return b.astype('f8')
    if k == 'objbad': return np.array([[object(), 1]] * len(p), dtype='O')
    if k == 'array_raise': return ArrayRaise(err)
    if k == 'index_raise': return np.array([[1, 2], [IndexRaise(err), 3]] + [[4, 5]] * len(p), dtype='O')
    if k == 'none': return None
    if k == 'ragged': return [[1, 2], [3]]
    if k == 'empty3': return np.zeros((0, 3), dtype='i8')
    raise ValueError(k)

def casting_for(args):
    ks = {a['k'] for a in args}
    return 'unsafe' if ks & {'f64', 'obj', 'objbad', 'index_raise'} else None

def gen_iter(items, fault, err, hook):
    for i, x in enumerate(items):
        shim.yield_()
        if fault and fault['n'] == i: hook()
        yield x
    shim.yield_()
    if fault and fault['n'] >= len(items): hook()

class It:
    def __init__(self, items, fault, hook): self.items, self.fault, self.hook, self.i = items, fault, hook, 0
    def __iter__(self): return self
    def __next__(self):
        if self.fault and self.fault['n'] == self.i: self.hook()
        if self.i >= len(self.items): raise StopIteration
        self.i += 1
        return self.items[self.i - 1]

# ------------------------------------------------------------------ outcomes
def pm(m):
    return [[int(x) for x in m[i]] for i in range(len(m))]

FULL = [True]
def point_map_faults(m):
    """the rest of what a PointMap offers: index_map into an array of the caller's, refusals, repr"""
    n = len(m.indices)
    out = np.full(n, -7, dtype=np.intp)
    if m.index_map(out) is not out: return 'index_map does not return the array it was given'
    if list(out) != list(m.index_map()): return 'index_map fills the given array differently'
    step = np.full(2*n + 2, -7, dtype=np.intp)
    if n:
        m.index_map(step[:2*n:2])
        if list(step[:2*n:2]) != list(out) or any(x != -7 for x in step[1::2]): return 'index_map with a strided array'
    for k in (n + 1, n - 1):
        if k < 0: continue
        try:
            m.index_map(np.full(k, -7, dtype=np.intp))
            return 'index_map accepts an array of %d for %d' % (k, n)
        except ValueError: pass
    for k in (-1, len(m), len(m) + 5, -len(m)):
        if 0 <= k < len(m): continue
        try:
            m[k]
            return 'item %d of %d' % (k, len(m))
        except IndexError: pass
    if list(map(list, m)) != [list(m[i]) for i in range(len(m))]: return 'iteration'
    if not repr(m).startswith('PointMap('): return 'repr'
    return ''

def canon(v):
    if v is None: return None
    if isinstance(v, (int, np.integer)): return int(v)
    if isinstance(v, np.ndarray):
        return {'d': v.dtype.str if v.dtype.kind != 'O' else 'O', 'p': [[int(c.real) if isinstance(c, (int, float, complex)) else repr(c) for c in q] for q in v.tolist()]}
    if isinstance(v, tuple) and hasattr(v, '_fields'):
        d = {'f': ','.join(v._fields), 'loop': canon(v.loop)}
        if 'children' in v._fields: d['ch'] = [canon(c) for c in v.children]
        if 'originals' in v._fields:
            d['o'] = pm(v.originals)
            d['im'] = [int(x) for x in v.originals.index_map()]
            bad = FULL[0] and point_map_faults(v.originals)     # not while counting blocks: numpy keeps buffers
            if bad: d['pm'] = bad
        return d
    if isinstance(v, tuple): return [canon(c) for c in v]
    return repr(type(v))

def flat(v):
    """all loops of a canonical result"""
    o = []
    for x in v:
        if 'p' in x: o.append(x)
        else:
            o.append(dict(x['loop'], o=x.get('o'), im=x.get('im'), f=x['f']))
            o += flat(x.get('ch', []))
    return o

def values(v):
    """canonical result without dtypes"""
    if isinstance(v, dict): return {k: values(x) for k, x in v.items() if k != 'd'}
    if isinstance(v, list): return [values(x) for x in v]
    return v

class Viol(Exception):
    def __init__(self, kind, msg): self.kind, self.msg = kind, msg

class World:
    def __init__(self, plan):
        self.plan = plan
        self.objs = [po.Clipper() if k == 'C' else po.TrackedClipper() for k in plan['objs']]
        self.kinds = plan['objs']
        self.dry = {}                  # (task, call) -> numbers of allocations of the call without a fault
        self.counts = None
        self.stats = {}
    def inc(self, k, n=1): self.stats[k] = self.stats.get(k, 0) + n

    def prepare(self, op, plain=False, obj=None):
        """-> (callable, args, kwargs, fault, err, fired)"""
        err = Injected('injected')
        fired = [0]
        fault = None if plain else op.get('fault')
        itf = fault if fault and fault['k'] in ('iter', 'reenter') else None
        o = obj if obj is not None else (self.objs[op['o']] if 'o' in op else None)
        def hook():
            fired[0] += 1
            if itf['k'] == 'iter': raise err
            if itf['m'] == 'reset': o.reset()
            elif itf['m'] == 'execute': o.execute(po.BoolOp.union)
            else: o.add_loop_subject([[0, 0], [9, 0], [9, 9]])
        def arr(a):
            if plain and a['k'] in GOOD: return np.array(a['p'], dtype='i8').reshape(-1, 2)
            return make_arg(a, err)
        def cont(l, c, f):
            items = [arr(a) for a in l]
            if plain: return items
            if c == 'list': return items
            if c == 'tuple': return tuple(items)
            if c == 'gen': return gen_iter(items, f, err, hook)
            return It(items, f, hook)
        m = op['m']
        kw = {}
        if 'l' in op:
            c = op['cast'] if 'cast' in op else casting_for(op['l'] + op.get('l2', []))
            if c and not (plain and all(a['k'] in GOOD for a in op['l'] + op.get('l2', []))): kw['casting'] = c
        if op.get('badcast'): kw['casting'] = 'nope'
        if op.get('dtype'): kw['dtype'] = op['dtype']
        if op.get('baddtype'): kw['dtype'] = 'nope'
        if 'tree' in op: kw['tree_out'] = bool(op['tree'])
        if 'track' in op: kw['track_points'] = bool(op['track'])
        bop = 99 if op.get('badop') else po.BoolOp[op['op']] if 'op' in op else None
        args = []
        if 'f' in op:
            fn = getattr(po, m)
            if m == 'winding_dir': args = [arr(op['l'][0])]
            elif m == 'boolean_op': args = [cont(op['l'], op['c'], itf), cont(op['l2'], op['c2'], None), bop]
            else: args = [cont(op['l'], op['c'], itf)]
        elif m == 'orig':
            fn = (lambda o=o, v=op['v']: setattr(o, 'next_orig_i', v)) if op['v'] is not None else (lambda o=o: o.next_orig_i)
        else:
            fn = getattr(o, m)
            if m == 'execute': args = [bop]
            elif 'l' in op:
                args = [cont(op['l'], op['c'], itf) if 'c' in op else arr(op['l'][0])]
                if 'set' in op: args.append(op['badset'] if 'badset' in op else po.BoolSet[op['set']])
        if 'mag' in op:
            args += [op['mag'], op['arc']]
            if op.get('closed') is not None: args.append(bool(op['closed']))
        return fn, tuple(args), kw, fault, err, fired

    def invoke(self, op, plain=False, obj=None, dry=None):
        """one call -> canonical outcome; raises Viol for outcomes that no call may have"""
        fn, args, kw, fault, err, itfired = self.prepare(op, plain, obj)
        cn = pn = -1
        cs = ps = 0
        if fault and fault['k'] in ('cxx', 'py'):
            n = fault['n']
            if 'part' in fault and dry: n = int(dry[fault['k'] == 'py'] * fault['part'])
            if fault['k'] == 'cxx': cn, cs = n, fault['sticky']
            else: pn, ps = n, fault['sticky']
        res, exc, (cc, pc, fired) = shim.call(fn, args, kw, cn, cs, pn, ps)
        self.counts = (cc, pc)
        if not plain and fault:
            self.inc('fault_armed_' + fault['k'])
            if fired or itfired[0]: self.inc('fault_fired_' + fault['k'])
        bad = is_bad(op)
        if exc is None:
            if fired and cn >= 0: raise Viol('lost_error', '%s succeeded although an allocation failed' % op['m'])
            if fault and fault['k'] == 'iter' and itfired[0]: raise Viol('lost_error', '%s succeeded although the iterator raised' % op['m'])
            if bad == 'must': raise Viol('bad_accepted', '%s accepted an invalid argument' % op['m'])
            c = canon(res)
            check_result(op, c, self.kinds[op['o']] if 'o' in op else 'F')
            self.inc('calls_ok')
            return {'r': c}
        tn = type(exc).__name__
        self.inc('calls_raised')
        if exc is err:
            if not (itfired[0] or any(a['k'] in ('array_raise', 'index_raise') for a in op.get('l', []))): raise Viol('wrong_error', 'unexpected injected exception')
        elif isinstance(exc, MemoryError):
            if not fired: raise Viol('wrong_error', '%s raised MemoryError although no allocation failed' % op['m'])
        elif isinstance(exc, (TypeError, ValueError, IndexError, OverflowError, AttributeError)) and bad and not fired: pass
        elif fired and pn >= 0 and isinstance(exc, (TypeError, ValueError, AttributeError, ImportError)) and bad: pass
        elif fired and pn >= 0 and numpy_oom(exc): pass
        else: raise Viol('wrong_error', '%s raised %s: %s%s' % (op['m'], tn, exc, ' after a failed allocation' if fired else ''))
        if not fired and fault and fault['k'] == 'iter' and itfired[0] and exc is not err: raise Viol('wrong_error', '%s replaced the exception of the iterator by %s' % (op['m'], tn))
        if fired and cn >= 0 and not isinstance(exc, MemoryError): raise Viol('wrong_error', '%s raised %s after a failed C++ allocation' % (op['m'], tn))
        exc.__traceback__ = None
        exc.__context__ = None
        return {'e': tn}

def numpy_oom(exc):
    return False

def is_bad(op):
    if op.get('baddtype') or op.get('badcast'): return 'must'
    if op.get('badop'): return 'must' if op['m'] != 'execute' else 'may'
    for a in op.get('l', []) + op.get('l2', []):
        if a['k'] in BAD:
            if a['k'] != 'floatplain' or not (op['cast'] if 'cast' in op else casting_for(op['l'] + op.get('l2', []))): return 'must'
    if 'badset' in op: return 'must' if op.get('l') else 'may'
    if op.get('arc', 1) < 1: return 'must' if op.get('l') else 'may'
    return None

def check_result(op, c, kind):
    m = op['m']
    if m in ('execute', 'union', 'normalize', 'offset', 'boolean_op'):
        if not isinstance(c, list): raise Viol('result', '%s returned %r' % (m, c))
        tracked = op.get('track') or kind == 'T'
        for x in c: check_loop(op, x, tracked)
    elif m == 'winding_dir':
        p = op['l'][0]['p']
        a = sum(p[i][0] * p[(i + 1) % len(p)][1] - p[i][1] * p[(i + 1) % len(p)][0] for i in range(len(p)))
        if (a > 0) - (a < 0) != (c > 0) - (c < 0): raise Viol('result', 'winding_dir(%s) returned %r' % (p, c))
    elif m == 'orig': pass
    elif c is not None: raise Viol('result', '%s returned %r' % (m, c))

def check_loop(op, x, tracked):
    want = []
    if op.get('tree') or tracked:
        want = ['loop'] + (['children'] if op.get('tree') else []) + (['originals'] if tracked else [])
        if 'f' not in x: raise Viol('result', 'a plain array where %s is promised' % want)
        if x['f'] != ','.join(want): raise Viol('result', 'fields %s instead of %s' % (x['f'], want))
        lp = x['loop']
    else:
        if 'f' in x: raise Viol('result', 'unexpected %s' % x['f'])
        lp = x
    if op.get('dtype'):
        d = np.dtype(op['dtype'])
        if lp['d'] != (d.str if d.kind != 'O' else 'O'): raise Viol('result', 'dtype %s instead of %s' % (lp['d'], d.str))
    if tracked:
        if len(x['o']) != len(lp['p']): raise Viol('result', 'origins of %d points for a loop of %d' % (len(x['o']), len(lp['p'])))
        for s in x['o']:
            if s != sorted(set(s)): raise Viol('result', 'origins %s' % s)
        if x.get('pm'): raise Viol('result', 'PointMap: ' + x['pm'])
        if x['im'] != [i for i, s in enumerate(x['o']) for _ in s]: raise Viol('result', 'index_map %s of %s' % (x['im'], x['o']))
    for ch in x.get('ch', []) if isinstance(x, dict) else []: check_loop(op, ch, tracked)

# needs no rounding: the rounding generator is not reset by reset()

def check_dtype(op, out, kinds, i):
    """the element type of results: that of the arguments since the last execute or reset, promoted"""
    m = op['m']
    given = [np.dtype(DT.get(a['k'], 'i8')) for a in op.get('l', []) + op.get('l2', []) if a['k'] in GOOD]
    if i is not None:
        if 'e' in out or op.get('fault', {}).get('k') == 'reenter': kinds[i] = None
        elif m in ('execute', 'reset'): pass
        elif 'l' in op and kinds[i] is not None: kinds[i] += given
        use = kinds[i]
        if m == 'reset' or (m == 'execute' and 'r' in out): kinds[i] = []
        if m != 'execute': return
    else: use = given
    if op.get('dtype') or 'e' in out or use is None or m == 'winding_dir' or not out['r']: return
    want = np.result_type(*use)
    want = want.str[1:] if want.kind != 'O' else 'O'
    for x in flat(out['r']):
        if x['d'].lstrip('<>') != want: raise Viol('result', '%s of arrays of %s gives dtype %s' % (m, [str(u) for u in use], x['d']))

DT = {'i32': 'i4', 'i16': 'i2', 'swapped': '>i8', 'f64': 'f8', 'obj': 'O'}
PROBE = [{'p': [[0, 0], [90, 0], [90, 90], [0, 90]], 'k': 'i64'}, {'p': [[20, 30], [130, 30], [130, 140], [20, 140]], 'k': 'i64'}]
KNOWN = [(0, 0), (0, 90), (20, 30), (20, 90), (90, 0), (90, 30)]
def probe(o, kind):
    o.reset()
    o.add_loops_subject([np.array(PROBE[0]['p'])])
    o.add_loops_clip([np.array(PROBE[1]['p'])])
    a = canon(o.execute(po.BoolOp.difference, tree_out=False))
    o.add_loop_subject(np.array(PROBE[1]['p']))
    b = canon(o.execute(po.BoolOp.union))
    if sorted(map(tuple, a[0]['loop']['p'] if kind == 'T' else a[0]['p'])) != KNOWN or len(a) != 1 or len(b) != 1:
        raise Viol('result', 'after reset() the difference of two squares is %s, one square %s' % (a, b))
    if kind == 'T':
        for l, n in ((a[0], 8), (b[0], 4)):
            for q, o in zip(l['loop']['p'], l['o']):
                want = [i for i in range(n) if (PROBE[0]['p'] + PROBE[1]['p'] if n == 8 else PROBE[1]['p'])[i] == q]
                if not set(want) <= set(o) or (n == 4 and o != want): raise Viol('result', 'after reset() the origins of %s are %s instead of %s' % (q, o, want))
    return [a, b]

# ------------------------------------------------------------------ executing a plan (in a child)
def run_solo(plan, reps):
    w = World(plan)
    hist = []
    dry = {}
    live = array.array('q', [0] * (2 * reps))
    for rep in range(reps):
        FULL[0] = rep == 0
        w = World(plan) if rep else w
        twins = None
        if rep == 0: twins = [po.Clipper() if k == 'C' else po.TrackedClipper() for k in plan['objs']]
        taint = [False] * len(plan['objs'])
        kinds = [[] for _ in plan['objs']]
        for n, op in enumerate(plan['tasks'][0]):
            if rep == 0 and op.get('fault', {}).get('k') in ('cxx', 'py') and 'part' in op['fault']:
                d = World(dict(plan, objs=[plan['objs'][op['o']]] if 'o' in op else []))
                q = dict(op, fault=None)
                if 'o' in op: q['o'] = 0
                if op['m'] == 'execute': d.objs[0].add_loops_subject([PROBE[0]['p'], PROBE[1]['p']])
                d.invoke(q)
                dry[n] = d.counts
            out = w.invoke(op, dry=dry.get(n))
            i = op.get('o')
            if rep == 0: check_dtype(op, out, kinds, i)
            if rep == 0:
                hist.append(out)
                reent = op.get('fault', {}).get('k') == 'reenter'
                if 'e' in out or reent:
                    if i is not None: taint[i] = True
                elif i is None:
                    ref = w.invoke(op, plain=True)
                    if values(ref) != values(out): raise Viol('layout', '%s gives %s, and %s when the same points are plain arrays' % (op['m'], out, ref))
                elif op['m'] == 'reset':
                    twins[i].reset()
                    taint[i] = False
                elif not taint[i]:
                    ref = w.invoke(op, plain=True, obj=twins[i])
                    if values(ref) != values(out): raise Viol('layout', '%s gives %s, and %s when the same points are plain arrays' % (op['m'], out, ref))
                elif op['m'] == 'execute':
                    pass
        if rep == 0:
            for k, o in zip(plan['objs'], w.objs):
                fresh = po.Clipper() if k == 'C' else po.TrackedClipper()
                a, b = probe(o, k), probe(fresh, k)
                if a != b: raise Viol('reset', 'after reset() an object gives %s, a new one %s' % (a, b))
        st = w.stats if rep == 0 else st
        del w, twins
        out = ref = o = fresh = a = b = None
        gc.collect()
        shim.live_to(live, rep)
    dc = [live[2 * i + 2] - live[2 * i] for i in range(reps - 1)]
    dp = [live[2 * i + 3] - live[2 * i + 1] for i in range(reps - 1)]
    h = len(dc) // 2
    if len(dc) >= 4:
        if all(d > 0 for d in dc[-3:]): raise Viol('leak', 'C++ blocks are leaked in every repetition: %s' % dc)
        # numpy leaks when it refuses to convert an array
        refused = any(a['k'] in ('str', 'floatplain') for op in plan['tasks'][0] for a in op.get('l', []) + op.get('l2', []))
        if not refused and all(d > 0 for d in dp[-3:]) and sum(dp[h:]) >= len(dp[h:]):
            if reps < 24: return run_solo(plan, 30)
            if all(d > 0 for d in dp[12:]): raise Viol('leak', 'Python blocks are leaked in every repetition: %s' % dp)
    return hist, st, {}

def run_tasks(plan, sequential):
    w = World(plan)
    n = len(plan['tasks'])
    outs = [[] for _ in range(n)]
    ev = []
    stats = [{} for _ in range(n)]
    fail = []
    shim.start(n, plan.get('seed', 1), 1 if sequential else plan.get('smode', 0), 1 << 30 if sequential else plan.get('sticky', 1))
    def body(t):
        shim.enter(t, plan.get('seed', 1), 0 if sequential else plan.get('mean', 0), 0 if sequential else plan.get('rare', 0))
        try:
            for k, op in enumerate(plan['tasks'][t]):
                shim.yield_()
                a = shim.clock()
                out = w.invoke(op)
                b = shim.clock()
                outs[t].append(out)
                ev.append((a, b, t, k, out))
        except Viol as e:
            fail.append((e.kind, e.msg))
        except BaseException as e:      # noqa: BLE001
            fail.append(('harness', repr(e)))
        shim.leave()
    for t in range(n): _thread.start_new_thread(body, (t,))
    info = shim.run()
    if fail: raise Viol(*fail[0])
    return w, outs, ev, info

def expand(ev):
    """calls -> atomic steps: adding several loops is one step per loop. Every step: (start, end, task, ops, outcome or None)"""
    per = {}
    for a, b, t, k, out in ev: per.setdefault(t, []).append((a, b, k, out))
    return {t: sorted(v) for t, v in per.items()}

def steps_of(op, out):
    """the atomic steps a call on a shared object may be split into, with the outcome of the call at the last"""
    m = op['m']
    if 'l' in op and 'c' in op and (len(op['l']) > 1 and 'r' in out or op['l'] and 'e' in out):
        n = len(op['l'])
        bad = False
        if 'e' in out:      # the loops before the one that failed have been added
            if 'badcast' in op: return []
            if 'badset' in op or op.get('arc', 1) < 1 or op.get('fault', {}).get('k', 'iter') != 'iter': return None
            if 'fault' in op: n = op['fault']['n']
            for i, a in enumerate(op['l'][:n]):
                if a['k'] in BAD and (a['k'] != 'floatplain' or not casting_for(op['l'])):
                    n, bad = i, True
                    break
        single = m.replace('loops', 'loop').replace('offsets', 'offset')
        res = []
        for a in op['l'][:n]:
            d = {k: v for k, v in op.items() if k not in ('l', 'c', 'fault')}
            d['m'] = single
            d['l'] = [a]
            d['cast'] = casting_for(op['l'])
            res.append((d, {'r': None}))
        if bad: res.append(({'m': 'noop'}, {'r': None}))
        return res
    return [(op, out)]

def linearize(plan, ev, hint):
    """is there an order of the atomic steps, consistent with the order of calls, in which a new object gives these outcomes?"""
    calls = {}
    for a, b, t, k, out in ev: calls.setdefault(t, []).append((k, a, b, out))
    seqs = {}
    for t, c in calls.items():
        s = []
        for k, a, b, out in sorted(c):
            st = None if out.get('e') == 'MemoryError' else steps_of(plan['tasks'][t][k], out)
            if st is None: return None      # partial effects nobody promises: not decided
            for op, o in st: s.append((op, o, a, b))
        seqs[t] = s
    ts = sorted(seqs)
    total = sum(len(s) for s in seqs.values())
    budget = [600]
    w = World(plan)
    def replay(order):
        o = po.Clipper() if plan['objs'][0] == 'C' else po.TrackedClipper()
        for op, out in order:
            if op['m'] == 'noop': continue
            try: got = w.invoke(dict(op, fault=None) if op.get('fault') else op, obj=o)
            except Viol as e: got = {'viol': e.kind}
            if got != out: return False
        return True
    # the order in which the tasks took the lock is tried first; it decides nothing unless the outcomes agree
    if sorted(hint) == [t for t in ts for _ in seqs[t]]:
        pos, order = dict.fromkeys(ts, 0), []
        for t in hint:
            op, out, a, b = seqs[t][pos[t]]
            if any(pos[u] < len(seqs[u]) and seqs[u][pos[u]][3] < a for u in ts if u != t): break
            order.append((op, out))
            pos[t] += 1
        if len(order) == total and replay(order): return 'by lock order'
    if total > 11: return None
    def dfs(pos, order):
        if len(order) == total: return True
        if budget[0] <= 0: return None
        for i, t in enumerate(ts):
            if pos[i] >= len(seqs[t]): continue
            op, out, a, b = seqs[t][pos[i]]
            # a step may not come before one of another task whose call ended before this call began
            if any(pos[j] < len(seqs[u]) and seqs[u][pos[j]][3] < a for j, u in enumerate(ts) if u != t): continue
            order.append((op, out))
            budget[0] -= 1
            ok = True
            if op['m'] in ('execute', 'orig') or 'e' in out or len(order) == total: ok = replay(order)
            if ok:
                r = dfs([p + (j == i) for j, p in enumerate(pos)], order)
                if r or r is None: return r
            order.pop()
        return False
    return dfs([0] * len(ts), [])

def child(plan):
    if plan['mode'] == 'solo':
        hist, st, _ = run_solo(plan, 7)
        return {'h': hist, 'stats': st}
    w, outs, ev, info = run_tasks(plan, False)
    st = dict(w.stats)
    st.update(sched_yields=info['yields'], sched_switches=info['switches'], sched_preemptions=info['preempts'])
    res = {'h': outs, 'trace': info['trace'], 'stats': st}
    if plan['mode'] == 'multi':
        w2, outs2, _, _ = run_tasks(plan, True)
        if outs != outs2:
            for t in range(len(outs)):
                for k, (a, b) in enumerate(zip(outs[t], outs2[t])):
                    if a != b: raise Viol('interference', 'task %d call %d (%s) gives %s, run alone %s' % (t, k, plan['tasks'][t][k]['m'], a, b))
        for o, k in zip(w.objs, plan['objs']):
            fresh = po.Clipper() if k == 'C' else po.TrackedClipper()
            if probe(o, k) != probe(fresh, k): raise Viol('reset', 'after reset() an object differs from a new one')
    else:
        r = linearize(plan, ev, info['order'])
        st['linearized_by_lock_order' if r == 'by lock order' else 'linearized_by_search' if r else 'not_decided'] = 1
        if r is False: raise Viol('not_sequential', 'no sequential order of the calls explains %s' % [(t, k, out) for a, b, t, k, out in sorted(ev)])
        for o, k in zip(w.objs, plan['objs']):
            fresh = po.Clipper() if k == 'C' else po.TrackedClipper()
            if probe(o, k) != probe(fresh, k): raise Viol('reset', 'after reset() a shared object differs from a new one')
    return res

class Zygote:
    """forks the runs. It does the same few things between two runs, so every run starts from the same state of the interpreter."""
    def __init__(self):
        self.data, self.err = os.memfd_create('data'), os.memfd_create('err')
        r1, self.w = os.pipe()
        self.r, w1 = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        if os.fork() == 0:
            try: self.loop(r1, w1)
            finally: os._exit(0)
        os.close(r1); os.close(w1)
        for _ in range(3): self.run('null')
    def loop(self, r, w):
        os.close(self.w); os.close(self.r)
        while os.read(r, 1):
            pid = os.fork()
            if pid == 0:
                try: self.child(r)
                finally: os._exit(0)
            os.write(w, os.waitpid(pid, 0)[1].to_bytes(4, 'little'))
    def child(self, r):
        n = int.from_bytes(os.read(r, 4), 'little')
        b = b''
        while len(b) < n: b += os.read(r, n - len(b))
        os.dup2(self.err, 2)
        resource.setrlimit(resource.RLIMIT_CPU, (CHILD_CPU, CHILD_CPU))
        signal.alarm(CHILD_WALL)
        plan = json.loads(b)
        del b
        if plan is None: return
        try:
            out = child(plan)
        except Viol as e:
            out = {'viol': [e.kind, e.msg]}
        except BaseException as e:      # noqa: BLE001
            import traceback
            out = {'viol': ['harness', repr(e) + ' ' + traceback.format_exc()[-600:]]}
        b = json.dumps(out, sort_keys=True).encode()
        b = len(b).to_bytes(8, 'little') + b
        while b: b = b[os.write(self.data, b):]
    def run(self, text):
        """-> what the run wrote, its standard error, its wait status"""
        b = text.encode()
        for f in (self.data, self.err):
            os.ftruncate(f, 0)
            os.lseek(f, 0, 0)
        b = b'x' + len(b).to_bytes(4, 'little') + b
        while b: b = b[os.write(self.w, b):]
        status = b''
        while len(status) < 4:
            c = os.read(self.r, 4 - len(status))
            if not c: raise RuntimeError('the process that forks the runs ended')
            status += c
        res = []
        for f in (self.data, self.err):
            os.lseek(f, 0, 0)
            res.append(b''.join(iter(lambda: os.read(f, 1 << 20), b'')))
        return res[0], res[1][-20000:], int.from_bytes(status, 'little')

zygote = None

def execute(plan):
    """-> dict(kind=None|..., msg=..., hash=..., stats=...)"""
    data, err, status = zygote.run(json.dumps(plan, sort_keys=True))
    e = err.decode(errors='replace')
    res = {'kind': None, 'msg': '', 'hash': None, 'stats': {}}
    if len(data) >= 8 and len(data) == 8 + int.from_bytes(data[:8], 'little') and status == 0:
        out = json.loads(data[8:])
        if 'viol' in out: res['kind'], res['msg'] = out['viol']
        res['stats'] = out.pop('stats', {})
        res['hash'] = hashlib.sha256(json.dumps(out, sort_keys=True).encode()).hexdigest()[:16]
        res['trace'] = out.get('trace', 0)
        return res
    import re
    m = re.search(r'FATAL kind=(\S+) msg=(.*)', e)
    if m: res['kind'], res['msg'] = m[1], m[2]
    elif 'AddressSanitizer' in e:
        m = re.search(r'ERROR: AddressSanitizer:? ([^\s(]+)', e)
        res['kind'] = 'asan:' + (m[1] if m else '?')
        res['msg'] = ' '.join(e[e.find('ERROR:'):][:300].split())
        res['frames'] = re.findall(r'_polyops\.so\+(0x[0-9a-f]+)', e)[:8]
    elif os.WIFSIGNALED(status):
        s = os.WTERMSIG(status)
        res['kind'] = 'hang' if s in (signal.SIGALRM, signal.SIGKILL, signal.SIGXCPU) else 'crash'
        res['msg'] = 'signal %d; %s' % (s, e[-300:])
    else: res['kind'], res['msg'] = 'crash', 'status %d; %s' % (status, e[-300:])
    res['hash'] = hashlib.sha256(res['kind'].encode()).hexdigest()[:16]
    return res

def main():
    gc.disable()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.setswitchinterval(1e6)
    a = sys.argv[1:]
    if a[0] == 'gen':
        print(json.dumps(gen_plan(int(a[1]), int(a[2])), sort_keys=True))
        return 0
    # warm up: import everything lazily imported, fill type caches
    shim.hook()
    for i in range(40):
        try: child({'v': 1, 'mode': 'solo', 'objs': ['C', 'T'], 'tasks': [gen_plan(12345, i)['tasks'][0]]}) if gen_plan(12345, i)['mode'] == 'solo' and not any('fault' in o for o in gen_plan(12345, i)['tasks'][0]) else None
        except Viol: pass
    gc.collect(); gc.freeze()
    global zygote
    zygote = Zygote()
    if a[0] == 'replay':
        txt = open(a[1]).read()
        plan = json.loads('\n'.join(l for l in txt.splitlines() if not l.startswith('#')))
        print(json.dumps(execute(plan)))
        return 0
    seed = int(a[1])
    for line in sys.stdin:
        w = line.split()
        if w[0] == 'plan':
            print(json.dumps(execute(json.loads(line[5:]))), flush=True)
            continue
        if w[0] == 'gen':
            print(json.dumps(gen_plan(seed, int(w[1]))), flush=True)
            continue
        start, count = int(w[0]), int(w[1])
        for i in range(start, start + count):
            plan = gen_plan(seed, i)
            r = execute(plan)
            r['i'] = i
            r['mode'] = plan['mode']
            if i % 16 == 0 and r['kind'] is None:
                q = execute(plan)
                r['again'] = q['hash']
            print(json.dumps(r), flush=True)
        print(json.dumps({'done': 1}), flush=True)
    return 0

if __name__ == '__main__':
    sys.exit(main())
