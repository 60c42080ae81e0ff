import ctypes, gc, math, os, random, sys, threading
import numpy as np
import polyops as po
from polyops import _polyops
lib = ctypes.CDLL(os.environ['FAILNEW'])
lib.fail_at.argtypes = [ctypes.c_long]
mode = sys.argv[1]

def rect(x, y, w, h): return [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
def star(r, n, size=1000): return [[r.randrange(size), r.randrange(size)] for _ in range(n)]
def plain(v):
    if isinstance(v, np.ndarray): return v.tolist()
    if isinstance(v, po.PointMap): return [list(map(int, v[i])) for i in range(len(v))]
    return [plain(x) for x in v]
def bad(msg):
    print('WRONG:', msg)
    sys.stdout.flush()
    os._exit(1)

NEST = [rect(0, 0, 100, 100), rect(10, 10, 80, 80)[::-1], rect(20, 20, 60, 60), rect(30, 30, 40, 40)[::-1], rect(200, 0, 50, 50)]

def blocks(f):
    for _ in range(20): f()
    gc.collect()
    a = sys.getallocatedblocks()
    for _ in range(400): f()
    gc.collect()
    return sys.getallocatedblocks() - a

class Fail(Exception): pass

def failing_results(track):
    """the n-th loop object of a result cannot be made"""
    name = {(0, 1): 'RecursiveLoop', (1, 1): 'TrackedRecursiveLoop', (1, 0): 'TrackedLoop'}[track, 1]
    real = getattr(_polyops, name)
    for n in range(5):
        left = [0]
        def make(*a):
            left[0] -= 1
            if left[0] < 0: raise Fail
            return real(*a)
        def once():
            left[0] = n
            try: po.union(NEST, tree_out=True, track_points=bool(track))
            except Fail: return
            bad('the failure to make result %d did not arrive' % n)
        setattr(_polyops, name, make)
        try: d = blocks(once)
        finally: setattr(_polyops, name, real)
        if d > 100: bad('%d blocks are still in use after 400 failures at result %d' % (d, n))

def memory(track):
    """each allocation of an execution fails in turn; a process each, since libstdc++'s pools crash on some failures of their own"""
    r = random.Random(5)
    # upright rectangles meet in whole coordinates, so the result depends on nothing but the input
    loops = [rect(r.randrange(50), r.randrange(50), 5 + r.randrange(50), 5 + r.randrange(50)) for _ in range(9)]
    want = plain(po.union(loops, track_points=bool(track)))
    reached = 0
    for n in range(400):
        pid = os.fork()
        if pid == 0:
            c = po.TrackedClipper() if track else po.Clipper()
            c.add_loops_subject(loops)
            lib.fail_at(n)
            code = 1
            try:
                c.execute(po.BoolOp.union)
                code = 3
            except MemoryError: pass
            except BaseException as e:
                lib.fail_at(-1)
                bad('allocation %d failing raises %r instead of MemoryError' % (n, e))
            code = 0 if code == 3 and lib.not_reached() else 4 if code == 3 else 2
            lib.fail_at(-1)
            c.reset()
            c.add_loops_subject(loops)
            if plain(c.execute(po.BoolOp.union)) != want: bad('another result after a failure at allocation %d' % n)
            os._exit(code)
        st = os.waitpid(pid, 0)[1]
        if os.WIFSIGNALED(st):
            if os.WTERMSIG(st) == 11: continue
            bad('allocation %d failing ends the process with signal %d' % (n, os.WTERMSIG(st)))
        code = os.WEXITSTATUS(st)
        if code == 1: sys.exit(1)
        if code == 4: bad('the failure of allocation %d did not arrive' % n)
        reached += code == 2
        if code == 0: break
    if not reached: bad('no failure was injected')

def circle(r):
    R = r.randrange(50000, 100000)
    return [[round(R * math.cos(i * math.pi / 2000)), round(R * math.sin(i * math.pi / 2000))] for i in range(4000)]

def threads(f, gen, n):
    """calls on separate data from several threads"""
    rs = [random.Random(i) for i in range(4)]
    work = [[gen(r) for _ in range(n)] for r in rs]
    want = [[plain(f(x)) for x in w] for w in work]
    wrong = []
    def run(i):
        for rep in range(4):
            for x, y in zip(work[i], want[i]):
                try:
                    if plain(f(x)) != y: wrong.append('a different result')
                except BaseException as e: wrong.append(repr(e))
    ts = [threading.Thread(target=run, args=(i,)) for i in range(4)]
    for t in ts: t.start()
    for t in ts: t.join()
    if wrong: bad('%d calls disturbed by other threads: %s' % (len(wrong), wrong[0]))

class Raises:
    def __index__(self): raise Fail
    __int__ = __index__
    __float__ = __index__

def refused(f):
    """a coordinate cannot be converted"""
    a = np.array(rect(0, 0, 10, 10), dtype=object)
    a[2, 1] = Raises()
    try: f([rect(50, 50, 10, 10), a])
    except Fail: return
    bad('the failing conversion of a coordinate did not arrive')

if mode == 'results': failing_results(0)
elif mode == 'tracked-results': failing_results(1)
elif mode == 'memory': memory(0)
elif mode == 'tracked-memory': memory(1)
elif mode == 'threads': threads(lambda x: po.union(x), lambda r: [star(r, 30) for _ in range(4)], 12)
elif mode == 'offset-threads': threads(lambda x: po.offset(x, 5, 4), lambda r: [np.array(circle(r))], 6)
elif mode == 'refused': refused(lambda x: po.union(x, casting='unsafe'))
elif mode == 'offset-refused': refused(lambda x: po.offset(x, 1, 1, casting='unsafe'))
else: bad('no such mode')
print('as expected')
