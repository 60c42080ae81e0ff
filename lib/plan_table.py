"""What each property's check runs: world, configurations, number of simulated runs, and how its evidence is described."""
CLIP_REAL = ['include/poly_ops/base.hpp', 'include/poly_ops/clip.hpp', 'include/poly_ops/sweep_set.hpp', 'include/poly_ops/rbtree_algorithms.hpp',
             'include/poly_ops/large_ints.hpp', 'include/poly_ops/offset.hpp', 'include/poly_ops/mini_flat_set.hpp', 'libstdc++ pmr containers and pools']
CLIP_STUBS = ['std::minstd_rand (rounding coins) replaced by the simulator\'s coin source', 'std::pmr memory resources replaced by a ledgered, poisoning, failing heap',
              'caller iterators, point types and tracker callbacks supplied by the simulator', 'POLY_OPS_ASSERT and POLY_OPS_DEBUG_ITERATION (existing seams) bound to the simulator']
CLIP_RULE = ('run i is a plan generated from (VERIF_SEED, i): shape families, operation history, feeding routes, rounding policy, heap policy, faults and schedule. '
             'A run is non-trivial when at least one rounding coin was drawn, one fault fired or one schedule switch beyond task hand-over occurred; '
             'distinct means a different hash of the full history (calls, outcomes, outputs, callbacks, step counts).')

def clip(runs, **kw):
    d = dict(world='main', runs=runs, rule=CLIP_RULE, real=CLIP_REAL, stubs=CLIP_STUBS, level='exploration', thorough=8, chunk=500,
             assumptions=['clang/gcc sanitizers and libstdc++ behave as documented', '64-bit coordinates are explored up to +-2^51 where double is exact to a unit'])
    d.update(kw)
    return d

PROPS = {
    'C01': clip({'32': 45000, '16': 20000, '64': 15000}),
    'C02': clip({'32': 40000, '16': 15000, '64': 15000}),
    'C03': clip({'32': 40000, '16': 15000, '64': 15000}),
    'C04': clip({'32': 30000, '16': 10000, '64': 10000}),
    'C05': clip({'32': 20000, '16': 8000, '64': 4000}),
    'C06': clip({'32': 24000, '16': 8000, '64': 6000}),
    'C07': clip({'32': 12000, '16': 5000, '64': 4000}),
    'C08': clip({'32': 3400, '16': 1200}, variants=['pre'], chunk=100),
    'C09': clip({'32': 5000, '16': 1500}, variants=['san', 'pat', 'zero'], chunk=100),
    'C10': clip({'32': 45000, '16': 20000, '64': 15000}),
    'C11': clip({'32': 35000, '16': 12000, '64': 10000}),
    'C12': clip({'32': 21000, '16': 10000, '64': 7000}),
    'C15': clip({'32': 45000, '16': 20000, '64': 15000}),
    'C18': clip({'32': 28000, '16': 11000, '64': 9000}),
    'C13': dict(world='raster', runs={'32': 24000, '16': 10000, '64': 10000}, level='exploration', thorough=8, chunk=250,
        rule=('run i is a plan generated from (VERIF_SEED, i): shapes, feeding routes, image sizes, fill rules, suspended, abandoned, resumed and moved scans, clears, and '
              'faults in input ranges, fill callbacks and allocations. A run is non-trivial when a scan or draw produced at least one span or a fault fired; '
              'distinct means a different hash of the full history (calls, outcomes, spans).'),
        real=['include/poly_ops/polydraw.hpp', 'include/poly_ops/sweep_set.hpp', 'include/poly_ops/rbtree_algorithms.hpp', 'include/poly_ops/large_ints.hpp', 'include/poly_ops/base.hpp'],
        stubs=['global operator new/delete replaced by a counting, filling, failing allocator', 'caller ranges and fill callbacks supplied by the simulator'],
        assumptions=['clang/gcc sanitizers and libstdc++ behave as documented', 'pixel semantics as documented in DESIGN.md (C13)']),
    'C14': dict(world='py', runs={'py': 8000}, level='exploration', thorough=8,
        real=['py/_polyops.pyx and py/common.pxd compiled by Cython', 'include/poly_ops/*.hpp', 'CPython and numpy'],
        stubs=['thread scheduling: PyEval_SaveThread/RestoreThread, pthread_mutex_lock and sem_wait go to the simulator\'s scheduler, which also takes the baton between basic blocks',
               'operator new/delete and the PyMem allocators replaced by counting, failing ones', 'iterators, array-like arguments and callbacks supplied by the simulator'],
        assumptions=['clang\'s address sanitizer, CPython, Cython and numpy behave as documented', 'failures of allocations numpy makes for itself are not injected (see DESIGN.md)']),
}
