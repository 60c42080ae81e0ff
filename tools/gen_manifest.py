#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
from plan_table import PROPS
TECH = {
 'C01': 'deterministic simulation: adversarial rounding-coin schedules; exact crossing check of every output',
 'C02': 'deterministic simulation: rounding-coin schedules; exact winding-number reference model at probe points',
 'C03': 'deterministic simulation: rounding-coin schedules; exact structural and nesting checks, flat/tree differential',
 'C04': 'deterministic simulation: adversarial-then-fair coin schedules; bounded progress counted in sweep steps',
 'C05': 'deterministic simulation with allocation-fault injection; memory ledger and new-object differential',
 'C06': 'deterministic simulation with caller-exception injection; ledger and new-object differential',
 'C07': 'deterministic simulation of operation histories with faults; new-object reference differential',
 'C08': 'deterministic simulation of interleaved threads under a seeded baton scheduler; solo-run differential',
 'C09': 'deterministic simulation under varied heap/stack content and address layout; history-hash differential',
 'C10': 'deterministic simulation of tracked histories; reference model of the tracker protocol',
 'C11': 'deterministic simulation of tracked histories with faults; set-valued reference model of origins',
 'C12': 'deterministic simulation: rounding-coin schedules; exact distance-to-input reference model',
 'C13': 'deterministic simulation of suspended, abandoned and failing scans; exact per-pixel winding reference model',
 'C14': 'deterministic simulation of the Python binding: seeded scheduler at GIL release points, fault injection, sequential reference',
 'C18': 'deterministic simulation of chained operations under rounding-coin schedules; exact boundary comparison',
 'C15': 'deterministic simulation of lifetimes on a ledgered, poisoned heap; re-read comparison',
}
NOTE = ('Seeded search: samples runs, does not enumerate; a clean batch is evidence, not proof. Real polyops code runs compiled with sanitizers; '
        'trusted: compilers, libstdc++, the reference models in sim/. ')
EXTRA = {
 'C02': 'Judged at sampled points farther from input lines than the accumulated rounding (8 units + 0.6*sqrt(crossings per line) + 0.75 per adverse coin).',
 'C03': 'Nesting and orientation are judged for loops none of whose lines coincide with other output lines.',
 'C04': 'Bound 20000+1000(n+k+burst)+8n(k+burst) sweep steps for n lines, k crossings, burst adverse coins; plus a CPU-time cap per run.',
 'C05': 'Failures inside libstdc++ unsynchronized_pool_resource chunk-list growth are not injected (libstdc++ defect, see DESIGN.md).',
 'C12': 'Judged at sampled points; a wrong area smaller than a disc with the rounding tolerance as radius is not judged. Distances around regions that are not simple are not judged.',
 'C08': 'The scheduler takes the baton at allocation, sweep-step, caller-range and callback points and between basic blocks of instrumented code; memory is sequentially consistent between switches.',
 'C14': 'Switches happen where the interpreter lock is released, at C++ locks, and between basic blocks of the extension while it runs without the lock. Allocations numpy makes for itself are not failed. Outcomes of calls that failed part-way on a shared object are not linearised.',
 'C18': 'Results of more than 400 points are not fed back.',
 'C09': 'Builds with stack pattern fill, zero fill and none are compared run by run.',
}
NA = {
 'C16': 'A pure function of its operands: no schedule, fault, time or I/O for a simulator to decide.',
 'C17': 'A pure function of its input: no schedule, fault, time or I/O for a simulator to decide.',
}
m = {
 'version': 1,
 'setup_cmd': 'python3 check.py --setup',
 'hooks': {'guard': 'none: no hooks were added to /repo; the existing seams POLY_OPS_ASSERT, POLY_OPS_DEBUG_ITERATION, std::minstd_rand, std::pmr::memory_resource, caller ranges and i_point_tracker are bound by the simulator',
           'enable': 'the simulator defines these macros before including the headers', 'source_commits': []},
 'checks': [{'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
             'evidence_file': 'evidence/%s.json' % p, 'technique': TECH[p], 'level': 'exploration', 'level_note': NOTE + EXTRA.get(p, '')} for p in sorted(PROPS)],
 'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())],
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
