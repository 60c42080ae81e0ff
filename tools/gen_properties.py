#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long records stay reviewable)."""
import json, os
CLIP="include/poly_ops/clip.hpp"; BASE="include/poly_ops/base.hpp"; SWEEP="include/poly_ops/sweep_set.hpp"
RB="include/poly_ops/rbtree_algorithms.hpp"; OFF="include/poly_ops/offset.hpp"; FLAT="include/poly_ops/mini_flat_set.hpp"
DRAW="include/poly_ops/polydraw.hpp"; LI="include/poly_ops/large_ints.hpp"; PYX="py/_polyops.pyx"
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","Output line segments never cross, however intersections are rounded",
 "In the output of every boolean operation, union, normalization or offset, no two line segments cross and no line segment passes through the interior of another: any two of them either share nothing, touch only at endpoints, or coincide completely. This holds for every input and for every sequence of floor/ceil choices made when intersection points are rounded to integers, including ones chosen to keep creating new intersections.",
 ["inputs","schedules","histories"],"every set of input loops (subject and clip), every operation, flat or hierarchical output, every coordinate width, and every sequence of outcomes of the rounding coin flips",
 "Unit tests run a fixed handful of shapes with the one coin sequence the default seed yields; chain reactions of re-intersection after rounding depend on which way each coin falls.",
 [CLIP,BASE,SWEEP,RB,LI],[("sweep that splits lines and rewinds to re-check after rounding","clip.hpp clipper::self_intersection / events_t"),("randomised rounding of intersection points","clip.hpp detail::intersects, rand_bool")],
 ["the loops returned by clipper::execute, boolean_op, union_op, normalize_op, offset"],
 [("event queue","sorted forward/backward endpoint events with a rewindable cursor","clip.hpp events_t"),("sweep set","lines crossing the sweep position in order","sweep_set.hpp")])

prop("C02","Output encloses exactly the region the operation defines, up to rounding",
 "Every point of the plane farther from all input lines than the accumulated coordinate rounding has output winding number 1 when the requested operation on the inputs' regions says it is inside and 0 when it says it is outside: a loop set's region is where its winding number is positive for union, intersection, difference and symmetric difference (union uses the two sets' combined winding), and where its combined winding number is odd for normalization.",
 ["inputs","schedules","histories"],"every set of subject and clip loops (nested, inverted, self-intersecting, overlapping, degenerate) whose coordinates are small enough for differences to be representable and for double to be exact to a unit, every operation, and every sequence of rounding outcomes",
 "The tests compare a few bitmaps at a fixed resolution; a wrong keep/discard decision for coincident or re-split lines only shows for particular arrangements and rounding outcomes.",
 [CLIP,BASE,SWEEP],[("winding ('line balance') computation per line and keep/discard/reverse decision","clip.hpp dual_line_balance / line_balance / calc_line_bal"),("reconnecting kept lines into loops","clip.hpp follow_balance, do_op")],
 ["the loops returned by clipper::execute and the free functions"])

prop("C03","Output loops are well formed and the hierarchy nests them correctly",
 "Every returned loop has at least two points, reports its size correctly and has no zero-length line. In hierarchical output every loop appears exactly once, and wherever no output lines coincide the nesting is geometric: outermost loops are oriented clockwise (with y pointing down), each child lies inside its parent with the opposite orientation, and no other loop lies between them. The hierarchical and the flat form of the same operation enclose the same region.",
 ["inputs","schedules","histories"],"every input, operation and rounding outcome, with flat and hierarchical output of the same run compared",
 "Nesting order is derived from rays through lines whose position depends on rounding, and from loops that touch; tests check two or three hand-made trees.",
 [CLIP],[("hierarchy from per-loop ray hits","clip.hpp unique_sorted_loop_points, replace_line_indices_with_loop_indices, arrange_loops"),("loop extraction","clip.hpp find_loops")],
 ["returned loops, their size(), inner_loops() and iteration"])

prop("C04","Every operation terminates within bounded work whatever the rounding coins do",
 "Every operation on every input finishes: after any finite run of adverse rounding outcomes followed by fair ones, the number of sweep steps stays within a fixed polynomial bound (proportional to lines plus intersections plus adverse outcomes, with a quadratic allowance), and the call returns instead of looping, aborting or failing an internal consistency check.",
 ["inputs","schedules"],"every input and every rounding sequence that is eventually fair, including constant, alternating and biased prefixes; each internal sweep step is counted",
 "The library's own comment says simple rounding can cascade 'until the lines are nowhere near where they started'; tests only run the default coin sequence with a wall-clock limit.",
 [CLIP,SWEEP,RB,DRAW],[("randomised rounding breaks cascades","clip.hpp detail::intersects"),("event rewinding and re-insertion","clip.hpp events_t::next")],
 ["return of execute()/offset()/draw(), number of sweep iterations (POLY_OPS_DEBUG_ITERATION), internal assertions"])

prop("C05","Allocation failure at any point is reported and leaks or corrupts nothing",
 "Whichever allocation fails, once, repeatedly or from some point on, while loops are added, an operation or an offset runs, or a result is consumed, the caller receives the standard out-of-memory exception and the process never terminates or touches invalid memory. Every block is returned to the memory resource it came from with its original size and alignment by the time the object is destroyed, and after the failure a reset makes the same object produce exactly what a new one would.",
 ["fault_sequences","crash_points","inputs","histories"],"every allocation index in every operation of every history, single, bursty, permanent and quota-driven failures, tracked and untracked clippers, flat and hierarchical output",
 "No test injects an allocation failure; each of the dozens of allocations per operation is a separate crash point and destructors run at those points.",
 [CLIP,OFF,FLAT,SWEEP],[("pmr containers with a caller-supplied memory resource","clip.hpp clipper members"),("input finalised in the sink's destructor","clip.hpp point_sink::~point_sink"),("reset()","clip.hpp clipper::reset")],
 ["exception type, memory-resource ledger, later results of the same object"])

prop("C06","Exceptions from caller code pass through unchanged and leave the object usable",
 "An exception thrown by the caller's own code (an input range or iterator, a point conversion, a point-tracker callback) at any point while loops are added or an operation runs reaches the caller as the same exception, never terminates the process, and leaks nothing. After a reset the same object and tracker produce exactly what new ones would, and even without a reset further calls stay memory-safe and produce lines that do not cross.",
 ["fault_sequences","crash_points","histories"],"every position at which an iterator dereference/increment or a tracker callback can throw, in every operation of a history, followed by reset-and-reuse, reuse without reset, or destruction",
 "Existing tests never throw from a range or a tracker; unwinding runs the finalising destructor and interrupts bookkeeping between two parallel arrays.",
 [CLIP,OFF,FLAT],[("point_sink finalisation in its destructor","clip.hpp point_sink"),("callbacks kept in step with the point array","clip.hpp point_sink, split_segment, merge_discarded_points")],
 ["exception identity, later results, tracker calls"])

prop("C07","A reused object, and every way of feeding it, gives what a fresh one gives",
 "For every history of adding loops, executing, resetting and failing on one object, each operation's output is identical to that of a new object given only the loops added since the last execution or reset, when rounding falls the same way. The way the same points are supplied (containers, ranges of ranges, single-pass input iterators, one point at a time, convenience functions, l-value or r-value execution) makes no difference, and duplicate consecutive points and loops with fewer than three distinct points are ignored without affecting other loops.",
 ["histories","inputs","configurations"],"every history of operations on one instance, every assignment of input routes to loops, every place duplicate points or degenerate loops can be inserted",
 "Tests use each object once or twice with clean data; leftovers from an earlier execution or from a neighbouring loop only matter for particular histories.",
 [CLIP,OFF],[("implicit reset on first add after execute","clip.hpp clipper::add_loop / reset"),("duplicate and short-loop filtering in the sink","clip.hpp point_sink")],
 ["sequence of loops returned by execute in the reused and in a fresh object"])

prop("C08","Objects used by different threads at the same time do not affect each other",
 "When several threads each use their own clipper, tracker or rasterizer at the same time, every thread's results, callbacks and exceptions are identical to those of running that thread's work alone, for every interleaving of their steps, also when an allocation failure or exception hits only some of them.",
 ["schedules","fault_sequences"],"every interleaving of two to four workloads at allocation, sweep-step, input-iteration and callback boundaries, with faults injected into a subset",
 "Tests are single-threaded; hidden shared state shows only for particular interleavings.",
 [CLIP,OFF,DRAW,SWEEP],[("all working state is per object, including the rounding generator","clip.hpp clipper members; polydraw.hpp rasterizer members")],
 ["per-thread results compared with solo runs"])

prop("C09","Results depend only on the input, never on memory contents or addresses",
 "The same sequence of calls with the same rounding outcomes gives bit-identical loops, hierarchy, callbacks and scan lines whatever garbage fresh memory contains, wherever allocations land, and however the memory resource recycles blocks; no decision depends on an uninitialised value.",
 ["configurations","histories","inputs"],"every initial content of heap and stack memory, every address layout and recycling policy of the memory resource",
 "Tests run with whatever the allocator happens to return (usually zero pages) and compare nothing across layouts.",
 [CLIP,OFF,FLAT,DRAW,SWEEP,RB],[("no address- or content-dependent ordering","clip.hpp comparators (sweep_cmp, event_cmp), sweep_set.hpp")],
 ["hash of the full history under different simulated heaps and builds with different stack fill"])

prop("C10","Point-tracker callbacks keep an external array in step with the library's points",
 "For every operation, the callbacks describe exactly one external array: an addition for every retained input point in order with its original index, one new point per split whose two neighbours already exist, and merges that never mention an index that does not exist or that was already discarded; after the last callback the index attached to each output point is that array's slot for it and was never discarded. Loops that are dropped produce no callbacks, and a reset is signalled exactly when a reused object starts over.",
 ["inputs","histories","schedules"],"every input, operation and rounding outcome, histories with reuse, degenerate loops and reset",
 "Tests never implement the callback interface; order and index discipline only break for particular discard patterns and histories.",
 [CLIP,OFF],[("callbacks issued beside each change of the point array","clip.hpp point_sink::point_sink, split_segment, merge_discarded_points")],
 ["sequence of i_point_tracker calls; proto_loop_iterator::index()"])

prop("C11","Tracked origins of output points are exactly what the merge history implies",
 "The set of original input points reported for each output point equals what a plain set-valued reference model gives when fed the same callbacks: sorted, without duplicates, complete and never containing an index outside the input. An untouched input vertex in the output reports its own original index, also for offsets, where every point generated around an input vertex or along an input line reports that vertex or line end, including inputs with repeated points.",
 ["inputs","histories","fault_sequences"],"every input and operation, every size of origin set, histories with reuse and allocation failures",
 "Only two or three fixed shapes are checked for origins; set growth across sizes and merge orders is not.",
 [OFF,FLAT,CLIP],[("compact sets per point with inline/heap storage","mini_flat_set.hpp"),("merge on discard","offset.hpp origin_point_tracker::point_merge")],
 ["point_and_origin::original_points of each output point"])

prop("C12","Offsetting moves outlines by the requested distance within stated tolerance",
 "For loops that bound a region (simple, disjoint or nested, correctly oriented) a positive offset covers every point nearer to the region than the magnitude less the arc approximation, and nothing farther than the magnitude; a negative offset keeps every point deeper inside than the magnitude plus the arc approximation and nothing shallower, and leaves nothing where nothing is that deep, also for shapes, holes and gaps smaller than the offset; an open path or a lone point grows into what lies within the magnitude of it. Boolean operations between offset sets combine those areas. All this up to accumulated rounding: no disc with the rounding tolerance as radius is on the wrong side. The arc approximation is m(1-cos(min(pi/2,step/m))) for magnitude m (pi/3 for a lone point). Repeated input points change nothing. It holds for closed and open paths, every magnitude including zero, and every arc step.",
 ["inputs","schedules"],"every simple polygon with holes or open path, every magnitude and arc step in range, every rounding outcome of the union that follows",
 "Tests offset one or two shapes at one magnitude and compare bitmaps.",
 [OFF,BASE,CLIP],[("displaced lines joined by arcs, then union","offset.hpp add_offset_point, _add_offset_closed, _add_offset_open, offset_lone_point")],
 ["loops returned by offset() and add_offset*+execute"])

prop("C13","Rasterizer scan lines are ordered, in bounds and carry the exact winding number",
 "For every set of loops and image size the rasterizer reports, row by row without going back, spans inside the image that do not overlap within a row except at end pixels; every pixel that no line passes through in its row (lines beyond the left or right edge count as passing through the edge column) is reported with exactly its winding number, or not at all when that is zero, and each fill rule draws exactly the spans whose winding satisfies it. This also holds when scanning is suspended after any span, abandoned, restarted or repeated on the same object, or when an input range, a callback or an allocation fails and the object is cleared and reused, and nothing is leaked.",
 ["inputs","histories","crash_points","fault_sequences"],"every set of loops (also partly outside the image), every image at least one pixel wide whose size the coordinate type can represent, fill rule, suspension/abandon point and fault point",
 "The rasterizer is itself the tests' oracle for the rest of the library, used on a few shapes; its resumable generator is never suspended, restarted or failed.",
 [DRAW,SWEEP,LI],[("sweep with intersection swap events","polydraw.hpp scan_line_sweep_state::operator(), swap_and_check"),("resumable scan state","polydraw.hpp scan_line_sweep_state")],
 ["scan_line_sweep_state calls, fill_row callbacks"])

prop("C14","Python objects survive threads, failing callbacks and memory exhaustion",
 "From Python, concurrent calls from several threads on separate objects give what sequential calls give, concurrent calls on one shared object behave as some sequential order of those calls (a call given several loops counting as one call per loop) without crashing or corrupting it, and an exception from an argument's iteration or conversion or from memory exhaustion at any point arrives as a Python exception with no leaked references. After such a failure the object can be reset and gives what a new one would.",
 ["schedules","fault_sequences","histories"],"every interleaving at the points where the interpreter lock is released or yielded, every failing iteration step and every failing Python or C++ allocation",
 "The Python tests are single-threaded and fault-free, while the binding releases the interpreter lock around nearly every call.",
 [PYX,"py/common.pxd"],[("interpreter lock released around C++ work","_polyops.pyx gil_unlocker / cond_gil_unlocker"),("one thread at a time per object","_polyops.pyx lock_without_gil"),("C++ exception translation","_polyops.pyx _clipper_add_loop, _clipper_execute_"),("results to numpy","_polyops.pyx poly_proxy_to_py, tracked_poly_proxy_to_py_common")],
 ["results, exceptions and reference counts of the Python API"])

prop("C15","Results outlive what they must and give back every byte",
 "A result obtained by value stays valid and unchanged after the object that produced it, the input and the rest of the working memory are gone, and after being moved; a borrowed result stays unchanged until the next call on its object. When everything is destroyed each memory resource has received back exactly the blocks it handed out.",
 ["histories","inputs"],"every order of destroying, moving, reading and re-reading results, producers and trackers, for every operation, result form and memory resource",
 "Tests read each result once, immediately, under the default allocator; lifetime mistakes only show under other orders of destruction and a ledgered, poisoned heap.",
 [CLIP,OFF],[("result ranges own moved containers","clip.hpp make_temp_polygon_range / make_temp_polygon_tree_range, range_facade"),("tracked points owned or referenced","clip.hpp tracked_points")],
 ["re-iteration of results after destruction of their producer; memory-resource ledger"])

prop("C16","Wide-integer arithmetic is exact",
 "Products, sums, differences, comparisons, shifts and quotients of the library's wide integers equal the mathematical results for all operands in range.",
 ["inputs"],"all operand values and widths","Tests sample operands.",[LI],[("compound_int arithmetic","large_ints.hpp")],["values of the operators"])

prop("C17","Winding direction of a loop is the sign of its area",
 "The reported winding direction of every loop is positive, zero or negative exactly as its signed area is.",
 ["inputs"],"all loops","Tests sample loops.",[BASE],[("winding_dir","base.hpp")],["return value of winding_dir"])

prop("C18","A result given back to the library is returned exactly as it is",
 "A result has nothing left to cut, so no coordinate may move when it is used as input again, however rounding coins fall and in whatever order and from whatever starting points its loops are added. Union and normalization of a result, its union or intersection with itself, its difference or symmetric difference with nothing, and its symmetric difference used as clip, enclose exactly the same area with no new point; its difference and symmetric difference with itself, and its intersection with nothing, are empty.",
 ["histories","schedules","inputs"],"every result of every operation (touching loops, coincident lines and slivers left by rounding included), every operation applied to it, every order and rotation of its loops and every rounding sequence of both steps",
 "Tests never use a result as input; identical and touching lines of subject and clip are the rarest input in tests and the normal one when results are combined.",
 [CLIP,SWEEP],[("lines that coincide or only touch","clip.hpp detail::intersects"),("keeping one of several coincident lines","clip.hpp clipper::self_intersection / calc_line_bal, merging of points")],
 ["the loops returned by the second operation, compared exactly as sets of directed boundary segments"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
