From 000d5ef0a087cb458bdd1d2aea7e5707c9bbe825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:52 +0000
Subject: [PATCH 01/15] fix: adding loops of one point, repeated points and
 failures while adding

clipper::point_sink compared the first point of a loop with the last point of
the loop added before it and dropped it when they were equal, read out of range
for a loop of a single point, kept a zero-length line when the closing point
was repeated, and could throw from its destructor. Points are now added when
they are received, except for a point equal to the first point of the loop
which is held back until another follows.
---
 include/poly_ops/clip.hpp | 89 ++++++++++++++++++++++++++-------------
 1 file changed, 59 insertions(+), 30 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 299a75d..b4f335b 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1841,8 +1841,6 @@ public:
 
         clipper &n;
         i_point_tracker<Index> *pt;
-        point_t<Coord> prev;
-        Index prev_orig_i;
         Index first_i;
 
         /* Calling pt's methods is delayed until we verify that there are more
@@ -1850,31 +1848,37 @@ public:
         Index first_orig_i;
         Index second_orig_i;
 
+        /* A point equal to the first point of the loop is held back until
+        another point follows it. If it's the last point, it's not added. */
+        Index held_orig_i;
+
         bool_set cat;
         bool started;
+        bool held;
 
         point_sink(clipper &n,bool_set cat,i_point_tracker<Index> *pt)
             : n{n},
             pt{pt},
             first_i{Index(n.lpoints.size())},
             cat{cat},
-            started{false} {}
+            started{false},
+            held{false} {}
         point_sink(const point_sink&) = delete;
         point_sink(point_sink &&b)
             : n{b.n},
             pt{b.pt},
-            prev{b.prev},
-            prev_orig_i{b.prev_orig_i},
             first_i{b.first_i},
             first_orig_i{b.first_orig_i},
             second_orig_i{b.second_orig_i},
+            held_orig_i{b.held_orig_i},
             cat{b.cat},
-            started{b.started}
+            started{b.started},
+            held{b.held}
         {
             b.started = false;
         }
 
-        void finalize_prev();
+        void add_point(const point_t<Coord> &p,Index orig_i);
 
     public:
         void operator()(const point_t<Coord> &p,Index orig_i);
@@ -2026,36 +2030,55 @@ public:
 };
 
 template<coordinate Coord,std::integral Index>
-void clipper<Coord,Index>::point_sink::finalize_prev() {
-    if(!n.lpoints.empty() && prev == n.lpoints.back().data) return;
+void clipper<Coord,Index>::point_sink::add_point(const point_t<Coord> &p,Index orig_i) {
+    n.lpoints.emplace_back(p,Index(n.lpoints.size()+1),cat);
 
     if(pt) {
-        switch(n.lpoints.size() - std::size_t(first_i)) {
-        case 0:
-            first_orig_i = prev_orig_i;
-            break;
-        case 1:
-            second_orig_i = prev_orig_i;
-            break;
-        case 2:
-            pt->point_added(first_orig_i);
-            pt->point_added(second_orig_i);
-            [[fallthrough]];
-        default:
-            pt->point_added(prev_orig_i);
+        try {
+            switch(n.lpoints.size() - std::size_t(first_i)) {
+            case 1:
+                first_orig_i = orig_i;
+                break;
+            case 2:
+                second_orig_i = orig_i;
+                break;
+            case 3:
+                pt->point_added(first_orig_i);
+                pt->point_added(second_orig_i);
+                [[fallthrough]];
+            default:
+                pt->point_added(orig_i);
+            }
+        } catch(...) {
+            n.lpoints.pop_back();
+            throw;
         }
     }
-
-    n.lpoints.emplace_back(prev,Index(n.lpoints.size()+1),cat);
 }
 
 template<coordinate Coord,std::integral Index>
 void clipper<Coord,Index>::point_sink::operator()(const point_t<Coord> &p,Index orig_i) {
-    if(started) finalize_prev();
-    prev = p;
-    prev_orig_i = orig_i;
     n._next_orig_i = orig_i + 1;
-    started = true;
+
+    if(!started) {
+        add_point(p,orig_i);
+        started = true;
+        return;
+    }
+
+    // duplicate consecutive points are ignored
+    const point_t<Coord> &first = n.lpoints[first_i].data;
+    if(p == (held ? first : n.lpoints.back().data)) return;
+
+    if(held) {
+        add_point(point_t<Coord>(first),held_orig_i);
+        held = false;
+    } else if(p == first) {
+        held = true;
+        held_orig_i = orig_i;
+        return;
+    }
+    add_point(p,orig_i);
 }
 template<coordinate Coord,std::integral Index>
 clipper<Coord,Index>::point_sink::~point_sink() {
@@ -2064,9 +2087,15 @@ clipper<Coord,Index>::point_sink::~point_sink() {
     end-point indices. The sweep sets expect line segments with unique indices.
     */
     if(started) [[likely]] {
-        if(prev != n.lpoints[first_i].data) [[likely]] finalize_prev();
-
         std::size_t points_added = n.lpoints.size() - std::size_t(first_i);
+
+        /* if adding a point failed right after a point equal to the first, the
+        loop must not be closed by a line of zero length */
+        if(points_added > 1 && n.lpoints.back().data == n.lpoints[first_i].data) [[unlikely]] {
+            n.lpoints.pop_back();
+            --points_added;
+        }
+
         if(points_added < 3) [[unlikely]] {
             while(points_added-- > 0) n.lpoints.pop_back();
         } else {
-- 
2.43.0


From 8b7fcac59896f82d81870525e5e1f7a443484f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:52 +0000
Subject: [PATCH 02/15] fix: hierarchy with coincident lines no longer loses
 loops

arrange_loops failed an assertion, or without assertions left the loop and
everything inside it out of the output, when no surrounding loop had exactly
one fewer surrounding loop.
---
 include/poly_ops/clip.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index b4f335b..a2d487b 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1412,17 +1412,20 @@ std::pmr::vector<temp_polygon<Index>*> arrange_loops(
         std::views::iota(Index(0),Index(loops.size()))));
 
     for(const auto& item : ordered_loops) {
-        if(item.hits.empty()) top.push_back(&loops[item.p]);
-        else {
-            for(Index outer_i : item.hits) {
-                if(ordered_loops[outer_i].hits.size() == (item.hits.size() - 1)) {
-                    loops[outer_i].children.push_back(&loops[item.p]);
-                    goto next;
-                }
+        /* The parent is the innermost of the surrounding loops. It normally has
+        exactly one fewer surrounding loop, but where lines of different loops
+        coincide, the loops counted as surrounding each other might not form a
+        sequence, and the nearest match is used. */
+        const Index *parent = nullptr;
+        for(const Index &outer_i : item.hits) {
+            if(ordered_loops[outer_i].hits.size() < item.hits.size()
+                && (!parent || ordered_loops[outer_i].hits.size() > ordered_loops[*parent].hits.size()))
+            {
+                parent = &outer_i;
             }
-            POLY_OPS_ASSERT(false);
-          next: ;
         }
+        if(parent) loops[*parent].children.push_back(&loops[item.p]);
+        else top.push_back(&loops[item.p]);
     }
 
     return top;
-- 
2.43.0


From 3b2ca539e8f0993cc5840fb148f34aa8d5b5e4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:35 +0000
Subject: [PATCH 03/15] fix: clipper::execute(op) && returns a range that owns
 its data

---
 include/poly_ops/clip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index a2d487b..35856ad 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2023,7 +2023,7 @@ public:
      * Perform a boolean operation and return the result.
      */
     template<bool TreeOut=false> auto execute(bool_op op) && {
-        return execute<TreeOut,null_tracker<Coord,Index>>(op,{});
+        return std::move(*this).template execute<TreeOut,null_tracker<Coord,Index>>(op,{});
     }
 
     Index &next_orig_i() noexcept { return _next_orig_i; }
-- 
2.43.0


From 6dbf77940fd27d03a574955f93b3dc48ea4bfc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:41 +0000
Subject: [PATCH 04/15] fix: trackers are told to merge each discarded point
 exactly once

---
 include/poly_ops/clip.hpp | 64 ++++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 11 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 35856ad..8bf2bb3 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1189,9 +1189,7 @@ template<typename Index,typename Coord> struct breaks_t {
 
 /* Follow the points connected to the point at "intr" until another intersection
 is reached or we wrapped around. Along the way, update the "state()" value to
-the value at "intr", and if "state()" at "intr" is not "line_state::keep" or
-"line_state::keep_rev", merge all the point values into "intr" via the point
-tracker.
+the value at "intr".
 
 If "state()" at "intr" is one of the "keep" values and the "state" of the next
 intersection is not, add the point before the intersection to "broken_ends. If
@@ -1200,8 +1198,7 @@ template<typename Index,typename Coord>
 void follow_balance(
     std::pmr::vector<loop_point<Index,Coord>> &points,
     Index intr,
-    breaks_t<Index,Coord> &breaks,
-    i_point_tracker<Index> *pt)
+    breaks_t<Index,Coord> &breaks)
 {
     POLY_OPS_ASSERT(points[intr].has_line_bal());
     POLY_OPS_ASSERT(!(points[intr].state() & line_state::anchor));
@@ -1211,9 +1208,7 @@ void follow_balance(
         Index real_next_next = points[next].next;
 
         points[next].state() = points[intr].state() | (points[next].state() & line_state::anchor);
-        if(!(points[intr].state() & line_state::keep)) {
-            if(pt) pt->point_merge(prev,next);
-        } else if(points[intr].state() & line_state::reverse) {
+        if((points[intr].state() & line_state::keep) && (points[intr].state() & line_state::reverse)) {
             /* the actual points should not be moved, to make point-tracking
             simpler, except for the temporary anchor points, which must have the
             same coordinates as the (new) previous point */
@@ -1229,7 +1224,6 @@ void follow_balance(
 
     switch(points[intr].state()) {
     case line_state::discard:
-        if(pt) pt->point_merge(prev,next);
         break;
     case line_state::keep:
         breaks.broken_starts[points[intr].data].push_back(intr);
@@ -1262,6 +1256,45 @@ void follow_balance(
     }
 }
 
+/* Tell the point tracker about every discarded point.
+
+"next" has the order of the points before any line was removed, reversed or
+reconnected (it doesn't have the anchor points). Every run of discarded points
+is merged, one by one, into the point that follows it. When the points of an
+entire loop were discarded, this stops before the first point is merged into
+again. The values of "next" are overwritten. */
+template<typename Index,typename Coord>
+void merge_discarded_points(
+    const std::pmr::vector<loop_point<Index,Coord>> &points,
+    std::pmr::vector<Index> &next,
+    i_point_tracker<Index> &pt)
+{
+    auto discarded = [&](Index i) { return !(points[i].state() & line_state::keep); };
+
+    for(Index i=0; i<static_cast<Index>(next.size()); ++i) {
+        if(discarded(i)) continue;
+        for(Index j=next[i]; discarded(j);) {
+            Index to = next[j];
+            next[j] = j; // mark as merged
+            pt.point_merge(j,to);
+            j = to;
+        }
+    }
+
+    // only entirely discarded loops are left
+    for(Index i=0; i<static_cast<Index>(next.size()); ++i) {
+        if(!discarded(i) || next[i] == i) continue;
+        Index j = i;
+        for(;;) {
+            Index to = next[j];
+            next[j] = j;
+            if(to == i) break;
+            pt.point_merge(j,to);
+            j = to;
+        }
+    }
+}
+
 template<typename Index> struct loop_location {
     Index start;
     Index size;
@@ -2374,6 +2407,13 @@ void clipper<Coord,Index>::do_op(bool_op op,i_point_tracker<Index> *pt,bool tree
     self_intersection(pt);
     calc_line_bal(op);
 
+    /* the order of the points, needed by merge_discarded_points */
+    std::pmr::vector<Index> orig_next(contig_mem);
+    if(pt) {
+        orig_next.reserve(lpoints.size());
+        for(const auto &lp : lpoints) orig_next.push_back(lp.next);
+    }
+
     if(tree_out) {
         for(auto &intr : samples) {
             for(Index &i : intr.hits) i = insert_anchor_point(i);
@@ -2382,11 +2422,11 @@ void clipper<Coord,Index>::do_op(bool_op op,i_point_tracker<Index> *pt,bool tree
             follow_balance<Index,Coord>(
                 lpoints,
                 std::exchange(intr.p,insert_anchor_point(intr.p)),
-                breaks,pt);
+                breaks);
         }
     } else {
         for(auto &intr : samples) {
-            follow_balance<Index,Coord>(lpoints,intr.p,breaks,pt);
+            follow_balance<Index,Coord>(lpoints,intr.p,breaks);
         }
     }
 
@@ -2416,6 +2456,8 @@ void clipper<Coord,Index>::do_op(bool_op op,i_point_tracker<Index> *pt,bool tree
         lpoints[intr].next = vp.next;
     }
 
+    if(pt) merge_discarded_points(lpoints,orig_next,*pt);
+
     /* match all the points in broken_starts and broken_ends to make new loops
     with the remaining lines */
     for(Index intr : breaks.broken_ends) {
-- 
2.43.0


From 54c7682f79fa5367c9db52474a5a7b8c4435c7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:44 +0000
Subject: [PATCH 05/15] fix: mini_flat_set allocated memory that wasn't aligned
 for its header

---
 include/poly_ops/mini_flat_set.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/mini_flat_set.hpp b/include/poly_ops/mini_flat_set.hpp
index 849928c..dc97541 100644
--- a/include/poly_ops/mini_flat_set.hpp
+++ b/include/poly_ops/mini_flat_set.hpp
@@ -31,17 +31,24 @@ class mini_flat_set {
         data_t *data;
     } u;
 
+    /* memory is allocated in units of data_t, since T may have a weaker alignment
+    requirement */
+    using data_alloc = typename alloc_traits::template rebind_alloc<data_t>;
+    using data_alloc_traits = std::allocator_traits<data_alloc>;
+
     static std::size_t alloc_size(std::size_t n) {
-        return n + (offsetof(data_t,items) + sizeof(T) - 1) / sizeof(T);
+        return (offsetof(data_t,items) + n * sizeof(T) + sizeof(data_t) - 1) / sizeof(data_t);
     }
 
     static data_t *alloc_data(Allocator &alloc,std::size_t n) {
-        data_t *r = reinterpret_cast<data_t*>(alloc_traits::allocate(alloc,alloc_size(n)));
+        data_alloc d_alloc(alloc);
+        data_t *r = data_alloc_traits::allocate(d_alloc,alloc_size(n));
         r->capacity = n;
         return r;
     }
     static void dealloc_data(Allocator &alloc,data_t *d) {
-        alloc_traits::deallocate(alloc,reinterpret_cast<T*>(d),alloc_size(d->capacity));
+        data_alloc d_alloc(alloc);
+        data_alloc_traits::deallocate(d_alloc,d,alloc_size(d->capacity));
     }
 
     template<std::input_iterator InputIt>
@@ -156,7 +163,7 @@ public:
     }
 
     std::size_t size() const noexcept { return _size; }
-    bool empty() const noexcept { return _size != 0; }
+    bool empty() const noexcept { return _size == 0; }
     T *begin() noexcept { return _size > 1 ? u.data->items : &u.item; }
     const T *begin() const noexcept { return _size > 1 ? u.data->items : &u.item; }
     T *end() noexcept { return begin() + _size; }
@@ -178,6 +185,7 @@ public:
 
             u.data->items[i1] = tmp;
             u.data->items[i2] = value;
+            _size = 2;
             return {u.data->items + i2,true};
         } else {
             T* pos = std::upper_bound(u.data->items,u.data->items+_size,value);
-- 
2.43.0


From c8c961eb1473c1603b1618669b27f9f958a744de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:32 +0000
Subject: [PATCH 06/15] fix: offset circles of lone points and origin indices
 of repeated points and open paths

---
 include/poly_ops/offset.hpp | 136 ++++++++++++++++++------------------
 1 file changed, 69 insertions(+), 67 deletions(-)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index e62d629..9abc59b 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -134,16 +134,16 @@ void add_offset_point(
 }
 
 template<typename Index,typename Coord>
-Index offset_lone_point(
+void offset_lone_point(
     typename clipper<Coord,Index>::point_sink &sink,
     real_coord_t<Coord> magnitude,
     Coord arc_step_size,
-    Index next_orig_i,
+    Index orig_i,
     point_t<Coord> p)
 {
     using real_t = real_coord_t<Coord>;
 
-    if(magnitude <= 0) return next_orig_i;
+    if(magnitude <= 0) return;
 
     // we need to approximate a circle
 
@@ -153,17 +153,15 @@ Index offset_lone_point(
     // use at least 3 points to make a circle
     long lsteps = std::max(static_cast<long>(steps),3L);
 
-    real_t s = coord_ops<Coord>::sin(angle / static_cast<real_t>(steps));
-    real_t c = coord_ops<Coord>::cos(angle / static_cast<real_t>(steps));
+    real_t s = coord_ops<Coord>::sin(angle / static_cast<real_t>(lsteps));
+    real_t c = coord_ops<Coord>::cos(angle / static_cast<real_t>(lsteps));
 
     point_t<real_t> offset{magnitude,0};
 
-    for(long i=1; i<lsteps; ++i) {
+    for(long i=0; i<lsteps; ++i) {
+        sink(p + vround<Coord>(offset),orig_i);
         offset = {c*offset[0] - s*offset[1],s*offset[0] + c*offset[1]};
-        sink(p + vround<Coord>(offset),next_orig_i);
     }
-
-    return next_orig_i + 1;
 }
 
 /* add a signed int to a possibly unsigned integer */
@@ -171,10 +169,16 @@ template<typename T> auto signed_add(T a,int b) {
     return T(std::make_signed_t<T>(a) + b);
 }
 
-template<typename Coord,typename Index> struct offset_tail_end {
+/* a point and its index in the original input */
+template<typename Coord,typename Index> struct offset_input_point {
+    point_t<Coord> p;
     Index orig_i;
-    point_t<Coord> prev1;
-    point_t<Coord> prev2;
+};
+
+template<typename Coord,typename Index> struct offset_tail_end {
+    Index end_orig_i;
+    offset_input_point<Coord,Index> prev1;
+    offset_input_point<Coord,Index> prev2;
 };
 
 template<typename Coord,typename Index,typename Input>
@@ -183,25 +187,23 @@ offset_tail_end<Coord,Index> _add_offset_tail_open(
     Input &&input,
     real_coord_t<Coord> magnitude,
     Coord arc_step_size,
-    Index first_orig_i,
+    Index next_orig_i,
     int i_step,
-    point_t<Coord> prev2,
-    point_t<Coord> prev1)
+    offset_input_point<Coord,Index> prev2,
+    offset_input_point<Coord,Index> prev1)
 {
-    Index next_orig_i = first_orig_i;
-
     for(point_t<Coord> p : input) {
-        if(p != prev1) {
-            add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,next_orig_i,signed_add(next_orig_i,i_step),prev2,prev1,p);
+        if(p != prev1.p) {
+            add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,prev2.orig_i,prev1.orig_i,prev2.p,prev1.p,p);
             prev2 = prev1;
-            prev1 = p;
+            prev1 = {p,next_orig_i};
         }
         next_orig_i = signed_add(next_orig_i,i_step);
     }
 
-    add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,next_orig_i,signed_add(next_orig_i,i_step),prev2,prev1,prev2);
+    add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,prev2.orig_i,prev1.orig_i,prev2.p,prev1.p,prev2.p);
 
-    return {signed_add(next_orig_i,i_step),prev1,prev2};
+    return {next_orig_i,prev1,prev2};
 }
 
 template<typename Coord,typename Index,typename Input>
@@ -224,43 +226,47 @@ void _add_offset_open(
         auto end = std::ranges::end(input);
         if(itr == end) return;
 
-        point_t<Coord> prev2(*itr);
+        point_t<Coord> first(*itr);
         ++itr;
 
-        point_t<Coord> prev1;
-
         auto sink = n.add_loop(set,pt);
-        
+        const Index first_orig_i = sink.next_orig_i();
+        end_orig_i = first_orig_i + 1;
+
         for(;;) {
             if(itr == end) {
-                end_orig_i = offset_lone_point(sink,magnitude,arc_step_size,sink.next_orig_i(),prev2);
+                offset_lone_point(sink,magnitude,arc_step_size,first_orig_i,first);
                 break;
             }
 
-            prev1 = *itr;
+            point_t<Coord> second(*itr);
             ++itr;
+            Index second_orig_i = end_orig_i++;
 
-            if(prev1 != prev2) {
-                auto [orig_i,prev1b,prev2b] = _add_offset_tail_open<Coord,Index>(
+            if(second != first) {
+                auto tail = _add_offset_tail_open<Coord,Index>(
                     sink,
                     std::ranges::subrange{itr,std::ranges::end(input)},
                     magnitude,
                     arc_step_size,
-                    sink.next_orig_i(),
+                    end_orig_i,
                     1,
-                    prev2,
-                    prev1);
-                end_orig_i = orig_i;
+                    {first,first_orig_i},
+                    {second,second_orig_i});
+                end_orig_i = tail.end_orig_i;
 
+                // go back, starting at the point before "tail.prev2"
                 _add_offset_tail_open<Coord,Index>(
                     sink,
-                    std::ranges::subrange{std::next(std::ranges::rbegin(input),2),std::ranges::rend(input)},
+                    std::ranges::subrange{
+                        std::next(std::ranges::rbegin(input),static_cast<std::ptrdiff_t>(end_orig_i - tail.prev2.orig_i)),
+                        std::ranges::rend(input)},
                     magnitude,
                     arc_step_size,
-                    end_orig_i,
+                    signed_add(tail.prev2.orig_i,-1),
                     -1,
-                    prev1b,
-                    prev2b);
+                    tail.prev1,
+                    tail.prev2);
                 break;
             }
         }
@@ -291,54 +297,50 @@ void _add_offset_closed(
         auto end = std::ranges::end(input);
         if(itr == end) return;
 
-        point_t<Coord> prev2(*itr);
-        point_t<Coord> first = prev2;
+        point_t<Coord> first(*itr);
         ++itr;
 
-        point_t<Coord> prev1;
-        point_t<Coord> second;
-
         auto sink = n.add_loop(set,pt);
-        
+        const Index first_orig_i = sink.next_orig_i();
+        end_orig_i = first_orig_i + 1;
+
         for(;;) {
             if(itr == end) {
-                end_orig_i = offset_lone_point(sink,magnitude,arc_step_size,sink.next_orig_i(),prev2);
+                offset_lone_point(sink,magnitude,arc_step_size,first_orig_i,first);
                 break;
             }
 
-            prev1 = second = *itr;
+            point_t<Coord> second(*itr);
             ++itr;
+            Index second_orig_i = end_orig_i++;
+
+            if(second != first) {
+                offset_input_point<Coord,Index> prev2{first,first_orig_i};
+                offset_input_point<Coord,Index> prev1{second,second_orig_i};
 
-            if(prev1 != prev2) {
-                Index first_orig_i = sink.next_orig_i();
-                end_orig_i = first_orig_i;
                 for(point_t<Coord> p : std::ranges::subrange{itr,end}) {
-                    if(p != prev1) {
-                        add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,end_orig_i,end_orig_i+1,prev2,prev1,p);
+                    if(p != prev1.p) {
+                        add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,prev2.orig_i,prev1.orig_i,prev2.p,prev1.p,p);
                         prev2 = prev1;
-                        prev1 = p;
+                        prev1 = {p,end_orig_i};
                     }
                     ++end_orig_i;
                 }
 
-                if(prev2 != prev1) {
-                    add_offset_point<Index,Coord>(
-                        sink,
-                        magnitude,
-                        arc_step_size,
-                        end_orig_i,
-                        end_orig_i+1,
-                        prev2,
-                        prev1,
-                        prev1 == first ? second : first);
-                }
-                ++end_orig_i;
+                add_offset_point<Index,Coord>(
+                    sink,
+                    magnitude,
+                    arc_step_size,
+                    prev2.orig_i,
+                    prev1.orig_i,
+                    prev2.p,
+                    prev1.p,
+                    prev1.p == first ? second : first);
 
                 /* if "prev1" is equal to "first", we are already done */
-                if(prev1 != first) {
-                    add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,end_orig_i,first_orig_i,prev1,first,second);
+                if(prev1.p != first) {
+                    add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,prev1.orig_i,first_orig_i,prev1.p,first,second);
                 }
-                ++end_orig_i;
                 break;
             }
         }
-- 
2.43.0


From 45a52eb3fe024be6c3dfc6c311b9f0a20bfde88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:36 +0000
Subject: [PATCH 07/15] fix: rasterizer point_sink never allocates in its
 destructor

A failed allocation terminated the process from the destructor, or made it
read the last element of an empty array.
---
 include/poly_ops/polydraw.hpp | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index a1b5409..8087869 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -458,13 +458,12 @@ public:
         friend class rasterizer;
 
         rasterizer &n;
-        poly_ops::point_t<Coord> prev;
         std::size_t first_i;
         bool started;
 
-        point_sink(rasterizer &n) : n(n), started(false) {}
+        point_sink(rasterizer &n) : n(n), first_i{n.lpoints.size()}, started(false) {}
         point_sink(const point_sink&) = delete;
-        point_sink(point_sink &&b) : n(b.n), prev(b.prev), first_i{b.first_i}, started(b.started) {
+        point_sink(point_sink &&b) : n(b.n), first_i{b.first_i}, started(b.started) {
             b.started = false;
         }
 
@@ -505,29 +504,19 @@ public:
 template<typename Coord>
 void rasterizer<Coord>::point_sink::operator()(const poly_ops::point_t<Coord> &p) {
     if(started) [[likely]] {
-        if(prev == n.lpoints.back().data) goto skip;
+        if(p == n.lpoints.back().data) return;
     } else {
-        prev = p;
         first_i = n.lpoints.size();
-        started = true;
     }
 
-    /* Normally, points aren't added until this is called with the next point or
-    the destructor is called, but duplicate points aren't added anyway and
-    adding it on the first call means the "prev != n.lpoints.back().data" checks
-    above and in the destructor are always safe. */
-    n.lpoints.emplace_back(prev,n.lpoints.size()+1);
-
-skip:
-    prev = p;
+    n.lpoints.emplace_back(p,n.lpoints.size()+1);
+    started = true;
 }
 
 template<typename Coord>
 rasterizer<Coord>::point_sink::~point_sink() {
     if(started) [[likely]] {
-        if(prev != n.lpoints.back().data && prev != n.lpoints[first_i].data) [[likely]] {
-            n.lpoints.emplace_back(prev,0);
-        }
+        if(n.lpoints.back().data == n.lpoints[first_i].data) n.lpoints.pop_back();
 
         std::size_t new_points = n.lpoints.size() - static_cast<std::size_t>(first_i);
         if(new_points < 3) [[unlikely]] {
-- 
2.43.0


From 31c0832ae098056c96482b4930e4914a2f6a6b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:48 +0000
Subject: [PATCH 08/15] fix: Euclidean division of large integers with a
 remainder of zero

When the operands had different signs and divided evenly, the quotient was one
too small and the remainder equal to the divisor.
---
 include/poly_ops/large_ints.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index ac8cf60..febffd5 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -1181,7 +1181,7 @@ auto unmul(const T &a,const U &b,modulo_t::type<Mod> = {}) noexcept {
 #  endif
         if constexpr(Signed && Mod == modulo_t::euclid_v) {
             r.rem = abs(r.rem);
-            if(compi_hi<3>(a) ^ compi_hi<2>(b)) {
+            if((compi_hi<3>(a) ^ compi_hi<2>(b)) && r.rem != 0) {
                 r.quot -= 1;
                 r.rem = abs(b) - r.rem;
             }
@@ -1311,7 +1311,7 @@ auto divmod(const T &a,const U &b,modulo_t::type<Mod>) noexcept {
 
         if constexpr(signed_ && Mod == modulo_t::euclid_v) {
             r.rem = abs(r.rem);
-            if((sign(a_tmp) ^ sign(b_tmp))) {
+            if((sign(a_tmp) ^ sign(b_tmp)) && r.rem != 0) {
                 r.rem = abs(b_tmp) - r.rem;
                 r.quot -= 1;
             }
@@ -1342,8 +1342,11 @@ auto divmod(const T &a,const U &b,modulo_t::type<Mod>) noexcept {
             if(sa) r.rem = -r.rem;
         } else if constexpr(Mod == modulo_t::euclid_v) {
             if(sa ^ sb) {
-                r.rem = abs(b) - r.rem;
-                r.quot = -1 - r.quot;
+                if(r.rem == 0) r.quot = -r.quot;
+                else {
+                    r.rem = abs(b) - r.rem;
+                    r.quot = -1 - r.quot;
+                }
             }
         }
     } else {
-- 
2.43.0


From 5b077352ed4caba6ef1ad76b8e0197d0f5198f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:10 +0000
Subject: [PATCH 09/15] fix: rasterizer handles crossings at whole rows and at
 common points

Crossings at exactly the y coordinate of a line's end were left for the next
row, lines that had already been swapped were swapped again (without end when
three lines met at a point) and events were used through references that adding
events invalidated.
---
 include/poly_ops/polydraw.hpp | 93 ++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 45 deletions(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index 8087869..c040e1f 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -122,6 +122,9 @@ template<typename Coord> using cached_segment = poly_ops::detail::cached_segment
 template<typename T> constexpr size_t compound_int_size
     = (sizeof(T) + sizeof(large_ints::full_uint) - 1) / sizeof(large_ints::full_uint);
 
+/* Returns true if s1 and s2 cross. s1 is expected to come before s2 in the sweep
+(to the right of s2) and it is only considered a crossing if s1 is on the other
+side of s2 afterward. */
 template<typename Coord>
 bool intersects(
     const cached_segment<Coord> &s1,
@@ -142,14 +145,13 @@ bool intersects(
     if(s1.a == s2.a || s1.a == s2.b || s1.b == s2.a || s1.b == s2.b) return false;
 
     auto d = mul<Coord,Coord>(x1-x2,y3-y4) - mul<Coord,Coord>(y1-y2,x3-x4);
-    if(d == 0) return false;
+    /* if d is positive, the lines diverge or have already been swapped */
+    if(d >= 0) return false;
 
     auto t_i = mul<Coord,Coord>(x1-x3,y3-y4) - mul<Coord,Coord>(y1-y3,x3-x4);
     auto u_i = mul<Coord,Coord>(x1-x3,y1-y2) - mul<Coord,Coord>(y1-y3,x1-x2);
 
-    if(d > 0) {
-        if(t_i <= 0 || t_i >= d || u_i <= 0 || u_i >= d) return false;
-    } else if(t_i >= 0 || t_i <= d || u_i >= 0 || u_i <= d) return false;
+    if(t_i >= 0 || t_i <= d || u_i >= 0 || u_i <= d) return false;
 
     auto qr = unmul<compound_int_size<Coord>>(mul(t_i,y2-y1) + mul(d,y1),d,modulo_t::euclid);
     intr_y.whole = static_cast<Coord>(qr.quot);
@@ -218,7 +220,10 @@ bool consistent_order(const sweep_t<Coord> &sweep) {
     return true;
 }
 
-enum class event_type_t {backward,forward,swap};
+/* For events at the same position, lines that end there must be removed before
+other lines can swap there, and lines that cross there must be swapped before
+any line can be inserted there */
+enum class event_type_t {backward,swap,forward};
 struct swap_type {};
 template<typename Coord> struct event {
     event_type_t type;
@@ -624,55 +629,53 @@ public:
 
         for(; !rast.events.at_end() && std::cmp_less(y,height); ++y) {
             sweep.key_comp().current_y = y;
-            for(; !rast.events.at_end()
-                    && less_than_or_equal(rast.lpoints,rast.events.current(),y)
-                    && rast.events.current().type == event_type_t::swap; rast.events.next(rast.lpoints))
-            {
-                auto &e = rast.events.current();
+            for(; !rast.events.at_end() && less_than_or_equal(rast.lpoints,rast.events.current(),y); rast.events.next(rast.lpoints)) {
+                /* this is a copy because new events are added below */
+                const event<Coord> e = rast.events.current();
 
-                POLY_OPS_DRAW_DEBUG_LOG(
-                    "SWAP {} and {} at {}",
-                    rast.sweep_nodes[e.ab.a].value,
-                    rast.sweep_nodes[e.ab.b].value,
-                    e.intr_y);
-
-                rast.swap_and_check(sweep,e.ab.a,e.ab.b,e.intr_y);
+                switch(e.type) {
+                case event_type_t::backward:
+                    {
+                        POLY_OPS_DRAW_DEBUG_LOG(
+                            "BACKWARD {} at {}",
+                            e.ab,
+                            e.ab.a_y(rast.lpoints));
 
-                POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
-            }
-            for(; !rast.events.at_end() && less_than_or_equal(rast.lpoints,rast.events.current(),y) && rast.events.current().type == event_type_t::backward; rast.events.next(rast.lpoints)) {
-                auto &e = rast.events.current();
+                        auto itr = sweep.erase(e.sweep_node);
 
-                POLY_OPS_DRAW_DEBUG_LOG(
-                    "BACKWARD {} at {}",
-                    e.ab,
-                    e.ab.a_y(rast.lpoints));
+                        if(itr != sweep.end() && itr != sweep.begin()) {
+                            rast.check_intersection(std::prev(itr).index(),itr.index(),e.ab.a_y(rast.lpoints));
+                        }
+                    }
+                    break;
+                case event_type_t::swap:
+                    POLY_OPS_DRAW_DEBUG_LOG(
+                        "SWAP {} and {} at {}",
+                        rast.sweep_nodes[e.ab.a].value,
+                        rast.sweep_nodes[e.ab.b].value,
+                        e.intr_y);
+
+                    rast.swap_and_check(sweep,e.ab.a,e.ab.b,e.intr_y);
+                    break;
+                case event_type_t::forward:
+                    {
+                        POLY_OPS_DRAW_DEBUG_LOG(
+                            "FORWARD {} at {}",
+                            e.ab,
+                            e.ab.a_y(rast.lpoints));
 
-                auto itr = sweep.erase(e.sweep_node);
+                        auto [itr,inserted] = sweep.insert(e.sweep_node);
+                        POLY_OPS_ASSERT(inserted);
 
-                if(itr != sweep.end() && itr != sweep.begin()) {
-                    rast.check_intersection(std::prev(itr).index(),itr.index(),e.ab.a_y(rast.lpoints));
+                        if(itr != sweep.begin()) rast.check_intersection(std::prev(itr).index(),e.sweep_node,e.ab.a_y(rast.lpoints));
+                        ++itr;
+                        if(itr != sweep.end()) rast.check_intersection(e.sweep_node,itr.index(),e.ab.a_y(rast.lpoints));
+                    }
+                    break;
                 }
 
                 POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
             }
-            for(; !rast.events.at_end() && less_than_or_equal(rast.lpoints,rast.events.current(),y) && rast.events.current().type == event_type_t::forward; rast.events.next(rast.lpoints)) {
-                auto &e = rast.events.current();
-
-                POLY_OPS_DRAW_DEBUG_LOG(
-                    "FORWARD {} at {}",
-                    e.ab,
-                    e.ab.a_y(rast.lpoints));
-
-                auto [itr,inserted] = sweep.insert(e.sweep_node);
-                POLY_OPS_ASSERT(inserted);
-
-                if(itr != sweep.begin()) rast.check_intersection(std::prev(itr).index(),e.sweep_node,e.ab.a_y(rast.lpoints));
-                ++itr;
-                if(itr != sweep.end()) rast.check_intersection(e.sweep_node,itr.index(),e.ab.a_y(rast.lpoints));
-
-                POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
-            }
 
             POLY_OPS_ASSERT(rast.events.at_end() || !less_than_or_equal(rast.lpoints,rast.events.current(),y));
             POLY_OPS_ASSERT(consistent_order(sweep));
-- 
2.43.0


From 3eeac89debf67e244f30777324d07970aa6176a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:53 +0000
Subject: [PATCH 10/15] fix: offset results when parts of a shape are smaller
 than the offset or lines are collinear

Where the offset lines of a non-convex corner are joined, go through the
original point. Without it, shapes, holes and gaps smaller than the offset
left pieces in the output that are nowhere near the requested distance.
Don't join collinear lines at all, and treat a line that goes straight back
as an end, also when its end isn't exactly the previous point.
---
 include/poly_ops/offset.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index 9abc59b..e0b4b5d 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -89,8 +89,9 @@ template<typename Index> using original_sets_t = mini_set_proxy_vector<Index,std
 template<typename Index> using original_set_replacements_t = indexed_mini_set_proxy_vector<Index,std::pmr::polymorphic_allocator<Index>>;
 template<typename Index> using original_set_t = mini_flat_set<Index,std::pmr::polymorphic_allocator<Index>>;
 
-/* When p1 == p3, the angle p1-p2-p3 is assumed to be concave, so that the
-offset goes around the end-points of an open line */
+/* When the line from p2 to p3 goes straight back towards p1, the angle p1-p2-p3
+is assumed to be concave, so that the offset goes around the end-points of an
+open line */
 template<typename Index,typename Coord>
 void add_offset_point(
     typename clipper<Coord,Index>::point_sink &sink,
@@ -113,8 +114,11 @@ void add_offset_point(
 
     sink(p2 + vround<Coord>(offset),orig_i2);
 
-    bool concave = p1 == p3 || triangle_winding(p1,p2,p3) > 0;
+    auto winding = triangle_winding(p1,p2,p3);
+    bool straight = winding == 0 && int_dot(p1-p2,p3-p2) < 0;
+    bool concave = winding > 0 || (winding == 0 && !straight);
     if(magnitude < real_t(0)) concave = !concave;
+    if(straight) return;
     if(concave) {
         // we need to approximate an arc
 
@@ -130,6 +134,12 @@ void add_offset_point(
                 sink(p2 + vround<Coord>(offset),orig_i2);
             }
         }
+    } else {
+        /* Without going through the original point, the region between the two
+        lines would be counted with the wrong sign, and could become part of the
+        output when it's not covered by anything else (when a shape or a hole is
+        smaller than the offset). */
+        sink(p2,orig_i2);
     }
 }
 
-- 
2.43.0


From 0c4a317e6a52d251d2c14df96afc91596b388e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:57 +0000
Subject: [PATCH 11/15] fix: tclipper::add_loops_subject and add_loops_clip and
 iterators' post-increment compile

---
 include/poly_ops/clip.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 8bf2bb3..59a94ab 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1647,7 +1647,7 @@ public:
     }
 
     proto_loop_iterator operator++(int) noexcept {
-        return {lpoints,std::exchange(i,lpoints[i].next),dist_from_end--};
+        return {lpoints,std::exchange(i,lpoints[i].next),dist_from_end--,tracker};
     }
 
     value_type operator*() const noexcept(std::is_nothrow_copy_constructible_v<Coord>) {
@@ -2598,7 +2598,7 @@ public:
      */
     template<typename R> void add_loops_subject(R &&loops) {
         static_assert(point_range_or_range_range<R,Coord>);
-        add_loops(std::forward<R>(loops),bool_set::subject,tracker.callbacks());
+        add_loops(std::forward<R>(loops),bool_set::subject);
     }
 
     /**
@@ -2606,7 +2606,7 @@ public:
      */
     template<typename R> void add_loops_clip(R &&loops) {
         static_assert(point_range_or_range_range<R,Coord>);
-        add_loops(std::forward<R>(loops),bool_set::clip,tracker.callbacks());
+        add_loops(std::forward<R>(loops),bool_set::clip);
     }
 
     /**
-- 
2.43.0


From d395d670d12a06fbf1ab6bb3f46826d388aa1a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:06 +0000
Subject: [PATCH 12/15] fix: make tracked tree output from Python a
 TrackedRecursiveLoop

make_tracked_recur_loop passed three values to the two-field RecursiveLoop, so
every call with tree_out and track_points that had a result raised TypeError.
---
 py/_polyops.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/_polyops.pyx b/py/_polyops.pyx
index 6f2f13a..01680f9 100644
--- a/py/_polyops.pyx
+++ b/py/_polyops.pyx
@@ -440,7 +440,7 @@ cdef class PointMap:
 
 TrackedLoop = collections.namedtuple('TrackedLoop','loop originals')
 RecursiveLoop = collections.namedtuple('RecursiveLoop','loop children')
-TrackedRecursiveLoop = collections.namedtuple('RecursiveLoop','loop children originals')
+TrackedRecursiveLoop = collections.namedtuple('TrackedRecursiveLoop','loop children originals')
 
 cdef public object make_tracked_loop(loop,offsets,indices):
     return TrackedLoop(loop,PointMap.__new__(PointMap,offsets,indices))
@@ -449,7 +449,7 @@ cdef public object make_recur_loop(loop,children):
     return RecursiveLoop(loop,children)
 
 cdef public object make_tracked_recur_loop(loop,children,offsets,indices):
-    return RecursiveLoop(loop,children,PointMap.__new__(PointMap,offsets,indices))
+    return TrackedRecursiveLoop(loop,children,PointMap.__new__(PointMap,offsets,indices))
 
 cdef load_loop(clipper &c,loop,_bool_set bset,common_dtype,np.NPY_CASTING casting,i_point_tracker *pt):
     cdef np.ndarray ar
-- 
2.43.0


From 3c6b07e95903dede132e53a3b35d82fd0a9783b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:30 +0000
Subject: [PATCH 13/15] fix: report memory exhaustion when a clipper is created
 from Python

The constructors of the clippers allocate memory, but were declared as not
throwing, and as local variables of Cython functions their exceptions could not
be caught: std::bad_alloc ended the process.
---
 py/_polyops.pyx | 74 +++++++++++++++++++++++++++++--------------------
 1 file changed, 44 insertions(+), 30 deletions(-)

diff --git a/py/_polyops.pyx b/py/_polyops.pyx
index 01680f9..2ec9a71 100644
--- a/py/_polyops.pyx
+++ b/py/_polyops.pyx
@@ -373,6 +373,7 @@ cdef extern from *:
     
     cppclass point_tracker:
         i_point_tracker *callbacks()
+        clipper() except +
 
     cppclass ot_clipper:
         point_tracker tracker
@@ -380,9 +381,11 @@ cdef extern from *:
         void reset()
 
     object _clipper_add_loop(clipper&,np.ndarray,_bool_set,np.NPY_CASTING,i_point_tracker*)
+        point_tracker() except +
     object _clipper_add_offset(clipper&,np.ndarray,_bool_set,double,int,bint,np.NPY_CASTING,i_point_tracker*)
     object _tracked_clipper_execute_(bint tree,clipper&,_bool_op,np.dtype,point_tracker&)
     object _clipper_execute_(bint tree,clipper&,_bool_op,np.dtype)
+        ot_clipper() except +
     object _winding_dir(np.ndarray,np.NPY_CASTING)
 
     object obj_to_dtype_opt(object)
@@ -503,22 +506,27 @@ cdef check_dtype(obj):
 
 cdef unary_op_(bint tree,loops,_bool_op op,casting_obj,dtype_obj,bint track_points):
     cdef np.NPY_CASTING casting
-    cdef clipper c
-    cdef point_tracker tracker
+    cdef ot_clipper *c
 
     common._casting_converter(casting_obj,&casting)
     dtype_obj = check_dtype(dtype_obj)
 
-    if track_points:
-        calc_dtype = load_loops(c,loops,_bool_set.BOOL_SET_SUBJECT,None,casting,tracker.callbacks())
-        if calc_dtype is None: return ()
+    # this is not a local variable because Cython cannot catch exceptions thrown
+    # by the constructors of local variables
+    c = new ot_clipper()
+    try:
+        if track_points:
+            calc_dtype = load_loops(c.base,loops,_bool_set.BOOL_SET_SUBJECT,None,casting,c.tracker.callbacks())
+            if calc_dtype is None: return ()
 
-        return _tracked_clipper_execute_(tree,c,op,decide_dtype(<np.dtype>calc_dtype,dtype_obj),tracker)
-    
-    calc_dtype = load_loops(c,loops,_bool_set.BOOL_SET_SUBJECT,None,casting,NULL)
-    if calc_dtype is None: return ()
+            return _tracked_clipper_execute_(tree,c.base,op,decide_dtype(<np.dtype>calc_dtype,dtype_obj),c.tracker)
+
+        calc_dtype = load_loops(c.base,loops,_bool_set.BOOL_SET_SUBJECT,None,casting,NULL)
+        if calc_dtype is None: return ()
 
-    return _clipper_execute_(tree,c,op,decide_dtype(<np.dtype>calc_dtype,dtype_obj))
+        return _clipper_execute_(tree,c.base,op,decide_dtype(<np.dtype>calc_dtype,dtype_obj))
+    finally:
+        del c
 
 # using pure-Python enums results in a lot less code generated
 class BoolOp(enum.IntEnum):
@@ -557,43 +565,49 @@ def normalize(loops,*,casting='same_kind',dtype=None,bint tree_out=False,track_p
 
 def offset(loops,double magnitude,int arc_step_size,bint closed=True,*,casting='same_kind',dtype=None,bint tree_out=False,track_points=False):
     cdef np.NPY_CASTING casting_raw
-    cdef clipper c
-    cdef point_tracker tracker
+    cdef ot_clipper *c
 
     common._casting_converter(casting,&casting_raw)
     dtype = check_dtype(dtype)
 
-    if track_points:
-        calc_dtype = load_offsets(c,loops,_bool_set.BOOL_SET_SUBJECT,magnitude,arc_step_size,closed,None,casting_raw,tracker.callbacks())
-        if calc_dtype is None: return ()
+    c = new ot_clipper()
+    try:
+        if track_points:
+            calc_dtype = load_offsets(c.base,loops,_bool_set.BOOL_SET_SUBJECT,magnitude,arc_step_size,closed,None,casting_raw,c.tracker.callbacks())
+            if calc_dtype is None: return ()
 
-        return _tracked_clipper_execute_(tree_out,c,_bool_op.BOOL_OP_UNION,decide_dtype(<np.dtype>calc_dtype,dtype),tracker)
+            return _tracked_clipper_execute_(tree_out,c.base,_bool_op.BOOL_OP_UNION,decide_dtype(<np.dtype>calc_dtype,dtype),c.tracker)
 
-    calc_dtype = load_offsets(c,loops,_bool_set.BOOL_SET_SUBJECT,magnitude,arc_step_size,closed,None,casting_raw,NULL)
-    if calc_dtype is None: return ()
+        calc_dtype = load_offsets(c.base,loops,_bool_set.BOOL_SET_SUBJECT,magnitude,arc_step_size,closed,None,casting_raw,NULL)
+        if calc_dtype is None: return ()
 
-    return _clipper_execute_(tree_out,c,_bool_op.BOOL_OP_UNION,decide_dtype(<np.dtype>calc_dtype,dtype))
+        return _clipper_execute_(tree_out,c.base,_bool_op.BOOL_OP_UNION,decide_dtype(<np.dtype>calc_dtype,dtype))
+    finally:
+        del c
 
 def boolean_op(subject,clip,op,*,casting='same_kind',dtype=None,bint tree_out=False,track_points=False):
     cdef np.NPY_CASTING casting_raw
-    cdef clipper c
-    cdef point_tracker tracker
+    cdef ot_clipper *c
 
     common._casting_converter(casting,&casting_raw)
     dtype = check_dtype(dtype)
 
-    if track_points:
-        calc_dtype = load_loops(c,subject,_bool_set.BOOL_SET_SUBJECT,None,casting_raw,tracker.callbacks())
-        calc_dtype = load_loops(c,clip,_bool_set.BOOL_SET_CLIP,calc_dtype,casting_raw,tracker.callbacks())
-        if calc_dtype is None: return ()
+    c = new ot_clipper()
+    try:
+        if track_points:
+            calc_dtype = load_loops(c.base,subject,_bool_set.BOOL_SET_SUBJECT,None,casting_raw,c.tracker.callbacks())
+            calc_dtype = load_loops(c.base,clip,_bool_set.BOOL_SET_CLIP,calc_dtype,casting_raw,c.tracker.callbacks())
+            if calc_dtype is None: return ()
 
-        return _tracked_clipper_execute_(tree_out,c,to_bool_op(op),decide_dtype(<np.dtype>calc_dtype,dtype),tracker)
+            return _tracked_clipper_execute_(tree_out,c.base,to_bool_op(op),decide_dtype(<np.dtype>calc_dtype,dtype),c.tracker)
 
-    calc_dtype = load_loops(c,subject,_bool_set.BOOL_SET_SUBJECT,None,casting_raw,NULL)
-    calc_dtype = load_loops(c,clip,_bool_set.BOOL_SET_CLIP,calc_dtype,casting_raw,NULL)
-    if calc_dtype is None: return ()
+        calc_dtype = load_loops(c.base,subject,_bool_set.BOOL_SET_SUBJECT,None,casting_raw,NULL)
+        calc_dtype = load_loops(c.base,clip,_bool_set.BOOL_SET_CLIP,calc_dtype,casting_raw,NULL)
+        if calc_dtype is None: return ()
 
-    return _clipper_execute_(tree_out,c,to_bool_op(op),decide_dtype(<np.dtype>calc_dtype,dtype))
+        return _clipper_execute_(tree_out,c.base,to_bool_op(op),decide_dtype(<np.dtype>calc_dtype,dtype))
+    finally:
+        del c
 
 @cython.auto_pickle(False)
 cdef class Clipper:
-- 
2.43.0


From 59a3ede6d5fdfef6b3de099d9d0aa5793f4fe7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:30 +0000
Subject: [PATCH 14/15] fix: let only one Python thread at a time use a clipper

The methods of Clipper and TrackedClipper release the GIL, so two threads using
the same object modified its state at the same time. Loops that were added
before a later one of the same call failed now also count for the result type,
and the "bset" argument of add_offsets is checked.
---
 py/_polyops.pyx | 120 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 92 insertions(+), 28 deletions(-)

diff --git a/py/_polyops.pyx b/py/_polyops.pyx
index 2ec9a71..239f7fc 100644
--- a/py/_polyops.pyx
+++ b/py/_polyops.pyx
@@ -18,6 +18,7 @@ cdef extern from *:
     #include <cassert>
     #include <type_traits>
     #include <limits>
+    #include <mutex>
 
     #include "poly_ops/poly_ops.hpp"
 
@@ -206,6 +207,13 @@ cdef extern from *:
         BOOL_SET_CLIP = static_cast<int>(poly_ops::bool_set::clip),
         BOOL_SET_INVALID};
 
+    void lock_without_gil(std::recursive_mutex &m) {
+        if(!m.try_lock()) {
+            gil_unlocker unlocker;
+            m.lock();
+        }
+    }
+
     template<bool Tree> auto clipper_execute_without_gil(clipper &c,_bool_op op) {
         gil_unlocker unlocker;
         return c.execute<Tree>(static_cast<poly_ops::bool_op>(op));
@@ -365,6 +373,7 @@ cdef extern from *:
         BOOL_SET_INVALID
 
     cppclass clipper:
+        clipper() except +
         void reset()
         size_t& next_orig_i()
     
@@ -372,20 +381,24 @@ cdef extern from *:
         pass
     
     cppclass point_tracker:
+        point_tracker() except +
         i_point_tracker *callbacks()
-        clipper() except +
 
     cppclass ot_clipper:
+        ot_clipper() except +
         point_tracker tracker
         clipper base
         void reset()
 
+    cppclass recursive_mutex "std::recursive_mutex":
+        void unlock()
+
+    void lock_without_gil(recursive_mutex&)
+
     object _clipper_add_loop(clipper&,np.ndarray,_bool_set,np.NPY_CASTING,i_point_tracker*)
-        point_tracker() except +
     object _clipper_add_offset(clipper&,np.ndarray,_bool_set,double,int,bint,np.NPY_CASTING,i_point_tracker*)
     object _tracked_clipper_execute_(bint tree,clipper&,_bool_op,np.dtype,point_tracker&)
     object _clipper_execute_(bint tree,clipper&,_bool_op,np.dtype)
-        ot_clipper() except +
     object _winding_dir(np.ndarray,np.NPY_CASTING)
 
     object obj_to_dtype_opt(object)
@@ -614,6 +627,7 @@ cdef class Clipper:
     cdef object __weakref__
     cdef clipper *_clip # clipper is not standard-layout
     cdef object calc_dtype
+    cdef recursive_mutex _mutex # held while "_clip" is used, since the GIL might not be
 
     def __cinit__(self):
         self._clip = new clipper()
@@ -624,12 +638,20 @@ cdef class Clipper:
     cdef _add_loop(self,loop,bset,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_loop(self._clip[0],loop,to_bool_set(bset),self.calc_dtype,casting,NULL)
+        lock_without_gil(self._mutex)
+        try:
+            self.calc_dtype = load_loop(self._clip[0],loop,to_bool_set(bset),self.calc_dtype,casting,NULL)
+        finally:
+            self._mutex.unlock()
     
     cdef _add_offset(self,loop,bset,double magnitude,int step_size,bint closed,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_offset(self._clip[0],loop,to_bool_set(bset),magnitude,step_size,closed,self.calc_dtype,casting,NULL)
+        lock_without_gil(self._mutex)
+        try:
+            self.calc_dtype = load_offset(self._clip[0],loop,to_bool_set(bset),magnitude,step_size,closed,self.calc_dtype,casting,NULL)
+        finally:
+            self._mutex.unlock()
 
     def add_loop(self,loop,bset,*,casting='same_kind'):
         self._add_loop(loop,bset,casting)
@@ -652,12 +674,16 @@ cdef class Clipper:
     cdef _add_loops(self,loops,bset,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_loops(self._clip[0],loops,to_bool_set(bset),self.calc_dtype,casting,NULL)
+        bset = to_bool_set(bset)
+        for loop in loops:
+            self._add_loop(loop,bset,casting_obj)
 
     cdef _add_offsets(self,loops,bset,double magnitude,int step_size,bint closed,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_offsets(self._clip[0],loops,bset,magnitude,step_size,closed,self.calc_dtype,casting,NULL)
+        bset = to_bool_set(bset)
+        for loop in loops:
+            self._add_offset(loop,bset,magnitude,step_size,closed,casting_obj)
 
     def add_loops(self,loops,bset,*,casting='same_kind'):
         self._add_loops(loops,bset,casting)
@@ -680,22 +706,31 @@ cdef class Clipper:
     def execute(self,op,*,dtype=None,bint tree_out=False):
         dtype = check_dtype(dtype)
 
-        if self.calc_dtype is None: return ()
+        lock_without_gil(self._mutex)
+        try:
+            if self.calc_dtype is None: return ()
 
-        r = _clipper_execute_(tree_out,self._clip[0],to_bool_op(op),decide_dtype(<np.dtype>self.calc_dtype,dtype))
-        self._clip.reset()
-        self.calc_dtype = None
-        return r
+            r = _clipper_execute_(tree_out,self._clip[0],to_bool_op(op),decide_dtype(<np.dtype>self.calc_dtype,dtype))
+            self._clip.reset()
+            self.calc_dtype = None
+            return r
+        finally:
+            self._mutex.unlock()
 
     def reset(self):
-        self._clip.reset()
-        self.calc_dtype = None
+        lock_without_gil(self._mutex)
+        try:
+            self._clip.reset()
+            self.calc_dtype = None
+        finally:
+            self._mutex.unlock()
 
 @cython.auto_pickle(False)
 cdef class TrackedClipper:
     cdef object __weakref__
     cdef ot_clipper *_clip # ot_clipper is not standard-layout
     cdef object calc_dtype
+    cdef recursive_mutex _mutex # held while "_clip" is used, since the GIL might not be
 
     def __cinit__(self):
         self._clip = new ot_clipper()
@@ -705,22 +740,39 @@ cdef class TrackedClipper:
     
     @property
     def next_orig_i(self):
-        return self._clip.base.next_orig_i()
+        lock_without_gil(self._mutex)
+        try:
+            return self._clip.base.next_orig_i()
+        finally:
+            self._mutex.unlock()
     
     @next_orig_i.setter
     def next_orig_i(self,size_t val):
-        cdef size_t *dest = &self._clip.base.next_orig_i()
-        dest[0] = val
+        cdef size_t *dest
+        lock_without_gil(self._mutex)
+        try:
+            dest = &self._clip.base.next_orig_i()
+            dest[0] = val
+        finally:
+            self._mutex.unlock()
 
     cdef _add_loop(self,loop,bset,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_loop(self._clip.base,loop,to_bool_set(bset),self.calc_dtype,casting,self._clip.tracker.callbacks())
+        lock_without_gil(self._mutex)
+        try:
+            self.calc_dtype = load_loop(self._clip.base,loop,to_bool_set(bset),self.calc_dtype,casting,self._clip.tracker.callbacks())
+        finally:
+            self._mutex.unlock()
     
     cdef _add_offset(self,loop,bset,double magnitude,int step_size,bint closed,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_offset(self._clip.base,loop,to_bool_set(bset),magnitude,step_size,closed,self.calc_dtype,casting,self._clip.tracker.callbacks())
+        lock_without_gil(self._mutex)
+        try:
+            self.calc_dtype = load_offset(self._clip.base,loop,to_bool_set(bset),magnitude,step_size,closed,self.calc_dtype,casting,self._clip.tracker.callbacks())
+        finally:
+            self._mutex.unlock()
 
     def add_loop(self,loop,bset,*,casting='same_kind'):
         self._add_loop(loop,bset,casting)
@@ -743,12 +795,16 @@ cdef class TrackedClipper:
     cdef _add_loops(self,loops,bset,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_loops(self._clip.base,loops,to_bool_set(bset),self.calc_dtype,casting,self._clip.tracker.callbacks())
+        bset = to_bool_set(bset)
+        for loop in loops:
+            self._add_loop(loop,bset,casting_obj)
 
     cdef _add_offsets(self,loops,bset,double magnitude,int step_size,bint closed,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_offsets(self._clip.base,loops,bset,magnitude,step_size,closed,self.calc_dtype,casting,self._clip.tracker.callbacks())
+        bset = to_bool_set(bset)
+        for loop in loops:
+            self._add_offset(loop,bset,magnitude,step_size,closed,casting_obj)
 
     def add_loops(self,loops,bset,*,casting='same_kind'):
         self._add_loops(loops,bset,casting)
@@ -771,16 +827,24 @@ cdef class TrackedClipper:
     def execute(self,op,*,dtype=None,bint tree_out=False):
         dtype = check_dtype(dtype)
 
-        if self.calc_dtype is None: return ()
+        lock_without_gil(self._mutex)
+        try:
+            if self.calc_dtype is None: return ()
 
-        r = _tracked_clipper_execute_(tree_out,self._clip.base,to_bool_op(op),decide_dtype(<np.dtype>self.calc_dtype,dtype),self._clip.tracker)
-        self._clip.reset()
-        self.calc_dtype = None
-        return r
+            r = _tracked_clipper_execute_(tree_out,self._clip.base,to_bool_op(op),decide_dtype(<np.dtype>self.calc_dtype,dtype),self._clip.tracker)
+            self._clip.reset()
+            self.calc_dtype = None
+            return r
+        finally:
+            self._mutex.unlock()
 
     def reset(self):
-        self._clip.reset()
-        self.calc_dtype = None
+        lock_without_gil(self._mutex)
+        try:
+            self._clip.reset()
+            self.calc_dtype = None
+        finally:
+            self._mutex.unlock()
 
 def winding_dir(loop,*,casting='same_kind'):
     cdef np.NPY_CASTING _casting
-- 
2.43.0


From 47489226b5424dbc1f54b15bec00bc024f670d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:50 +0000
Subject: [PATCH 15/15] fix: report a failure to convert results to the
 requested type in Python

---
 py/_polyops.pyx | 24 ++++++++++++++++--------
 py/common.pxd   | 10 ++++++++++
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/py/_polyops.pyx b/py/_polyops.pyx
index 239f7fc..0e0b372 100644
--- a/py/_polyops.pyx
+++ b/py/_polyops.pyx
@@ -66,8 +66,12 @@ cdef extern from *:
                 NPY_UNSAFE_CASTING);
             if(NPY_UNLIKELY(!itr)) return nullptr;
 
-            cond_gil_unlocker unlocker{!itr.needs_api()};
-            std::ranges::copy(x,itr.begin());
+            {
+                cond_gil_unlocker unlocker{!itr.needs_api()};
+                std::ranges::copy(x,itr.begin());
+            }
+
+            if(NPY_UNLIKELY(!itr.close())) return nullptr;
         }
 
         return loop_o.new_ref();
@@ -96,13 +100,17 @@ cdef extern from *:
                 NPY_UNSAFE_CASTING);
             if(NPY_UNLIKELY(!nr)) return {};
 
-            cond_gil_unlocker unlocker{!nr.needs_api()};
-            auto itr = nr.begin();
-            for(auto [p,original] : x) {
-                *itr = p;
-                ++itr;
-                total_o_indices += original.size();
+            {
+                cond_gil_unlocker unlocker{!nr.needs_api()};
+                auto itr = nr.begin();
+                for(auto [p,original] : x) {
+                    *itr = p;
+                    ++itr;
+                    total_o_indices += original.size();
+                }
             }
+
+            if(NPY_UNLIKELY(!nr.close())) return {};
         }
 
         npy_intp d(x.size() + 1);
diff --git a/py/common.pxd b/py/common.pxd
index 7ab98f7..af5f423 100644
--- a/py/common.pxd
+++ b/py/common.pxd
@@ -52,6 +52,16 @@ cdef extern from *:
 
         polyops_npy_range &operator=(const polyops_npy_range&) = delete;
 
+        /* Release the iterator now. With NPY_ITER_UPDATEIFCOPY, this is when the
+        values are converted and written to the array, which can fail. Returns
+        false and sets a Python exception upon failure. */
+        bool close() noexcept {
+            NpyIter *tmp = itr;
+            itr = nullptr;
+            itr_next = nullptr;
+            return NpyIter_Deallocate(tmp) != NPY_FAIL;
+        }
+
         explicit operator bool() const {
             return itr_next != nullptr;
         }
-- 
2.43.0

