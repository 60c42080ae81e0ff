C='include/poly_ops/clip.hpp'; O='include/poly_ops/offset.hpp'; F='include/poly_ops/mini_flat_set.hpp'; P='include/poly_ops/polydraw.hpp'; B='include/poly_ops/base.hpp'; L='include/poly_ops/large_ints.hpp'; S='include/poly_ops/sweep_set.hpp'
def m(id,prop,*edits,**k): return dict(id=id,prop=prop,edits=list(edits),**k)
M=[
m('m01-both-false','C01',(C,"""                    at_edge[0] = at_edge_t::both;
                    at_edge[1] = at_edge_t::both;
                    return true;
                }
                p = s1.pa;
                at_edge[0] = at_edge_t::start;
                at_edge[1] = at_edge_t::start;""","""                    return false;
                }
                p = s1.pa;
                at_edge[0] = at_edge_t::start;
                at_edge[1] = at_edge_t::start;"""),also=['C02']),
m('m01-between-d1b','C01',(C,"    if(between(d1b,lo2,hi2)) {","    if(d1a != d2a && between(d1b,lo2,hi2)) {"),also=['C02']),
m('m01-between-d2b','C01',(C,"    if(between(d2b,lo1,hi1)) {","    if(d1a != d2a && between(d2b,lo1,hi1)) {"),also=['C02']),
m('m01-connfirst','C01',(C,"    if(d == 0) return intersects_parallel(s1,s2,p,at_edge);\n","    if(d == 0 && !(s1.a == s2.a || s1.b == s2.b)) return intersects_parallel(s1,s2,p,at_edge);\n"),also=['C02']),
m('m01-ti-ge','C01',(C,"    if(d > 0) {\n        if(t_i < 0 || t_i > d ||","    if(d > 0) {\n        if(t_i < 0 || t_i >= d ||"),also=['C02']),
m('m01-ui-neg','C01',(C,"else if(t_i > 0 || t_i < d || u_i > 0 || u_i < d) return false;","else if(t_i > 0 || t_i < d || u_i >= 0 || u_i < d) return false;"),also=['C02']),
m('m02-lowerangle','C02',(C,"    return v < w || (v == w && tie_breaker);","    return v < w;"),also=['C03']),
m('m02-lowerangle-le','C02',(C,"    return v < w || (v == w && tie_breaker);","    return v <= w;"),also=['C03']),
m('m02-vert-py','C02',(C,"        (dp.y() > 0) == (sb.y() > sa.y()) &&\n        p.y() == sa.y();","        (dp.y() > 0) == (sb.y() > sa.y());"),also=['C03']),
m('m02-hsign-sa','C02',(C,"    if(p.x() < sa.x() || (p.x() == sa.x() && hsign < 0)) return false;","    if(p.x() < sa.x() || (p.x() == sa.x() && hsign < 0 && p.y() != sa.y())) return false;"),also=['C03']),
m('m02-inter-wc1','C02',(C,"return (ws == 0 && wc > 0) ? line_state::keep : line_state::discard;","return (ws == 0 && wc == 1) ? line_state::keep : line_state::discard;")),
m('m02-inter-neg','C02',(C,"return (ws == 0 && wc > 0) ? line_state::keep : line_state::discard;","return (ws == 0 && wc != 0) ? line_state::keep : line_state::discard;")),
m('m02-xor-ne','C02',(C,"                if(wc > 0) return line_state::keep_rev;\n                return line_state::keep;","                if(wc != 0) return line_state::keep_rev;\n                return line_state::keep;")),
m('m02-xor-wc1','C02',(C,"                if(wc > 0) return line_state::keep_rev;\n                return line_state::keep;","                if(wc == 1) return line_state::keep_rev;\n                return line_state::keep;")),
m('m02-diff-ws1','C02',(C,"                if(ws > 0) return line_state::keep_rev;\n                return line_state::discard_rev;","                if(ws == 1) return line_state::keep_rev;\n                return line_state::discard_rev;")),
m('m02-diff-wc1','C02',(C,"                    if(wc > 0) return line_state::discard;\n                    return line_state::keep;","                    if(wc != 0) return line_state::discard;\n                    return line_state::keep;")),
m('m02-diff-discard','C02',(C,"                if(ws > 0) return line_state::keep_rev;\n                return line_state::discard_rev;","                if(ws > 0) return line_state::keep_rev;\n                return line_state::discard;"),also=['C01']),
m('m02-norm-neg','C02',(C,"return w % 2 == 0 ? line_state::keep : line_state::keep_rev;","return w % 2 == 1 ? line_state::keep_rev : line_state::keep;")),
m('m02-union-le','C02',(C,"return w == 0 ? line_state::keep : line_state::discard;","return (ws == 0 && wc <= 0) || w == 0 ? line_state::keep : line_state::discard;")),
m('m02-split-bset','C02',(C,"lpoints.emplace_back(c,sb,lpoints[sa].bset());","lpoints.emplace_back(c,sb,lpoints[0].bset());")),
m('m01-back-check','C01',(C,"                    if(itr != sweep.end() && itr != sweep.begin()) {\n                        check_intersection","                    if(e.type == event_type_t::backward && itr != sweep.end() && itr != sweep.begin()) {\n                        check_intersection"),also=['C02']),
m('m01-fwd-next','C01',(C,"                if(itr != sweep.end()) check_intersection(sweep,e.sweep_node,itr.index(),pt);","                if(itr != sweep.end() && e.type == event_type_t::forward) check_intersection(sweep,e.sweep_node,itr.index(),pt);"),also=['C02']),
m('m01-state-start','C01',(C,"""                intr1 = at_edge[0] == at_edge_t::start ? sweep_nodes[s1].value.a : sweep_nodes[s1].value.b;
                intr2 = at_edge[1] == at_edge_t::start""","""                intr1 = at_edge[0] == at_edge_t::start ? sweep_nodes[s1].value.a : sweep_nodes[s1].value.b;
                intr2 = at_edge[0] == at_edge_t::start"""),also=['C02']),
m('m01-is-edge','C01',(C,"""        at_edge[0] = at_edge_t::end;
        at_edge[1] = is_edge(u_i,d);
        p[0] = x2;""","""        at_edge[0] = at_edge_t::end;
        at_edge[1] = u_i == d ? at_edge_t::end : at_edge_t::no;
        p[0] = x2;"""),also=['C02']),
m('m01-sweep-tie','C01',(C,"""            r = s1.pb.y() - s2.pb.y();
            if(r) return r > 0;
        } else if(s1""","""        } else if(s1"""),also=['C02']),
m('m01-sweep-vert','C01',(C,"            if(s2.pa.x() != s2.pb.x()) {\n                long_coord_t<Coord> r = triangle_winding(s2.pa,s2.pb,s1.pa);\n                if(r) return r > 0;\n                r = triangle_winding(s2.pa,s2.pb,s1.pb);\n                if(r) return r > 0;\n            }","            if(s2.pa.x() != s2.pb.x()) {\n                long_coord_t<Coord> r = triangle_winding(s2.pa,s2.pb,s1.pa);\n                if(r) return r > 0;\n            }"),also=['C02']),
m('m01-event-upd','C01',(C,"                } else {\n                    events.current().status = event_status_t::deleted;\n                }","                }"),also=['C02','C03']),
m('m01-vert-event','C01',(C,"        if(points[sa].data[0] == points[sb].data[0]) [[unlikely]] {","        if(points[sa].data[0] == points[sb].data[0] && points[sa].data[1] < points[sb].data[1]) [[unlikely]] {"),also=['C02']),
m('m03-inside-pos','C03',(C,"    std::ranges::fill(inside,0);\n\n        item.p","    for(int &v : inside) if(v > 0) v = 0;\n\n        item.p") if 0 else (C,"        std::ranges::fill(inside,0);\n","        for(int &v : inside) if(v > 0) v = 0;\n")),
m('m03-neg-hit','C03',(C,"            if(inside[i]) item.hits.emplace_back","            if(inside[i] && inside[i] < 2) item.hits.emplace_back")),
m('m03-best3','C03',(C,"        if(os->second.size() > 1) {\n            bool left","        if(os->second.size() > 2) {\n            bool left"),also=['C01','C02']),
m('m03-best-anchor','C03',(C,"                auto p3 = non_anchor_end_point(lpoints,os->second[i]);","                auto p3 = end_point(lpoints,os->second[i]);")),
m('m03-anchor-dup','C03',(C,"    if(!(lpoints[lpoints[i].next].state() & detail::line_state::anchor)) {","    if(lpoints[lpoints[i].next].state() != detail::line_state::anchor_undef) {")),
m('m03-tie-hits','C03',(C,"            if(lpoints[i].aux.loop_index < 0\n","            if(lpoints[i].aux.loop_index <= 0\n")),
m('m04-ceil-x','C04',(C,"(rand_bool(rgen) ? coord_ops<Coord>::floor(rx) : coord_ops<Coord>::ceil(rx))","coord_ops<Coord>::ceil(rx)")),
m('m04-off1','C04',(C,"(rand_bool(rgen) ? coord_ops<Coord>::floor(ry) : coord_ops<Coord>::ceil(ry))","(rand_bool(rgen) ? coord_ops<Coord>::floor(ry) : coord_ops<Coord>::floor(ry)+1)")),
m('m04-t-float','C04',(C,"        auto t = static_cast<real_coord_t<Coord>>(t_i)/static_cast<real_coord_t<Coord>>(d);","        auto t = static_cast<real_coord_t<Coord>>(static_cast<float>(t_i)/static_cast<float>(d));")),
m('m05-sink-throw','C05',(C,"        if(points_added < 3) [[unlikely]] {\n            while(points_added-- > 0) n.lpoints.pop_back();","        if(points_added < 2) [[unlikely]] {\n            while(points_added-- > 0) n.lpoints.pop_back();")),
m('m05-ran-late','C05',(C,"    ran = true;\n\n    events.clear();","    events.clear();"),(C,"    loops_out.clear();\n    find_loops<Index,Coord>(lpoints,loops_out,contig_mem);\n}","    loops_out.clear();\n    find_loops<Index,Coord>(lpoints,loops_out,contig_mem);\n    ran = true;\n}"),also=['C06']),
m('m06-loopsout','C06',(C,"    loops_out.clear();\n    top.clear();\n\n    self","    self"),(C,"    loops_out.clear();\n    find_loops","    find_loops"),also=['C07']),
m('m07-events-clear','C07',(C,"        current_i = -1;\n        last_size = 0;\n    }\n\n    void rewind","        current_i = -1;\n    }\n\n    void rewind")),
m('m07-ran-false','C07',(C,"    _next_orig_i = 0;\n    ran = false;","    ran = false;"),also=['C10','C11']),
m('m07-orphans','C07',(C,"        virtual_points.clear();\n        orphans.clear();","        virtual_points.clear();"),also=['C06']),
m('m07-vpoints','C06',(C,"        virtual_points.clear();\n        orphans.clear();","        orphans.clear();"),also=['C07']),
m('m07-addloop-reset','C07',(C,"        if(ran) {\n            reset();\n            if(pt) pt->reset();\n        }","        if(ran) {\n            if(pt) pt->reset();\n            reset();\n            _next_orig_i = 0;\n        }")),
m('m08-pool-static','C08',(C,"        discrete_mem(contig_mem),","        discrete_mem(std::pmr::get_default_resource()),"),also=['C05','C06']),
m('m08-static-tmp','C08',(C,"    point_t<Coord> intr;\n    at_edge_t at_edge[2];\n    if(intersects(sweep_nodes[s1]","    static point_t<Coord> intr;\n    static at_edge_t at_edge[2];\n    if(intersects(sweep_nodes[s1]")),
m('m08-static-events','C08',(C,"                new_events.reserve(new_count);\n","                static std::size_t most = 0;\n                most = std::max(most,new_count);\n                new_events.reserve(most);\n")),
m('m09-rgen-time','C09',(C,"        _next_orig_i(0),\n        ran(false),","        rgen(static_cast<unsigned>(reinterpret_cast<std::uintptr_t>(this) >> 4)),\n        _next_orig_i(0),\n        ran(false),")),
m('m09-uninit-held','C09',(C,"            cat{cat},\n            started{false},\n            held{false} {}","            cat{cat},\n            held{false} {}")),
m('m10-split-order','C10',(C,"    if(pt) pt->new_point_between(sa,sb);","    if(pt) pt->new_point_between(sb,sa);")),
m('m10-orig-inc','C10',(C,"    n._next_orig_i = orig_i + 1;","    n._next_orig_i = std::max<Index>(n._next_orig_i,orig_i + 1);")),
m('m11-merge-empty','C11',(O,"        original_sets[to].merge(original_sets[from]);","        if(original_sets[to].empty() || original_sets[from].size() < 4) original_sets[to].merge(original_sets[from]);")),
m('m11-create-size','C11',(F,"        u.data = alloc_data(alloc,static_cast<std::size_t>(isize)+1);","        u.data = alloc_data(alloc,static_cast<std::size_t>(std::max<decltype(isize)>(isize,1)));")),
m('m11-append-cap','C11',(F,"        if(total > u.data->capacity) {","        if(total > u.data->capacity+1) {")),
m('m11-swap-lost','C11',(F,"if(b._size > 1 && b.u.data->capacity >= _size + b._size) swap(*this,b);","if(b._size > _size) swap(*this,b);")),
m('m11-insert-upper','C11',(F,"            T *new_end = create_items(alloc,first,last);\n            std::sort(u.data->items,new_end);","            T *new_end = create_items(alloc,first,last);\n            if(u.data->items[1] < u.data->items[0]) std::sort(u.data->items,new_end);")),
m('m12-arc-last','C12',(O,"            for(long i=1; i<lsteps; ++i) {","            for(long i=1; i<lsteps-1; ++i) {")),
m('m12-neg-concave','C12',(O,"    if(magnitude < real_t(0)) concave = !concave;","    if(magnitude < real_t(-1)) concave = !concave;")),
m('m12-lone-steps','C12',(O,"    long lsteps = std::max(static_cast<long>(steps),3L);","    long lsteps = std::max(static_cast<long>(steps),2L);")),
m('m12-arc-steps-neg','C12',(O,"        long lsteps = std::abs(static_cast<long>(steps));","        long lsteps = static_cast<long>(steps);")),
m('m12-orig-swap','C12',(O,"    sink(p1 + vround<Coord>(offset),orig_i1);","    sink(p1 + vround<Coord>(offset),orig_i2);"),also=['C11']),
m('m12-arc-int','C12',(O,"            real_t s = coord_ops<Coord>::sin(angle / static_cast<real_t>(steps));\n","            real_t s = coord_ops<Coord>::sin(angle / static_cast<real_t>(lsteps));\n")),
m('m12-tail-first','C12',(O,"                if(prev1.p != first) {\n                    add_offset_point","                if(prev1.p != first && prev2.p != first) {\n                    add_offset_point")),
m('m13-prev-next','C13',(P,"                        ++itr;\n                        if(itr != sweep.end()) rast.check_intersection(e.sweep_node,itr.index(),e.ab.a_y(rast.lpoints));","                        ++itr;\n                        if(itr != sweep.end() && itr->value.pa != itr->value.pb && itr->value.pa.y() != e.ab.a_y(rast.lpoints)) rast.check_intersection(e.sweep_node,itr.index(),e.ab.a_y(rast.lpoints));")),
m('m13-dge0','C13',(P,"    if(t_i >= 0 || t_i <= d || u_i >= 0 || u_i <= d) return false;","    if(t_i >= 0 || t_i < d || u_i >= 0 || u_i < d) return false;") ),
m('m13-coinc','C13',(P,"    if(itr2 != sweep.end()) check_intersection_after_swap(sweep,s1,itr2.index(),y);","    if(itr2 != sweep.end()) check_intersection(s1,itr2.index(),y.whole+1);")),
m('m13-next-y','C13',(P,"        cmp = x_intercept(s1.pa,s1.pb,current_y+1) <=> x_intercept(s2.pa,s2.pb,current_y+1);\n        if(cmp != 0) return cmp > 0;\n","")),
m('m13-negfill','C13',(P,"        return winding < 0;","        return winding == -1;")),
m('m13-wf-cmp','C13',(P,"        auto r = a.whole <=> b.whole;\n        if(r != 0) return r;\n        return a.frac <=> b.frac;","        auto r = a.whole <=> b.whole;\n        if(r != 0) return r;\n        return a.frac.num <=> b.frac.num;")),
m('m13-horiz','C13',(P,"        if(new_points < 3) [[unlikely]] {\n            while(new_points-- > 0) {","        if(new_points < 4) [[unlikely]] {\n            while(new_points-- > 0) {")),
m('m13-ran','C13',(P,"        if(ran) clear();\n        return {*this};","        return {*this};")),
m('m15-top-span','C15',(C,"    return range_facade(\n        std::move(top),\n        [tl=make_tracked_points(std::forward<Tracker>(tracker),std::move(lpoints)),loops=std::move(loops)]","    return range_facade(\n        std::move(top),\n        [tl=make_tracked_points(std::forward<Tracker>(tracker),std::move(lpoints)),&loops]")),
m('m15-iter-post','C15',(C,"        return {lpoints,std::exchange(i,lpoints[i].next),dist_from_end--,tracker};","        return {lpoints,std::exchange(i,lpoints[i].next),--dist_from_end,tracker};")),
m('m15-iter-eq','C15',(C,"        return a.dist_from_end == b.dist_from_end;","        return a.i == b.i && a.dist_from_end == b.dist_from_end;")),
]
