C='include/poly_ops/clip.hpp'; O='include/poly_ops/offset.hpp'; F='include/poly_ops/mini_flat_set.hpp'; P='include/poly_ops/polydraw.hpp'; B='include/poly_ops/base.hpp'
def m(id,prop,*edits,**k): return dict(id=id,prop=prop,edits=list(edits),**k)
M=[
m('c01-atedge-s2end','C01',(C,"        else if(p[0] == x4 && p[1] == y4) at_edge[1] = at_edge_t::end;\n","")),
m('c01-pending-v','C02',(C,"                return (e.type == event_type_t::forward\n                    || e.type == event_type_t::vforward)","                return (e.type == event_type_t::forward)")),
m('c01-par-opposite','C02',(C,"""                p = s1.pa;
                at_edge[0] = at_edge_t::start;
                at_edge[1] = at_edge_t::end;
                return true;
            } else if(s1.b != s2.a) {""","""                return false;
            } else if(s1.b != s2.a) {""")),
m('c01-backtrack','C01',(C,"if(static_cast<std::ptrdiff_t>(new_events[0].i) <= current_i) return {current(),false};","if(static_cast<std::ptrdiff_t>(new_events[0].i) < current_i) return {current(),false};")),
m('c01-removed-status','C02',(C,"""                return (e.type == event_type_t::backward
                    || e.type == event_type_t::vbackward)
                    && e.status != event_status_t::deleted; })""","""                return (e.type == event_type_t::backward
                    || e.type == event_type_t::vbackward); })""")),
m('c01-sweepcmp-far','C01',(C,"""                if(r) return r > 0;
                r = triangle_winding(s2.pa,s2.pb,s1.pb);
                if(r) return r > 0;
            }""","""                if(r) return r > 0;
            }""")),
m('c01-split-vert','C01',(C,"    if(lpoints[mid].data[0] <= lpoints[sb].data[0]) {","    if(lpoints[mid].data[0] < lpoints[sb].data[0]) {")),
m('c02-xor-clip','C02',(C,"                if(wc > 0) return line_state::discard;\n                    return line_state::keep;","")) if 0 else
m('c02-vert-dir','C02',(C,"        (dp.y() > 0) == (sb.y() > sa.y()) &&\n","")),
m('c02-norm-rev','C02',(C,"return w % 2 == 0 ? line_state::keep : line_state::keep_rev;","return (w & 3) % 3 == 0 ? line_state::keep : line_state::keep_rev;")) ,
m('c02-bestturn','C03',(C,"if(!(left ? (i_left && left_of_bs) : (i_left || left_of_bs))) {","if(!(left ? i_left : (i_left || left_of_bs))) {")),
m('c03-top','C03',(C,"            if(inside[i]) item.hits.emplace_back","            if(inside[i] > 0) item.hits.emplace_back")),
m('c03-hits-sign','C03',(C,"+= ((d.x() ? d.x() : d.y()) > 0) ? 1 : -1;","+= (d.x() > 0) ? 1 : -1;")),
m('c03-dup-anchor','C03',(C,"            if(points[next].state() & line_state::anchor) points[next].data = end_point(points,next);\n","")),
m('c04-rounding','C04',(C,"(rand_bool(rgen) ? coord_ops<Coord>::floor(rx) : coord_ops<Coord>::ceil(rx))","(rx < 0 ? coord_ops<Coord>::floor(rx) : coord_ops<Coord>::ceil(rx))"),(C,"(rand_bool(rgen) ? coord_ops<Coord>::floor(ry) : coord_ops<Coord>::ceil(ry))","(ry < 0 ? coord_ops<Coord>::floor(ry) : coord_ops<Coord>::ceil(ry))")),
m('c05-breaks','C05',(C,"    breaks.clear();\n    loops_out.clear();","    loops_out.clear();"),also=['C06']),
m('c05-newevents','C05',(C,"        events.clear();\n        new_events.clear();\n","        events.clear();\n"),also=['C06']),
m('c05-noexcept-merge','C05',(F,"    void merge(Allocator alloc,mini_flat_set &b) {","    void merge(Allocator alloc,mini_flat_set &b) noexcept {")),
m('c05-grow-exc','C05',(F,"""                data_t *tmp = u.data;
                u.data = alloc_data(alloc,_size * 2);
                T *new_pos = std::copy(tmp->items,pos,u.data->items);""","""                data_t *tmp = u.data;
                u.data = nullptr;
                u.data = alloc_data(alloc,_size * 2);
                T *new_pos = std::copy(tmp->items,pos,u.data->items);""")),
m('c05-append-exc','C05',(F,"""            data_t *tmp = u.data;
            u.data = alloc_data(alloc,total);
            std::copy(tmp->items,tmp->items+_size,u.data->items);
            dealloc_data(alloc,tmp);""","""            data_t *tmp = u.data;
            u.data = nullptr;
            u.data = alloc_data(alloc,total);
            std::copy(tmp->items,tmp->items+_size,u.data->items);
            dealloc_data(alloc,tmp);""")),
m('c06-order','C06',(C,"""    lpoints[sa].next = mid;
    lpoints.emplace_back(c,sb,lpoints[sa].bset());""","""    if(pt) pt->new_point_between(sa,sb);
    lpoints[sa].next = mid;
    lpoints.emplace_back(c,sb,lpoints[sa].bset());"""),(C,"""    POLY_OPS_ASSERT_SLOW(check_integrity(lpoints,sweep));

    if(pt) pt->new_point_between(sa,sb);
""","""    POLY_OPS_ASSERT_SLOW(check_integrity(lpoints,sweep));
"""),also=['C10']),
m('c07-samples','C07',(C,"    lpoints.clear();\n    samples.clear();\n","    lpoints.clear();\n")),
m('c07-nextorig','C07',(C,"    sweep_nodes.resize(1);\n    _next_orig_i = 0;\n","    sweep_nodes.resize(1);\n"),also=['C10','C11']),
m('c07-top','C07',(C,"    loops_out.clear();\n    top.clear();\n\n","    loops_out.clear();\n\n")),
m('c07-trk-reset','C10',(C,"            reset();\n            if(pt) pt->reset();","            reset();"),also=['C07']),
m('c08-static-inside','C08',(C,"std::pmr::vector<int> inside(loops.size(),0,contig_mem);","static std::vector<int> inside;\n    inside.assign(loops.size(),0);")),
m('c08-static-rgen','C08',(C,"    detail::rand_generator rgen;\n","    static inline detail::rand_generator rgen;\n"),also=['C07','C09']),
m('c09-held','C09',(C,"            cat{cat},\n            started{false},","            cat{cat},")),
m('c09-ptr-order','C09',(C,"        if(parent) loops[*parent].children.push_back(&loops[item.p]);","        if(parent) {\n            auto &ch = loops[*parent].children;\n            ch.push_back(&loops[item.p]);\n            if(ch.size() > 1 && ch[0]->children.get_allocator().resource() == nullptr) std::swap(ch[0],ch.back());\n        }")) if 0 else
m('c09-hash-order','C09',(C,"    breaks.orphans.push_back(intr);\n","    if((reinterpret_cast<std::uintptr_t>(points.data()) >> 6) & 1) breaks.orphans.push_back(intr); else breaks.orphans.insert(breaks.orphans.begin(),intr);\n")),
m('c15-loops-copy','C15',(C,"""        [tl=make_tracked_points(std::forward<Tracker>(tracker),std::move(lpoints)),loops=std::move(loops)]
        (const temp_polygon""","""        [tl=make_tracked_points(std::forward<Tracker>(tracker),std::move(lpoints)),loops=loops]
        (const temp_polygon"""),also=['C05']),
m('c11-set-assign','C11',(F,"if(b._size > 1 && b.u.data->capacity >= _size + b._size) swap(*this,b);","if(b._size > 1 && b.u.data->capacity > _size + b._size) { swap(*this,b); if(b._size > 1) return; }")),
m('c11-inplace','C11',(F,"            std::sort(u.data->items+_size,new_end);\n            std::inplace_merge","            std::inplace_merge")),
m('c11-insert-first','C11',(F,"if(pos != u.data->items && *(pos-1) == value) return {pos-1,false};","if(pos != u.data->items && pos != u.data->items+_size && *(pos-1) == value) return {pos-1,false};")),
m('c11-unique','C11',(F,"""            std::inplace_merge(u.data->items,u.data->items+_size,new_end);
            _size = static_cast<std::size_t>(std::unique(u.data->items,new_end) - u.data->items);""","""            T *mid = u.data->items+_size;
            std::inplace_merge(u.data->items,mid,new_end);
            _size = static_cast<std::size_t>((mid[-1] == mid[0] ? std::unique(u.data->items,new_end) : new_end) - u.data->items);""")),
m('c13-swap-neighbor','C13',(P,"    if(itr1 != sweep.begin()) check_intersection_after_swap(sweep,std::prev(itr1).index(),s2,y);\n","    if(itr1 != sweep.begin()) check_intersection(std::prev(itr1).index(),s2,y.whole+1);\n")),
m('c13-backward','C13',(P,"""                        if(itr != sweep.end() && itr != sweep.begin()) {
                            rast.check_intersection(std::prev(itr).index(),itr.index(),e.ab.a_y(rast.lpoints));""","""                        if(itr != sweep.end() && itr != sweep.begin()) {
                            rast.check_intersection(std::prev(itr).index(),itr.index(),y+1);""")),
m('c13-evenodd','C13',(P,"return winding % 2;","return winding % 2 == 1;")),
m('c13-clear','C13',(P,"        lpoints.clear();\n        ran = false;\n","        lpoints.clear();\n")),
m('c13-resize','C13',(P,"    events.clear();\n    sweep_nodes.resize(1);\n\n    ran = true;","    ran = true;\n    events.clear();\n    if(sweep_nodes.size() > lpoints.size()*2+1) sweep_nodes.resize(1);")),
]
