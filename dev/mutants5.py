"""Planted changes, fifth set (development only)."""
C='include/poly_ops/clip.hpp'; O='include/poly_ops/offset.hpp'
M=[]
def m(id,prop,*edits,also=()): M.append({'id':id,'prop':prop,'edits':list(edits),'also':list(also)})
m('m04-rgen-copy','C04',(C,"    rand_generator &rgen)\n{","    rand_generator rgen)\n{"))
m('m10-second-orig','C10',(C,"                second_orig_i = orig_i;\n                break;","                second_orig_i = first_orig_i + 1;\n                break;"),also=['C11'])
m('m10-held-orig','C10',(C,"add_point(point_t<Coord>(first),held_orig_i);","add_point(point_t<Coord>(first),orig_i - 1);"),also=['C11'])
m('m07-held-back','C03',(C,"if(p == (held ? first : n.lpoints.back().data)) return;","if(p == n.lpoints.back().data) return;"),also=['C07','C01'])
m('m06-close-zero','C06',(C,"        if(points_added > 1 && n.lpoints.back().data == n.lpoints[first_i].data) [[unlikely]] {","        if(points_added > 3 && n.lpoints.back().data == n.lpoints[first_i].data && !held) [[unlikely]] {"),also=['C05'])
m('m06-no-pop','C06',(C,"""        } catch(...) {
            n.lpoints.pop_back();
            throw;
        }""","""        } catch(const std::bad_alloc&) {
            n.lpoints.pop_back();
            throw;
        }"""),also=['C10'])
m('m15-tree-copy','C15',(C,"""            std::move(lpoints),
            std::move(loops_out),
            std::move(top),""","""            std::move(lpoints),
            std::pmr::vector<detail::temp_polygon<Index>>(loops_out,contig_mem),
            std::move(top),"""),also=['C07'])
m('m18-both-half','C18',(C,"                lpoints[s2_seg.a].state() = line_state::check;\n                lpoints[s2_seg.b].state() = line_state::check;\n",""),also=['C01','C02'])
m('m18-touch','C18',(C,"""                intr2 = at_edge[1] == at_edge_t::start ? sweep_nodes[s2].value.a : sweep_nodes[s2].value.b;

                lpoints[intr1].state() = line_state::check;
                lpoints[intr2].state() = line_state::check;""","""                intr2 = at_edge[1] == at_edge_t::start ? sweep_nodes[s2].value.a : sweep_nodes[s2].value.b;

                lpoints[intr1].state() = line_state::check;"""),also=['C02'])
m('m07-orig-keep','C10',(C,"    _next_orig_i = 0;\n    ran = false;\n}","    ran = false;\n}"),also=['C11','C07'])
m('m07-exec-noreset','C10',(C,"""    if(ran) {
        reset();
        tracker.reset();
    }

    do_op(op,tracker.callbacks(),TreeOut);

    if constexpr(TreeOut) {
        loop_hierarchy(lpoints,loops_out,top,samples,contig_mem);
        return make_temp_polygon_tree_range<Index,Coord,Tracker>(""","""    if(ran) {
        reset();
    }

    do_op(op,tracker.callbacks(),TreeOut);

    if constexpr(TreeOut) {
        loop_hierarchy(lpoints,loops_out,top,samples,contig_mem);
        return make_temp_polygon_tree_range<Index,Coord,Tracker>("""),also=['C11','C07'])
m('m15-sink-move','C07',(C,"            b.started = false;\n",""),also=['C03'])
