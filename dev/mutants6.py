"""Planted changes, sixth set: offsets (development only)."""
C='include/poly_ops/clip.hpp'; O='include/poly_ops/offset.hpp'
M=[]
def m(id,prop,*edits,also=()): M.append({'id':id,'prop':prop,'edits':list(edits),'also':list(also)})
m('o-tail-idx','C11',(O,"                    signed_add(tail.prev2.orig_i,-1),\n","                    tail.prev2.orig_i,\n"))
m('o-dup-order','C11',(O,"""                        prev1 = {p,end_orig_i};
                    }
                    ++end_orig_i;""","""                        prev1 = {p,end_orig_i++};
                    }"""),also=['C10'])
m('o-next-orig','C11',(O,"""                break;
            }
        }
    }

    n.next_orig_i() = end_orig_i;
}

} // namespace detail""","""                break;
            }
        }
    }
}

} // namespace detail"""),also=['C10'])
m('o-open-next','C11',(O,"""                break;
            }
        }
    }
    n.next_orig_i() = end_orig_i;
}""","""                break;
            }
        }
    }
}"""),also=['C10'])
m('o-std-next','C12',(O,"static_cast<std::ptrdiff_t>(end_orig_i - tail.prev2.orig_i)","std::ptrdiff_t(2)"),also=['C07','C11'])
m('o-closed-2','C12',(O,"                    prev1.p == first ? second : first);","                    first);"),also=['C04','C07'])
m('o-closed-orig','C11',(O,"prev1.orig_i,first_orig_i,prev1.p,first,second);","prev2.orig_i,first_orig_i,prev1.p,first,second);"))
m('o-prev2-dup','C12',(O,"""        if(p != prev1.p) {
            add_offset_point<Index,Coord>(sink""","""        if(p != prev2.p) {
            add_offset_point<Index,Coord>(sink"""),also=['C04','C07'])
m('o-first-dup','C12',(O,"""            if(second != first) {
                offset_input_point<Coord,Index> prev2{first,first_orig_i};""","""            if(second != first || itr == end) {
                offset_input_point<Coord,Index> prev2{first,first_orig_i};"""),also=['C07','C04'])
m('o-concave-orig','C11',(O,"        sink(p2,orig_i2);\n","        sink(p2,orig_i1);\n"))
m('o-arc-orig','C11',(O,"                sink(p2 + vround<Coord>(offset),orig_i2);\n            }","                sink(p2 + vround<Coord>(offset),i < lsteps/2 ? orig_i1 : orig_i2);\n            }"))
m('o-buffer-static','C08',(O,"                auto adapted = std::ranges::subrange{std::ranges::begin(input),std::ranges::end(input)} | std::views::common;\n                std::pmr::vector<point_t<Coord>> buffer(std::begin(adapted),std::end(adapted),n.memory());","                auto adapted = std::ranges::subrange{std::ranges::begin(input),std::ranges::end(input)} | std::views::common;\n                static std::vector<point_t<Coord>> buffer;\n                buffer.assign(std::begin(adapted),std::end(adapted));"),also=['C06','C05'])
m('o-mag-round','C12',(O,"    point_t<real_t> offset = perp_vector<Coord>(p1,p2,magnitude);","    point_t<real_t> offset = perp_vector<Coord>(p1,p2,magnitude < 0 ? std::ceil(magnitude) : magnitude);"))
m('o-lone-neg','C12',(O,"    if(magnitude <= 0) return;\n","    if(magnitude == 0) return;\n"))
