M=[]
C='include/poly_ops/clip.hpp'; O='include/poly_ops/offset.hpp'; F='include/poly_ops/mini_flat_set.hpp'; P='include/poly_ops/polydraw.hpp'; B='include/poly_ops/base.hpp'
def m(id,prop,*edits,also=()): M.append(dict(id=id,prop=prop,edits=list(edits),also=list(also)))
# survivors of dev/auto.py
m('a-vert-sign','C03',(C,"((d.x() ? d.x() : d.y()) > 0)","((d.x() ? d.x() : d.x()) > 0)"))
m('a-edge-start','C01',(C,"        return at_edge == at_edge_t::start ? sa : sb;","        return at_edge != at_edge_t::start ? sa : sb;"),also=['C02','C10'])
