// Exact geometric oracles, independent of the library's code.
#pragma once
#include "core.hpp"
namespace sim {

inline int sgn(i128 v) { return v > 0 ? 1 : (v < 0 ? -1 : 0); }
inline i128 cross3(const Pt &a,const Pt &b,const Pt &c) {
    return (i128)(b.first-a.first)*(c.second-a.second) - (i128)(b.second-a.second)*(c.first-a.first);
}
inline i128 area2(const Loop &l) {
    i128 r = 0;
    if(l.size() < 3) return 0;
    const Pt &o = l[0];
    for(size_t i=1; i+1<l.size(); ++i) r += cross3(o,l[i],l[i+1]);
    return r;
}
// strictly inside the open segment
inline bool strictly_on(const Pt &a,const Pt &b,const Pt &p) {
    if(cross3(a,b,p) != 0) return false;
    i128 d = (i128)(p.first-a.first)*(b.first-a.first) + (i128)(p.second-a.second)*(b.second-a.second);
    i128 l = (i128)(b.first-a.first)*(b.first-a.first) + (i128)(b.second-a.second)*(b.second-a.second);
    return d > 0 && d < l;
}
struct Seg { Pt a,b; };

// 0 fine, 1 proper crossing, 2 endpoint inside the other (T-junction), 3 partial collinear overlap
inline int seg_conflict(const Seg &s,const Seg &t) {
    bool ta = strictly_on(s.a,s.b,t.a), tb = strictly_on(s.a,s.b,t.b);
    bool sa = strictly_on(t.a,t.b,s.a), sb = strictly_on(t.a,t.b,s.b);
    if(ta || tb || sa || sb) {
        return cross3(s.a,s.b,t.a) == 0 && cross3(s.a,s.b,t.b) == 0 ? 3 : 2;
    }
    int d1 = sgn(cross3(s.a,s.b,t.a)), d2 = sgn(cross3(s.a,s.b,t.b));
    int d3 = sgn(cross3(t.a,t.b,s.a)), d4 = sgn(cross3(t.a,t.b,s.b));
    if(d1*d2 < 0 && d3*d4 < 0) return 1;
    return 0;
}

inline std::vector<Seg> segs_of(const std::vector<Loop> &ls) {
    std::vector<Seg> r;
    for(auto &l : ls) for(size_t i=0; i<l.size(); ++i) r.push_back({l[i],l[(i+1)%l.size()]});
    return r;
}

inline bool find_conflict(const std::vector<Loop> &ls,std::string &msg) {
    auto s = segs_of(ls);
    std::vector<size_t> ord(s.size());
    std::iota(ord.begin(),ord.end(),0);
    auto lo = [&](size_t i){ return std::min(s[i].a.first,s[i].b.first); };
    auto hi = [&](size_t i){ return std::max(s[i].a.first,s[i].b.first); };
    std::sort(ord.begin(),ord.end(),[&](size_t a,size_t b){ return lo(a) < lo(b) || (lo(a) == lo(b) && a < b); });
    for(size_t i=0; i<ord.size(); ++i) {
        auto &x = s[ord[i]];
        i64 h = hi(ord[i]);
        i64 ylo = std::min(x.a.second,x.b.second), yhi = std::max(x.a.second,x.b.second);
        for(size_t j=i+1; j<ord.size() && lo(ord[j]) <= h; ++j) {
            auto &y = s[ord[j]];
            if(std::max(y.a.second,y.b.second) < ylo || std::min(y.a.second,y.b.second) > yhi) continue;
            if(int c = seg_conflict(x,y)) {
                std::ostringstream o;
                o << (c==1?"lines cross":c==2?"line ends inside another line":"lines partially overlap") << ": ("
                  << x.a.first << ',' << x.a.second << ")-(" << x.b.first << ',' << x.b.second << ") and ("
                  << y.a.first << ',' << y.a.second << ")-(" << y.b.first << ',' << y.b.second << ")";
                msg = o.str();
                return true;
            }
        }
    }
    return false;
}

// winding number of integer point q (coordinates already scaled), positive = clockwise with y down.
// q must not lie on an edge. 'mul' scales loop coordinates.
inline long winding_of(const Loop &l,const Pt &q,i64 mul) {
    long w = 0;
    size_t n = l.size();
    for(size_t i=0; i<n; ++i) {
        const Pt a{l[i].first*mul,l[i].second*mul}, b{l[(i+1)%n].first*mul,l[(i+1)%n].second*mul};
        if((a.second <= q.second) != (b.second <= q.second)) {
            int s = sgn(cross3(a,b,q));
            if(a.second <= q.second) { if(s > 0) ++w; }
            else if(s < 0) --w;
        }
    }
    return w;
}
inline long winding_of(const std::vector<Loop> &ls,const Pt &q,i64 mul) {
    long w = 0;
    for(auto &l : ls) w += winding_of(l,q,mul);
    return w;
}
inline long double dist2_seg(long double px,long double py,long double ax,long double ay,long double bx,long double by) {
    long double dx = bx-ax, dy = by-ay, l = dx*dx+dy*dy;
    long double t = l > 0 ? ((px-ax)*dx+(py-ay)*dy)/l : 0;
    if(t < 0) t = 0;
    if(t > 1) t = 1;
    long double ex = px-(ax+t*dx), ey = py-(ay+t*dy);
    return ex*ex+ey*ey;
}
// distance from scaled q to the loops (unscaled units)
inline long double dist_to(const std::vector<Loop> &ls,const Pt &q,i64 mul,long double best=1e300L) {
    long double b2 = best*best;
    long double px = (long double)q.first/mul, py = (long double)q.second/mul;
    for(auto &l : ls) for(size_t i=0; i<l.size(); ++i) {
        auto &a = l[i]; auto &b = l[(i+1)%l.size()];
        long double d = dist2_seg(px,py,a.first,a.second,b.first,b.second);
        if(d < b2) b2 = d;
    }
    return std::sqrt(b2);
}
inline bool on_any_edge(const std::vector<Loop> &ls,const Pt &q,i64 mul) {
    for(auto &l : ls) for(size_t i=0; i<l.size(); ++i) {
        Pt a{l[i].first*mul,l[i].second*mul}, b{l[(i+1)%l.size()].first*mul,l[(i+1)%l.size()].second*mul};
        if(q == a || q == b || strictly_on(a,b,q)) return true;
    }
    return false;
}

// the loop after removing consecutive (cyclic) duplicates; empty if fewer than 3 points remain.
// 'orig' gets the index in 'l' of each retained point
// The boundary of what loops enclose as a set of directed segments, cut at every vertex given and with opposite ones
// cancelled. Two sets of loops have the same winding number everywhere exactly when these are equal.
using Chain = std::map<std::pair<Pt,Pt>,long>;
inline Chain net_chain(const std::vector<Loop> &ls,const std::set<Pt> &cuts) {
    Chain c;
    for(auto &l : ls) for(size_t i=0; i<l.size(); ++i) {
        Pt a = l[i], b = l[(i+1)%l.size()];
        if(a == b) continue;
        std::vector<Pt> on{a,b};
        i64 x0 = std::min(a.first,b.first), x1 = std::max(a.first,b.first);
        for(auto it = cuts.lower_bound({x0,INT64_MIN}); it != cuts.end() && it->first <= x1; ++it) if(strictly_on(a,b,*it)) on.push_back(*it);
        std::sort(on.begin(),on.end());
        bool fwd = a < b;
        for(size_t k=0; k+1<on.size(); ++k) {
            auto &v = c[{on[k],on[k+1]}];
            v += fwd ? 1 : -1;
        }
    }
    for(auto it = c.begin(); it != c.end();) it = it->second ? std::next(it) : c.erase(it);
    return c;
}
inline Loop clean_loop(const Loop &l,std::vector<size_t> *orig=nullptr) {
    Loop r; std::vector<size_t> o;
    for(size_t i=0; i<l.size(); ++i) if(r.empty() || r.back() != l[i]) { r.push_back(l[i]); o.push_back(i); }
    if(r.size() > 1 && r.front() == r.back()) { r.pop_back(); o.pop_back(); }
    if(r.size() < 3) { r.clear(); o.clear(); }
    if(orig) *orig = o;
    return r;
}

// a point strictly inside a (weakly) simple loop, scaled by 6
inline bool interior_point(const Loop &l,Pt &out) {
    size_t n = l.size(), v = 0;
    if(n < 3) return false;
    for(size_t i=1; i<n; ++i) if(l[i] < l[v]) v = i;
    Pt p = l[v], a = l[(v+n-1)%n], b = l[(v+1)%n];
    i128 c = cross3(a,p,b);
    if(c == 0) return false;
    auto inside = [&](const Pt &q) {
        int s1 = sgn(cross3(a,p,q)), s2 = sgn(cross3(p,b,q)), s3 = sgn(cross3(b,a,q)), s = sgn(c);
        return s1 != -s && s2 != -s && s3 != -s && q != p && q != a && q != b;
    };
    bool found = false; Pt best; i128 bd = 0;
    for(auto &q : l) if(inside(q)) {
        i128 d = cross3(a,b,q); if(d < 0) d = -d;
        if(!found || d > bd) { found = true; bd = d; best = q; }
    }
    if(!found) out = {2*(p.first+a.first+b.first),2*(p.second+a.second+b.second)};
    else if(bd == 0) out = {2*(p.first+a.first+b.first),2*(p.second+a.second+b.second)};
    else out = {3*(p.first+best.first),3*(p.second+best.second)};
    return true;
}

} // namespace sim
