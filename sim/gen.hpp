// Workload generation: every shape decision comes from the run's PRNG.
#pragma once
#include "geom.hpp"
namespace sim {

enum ShapeFamily { SF_RANDOM, SF_RECTI, SF_OCTI, SF_STAR, SF_RINGS, SF_BOXES, SF_SLIVER, SF_COMB, SF_DEGEN, SF_GRIDTRI, SF_SHARED, SF_SPOKES, SF_COUNT };
inline const char *family_name(int f) {
    static const char *n[] = {"random","rectilinear","octilinear","star","rings","boxes","sliver","comb","degenerate","grid_triangles","shared_edges"};
    return n[f];
}

struct GenCfg {
    i64 lo=0, hi=100;      // coordinate box
    int family = SF_RANDOM;
    int npts = 8;
    i64 unit = 2;          // grid spacing of the rectilinear families
};

inline i64 even_in(Rng &r,i64 lo,i64 hi,i64 m) {
    i64 a = (lo + (lo < 0 ? 0 : m-1)) / m, b = hi / m;
    if(b < a) b = a;
    return r.range(a,b)*m;
}

inline Loop rect(i64 x1,i64 y1,i64 x2,i64 y2,bool cw) {
    Loop l{{x1,y1},{x2,y1},{x2,y2},{x1,y2}};
    if(!cw) std::reverse(l.begin(),l.end());
    return l;
}
inline void rotate_start(Rng &r,Loop &l) { if(!l.empty()) std::rotate(l.begin(),l.begin()+(std::ptrdiff_t)r.below(l.size()),l.end()); }

inline Loop gen_random(Rng &r,const GenCfg &g) {
    Loop l;
    for(int i=0; i<g.npts; ++i) {
        if(i > 2 && r.chance(1,12)) l.push_back(l[r.below(l.size())]);
        else if(i > 0 && r.chance(1,10)) l.push_back({l.back().first,r.range(g.lo,g.hi)});
        else if(i > 0 && r.chance(1,10)) l.push_back({r.range(g.lo,g.hi),l.back().second});
        else l.push_back({r.range(g.lo,g.hi),r.range(g.lo,g.hi)});
    }
    return l;
}
inline Loop gen_recti(Rng &r,const GenCfg &g) {
    Loop l;
    int n = std::max(4,g.npts & ~1);
    i64 x = even_in(r,g.lo,g.hi,g.unit), y = even_in(r,g.lo,g.hi,g.unit);
    i64 sx = x;
    for(int i=0; i<n; ++i) {
        l.push_back({x,y});
        if(i & 1) { y = even_in(r,g.lo,g.hi,g.unit); }
        else { x = even_in(r,g.lo,g.hi,g.unit); }
    }
    // n points, edges alternate horizontal / vertical; close with a vertical edge
    l.back().first = sx;
    if(l.size() >= 2) l[l.size()-2].second = l[l.size()-2].second;
    Loop o;
    for(size_t i=0; i<l.size(); ++i) {
        o.push_back(l[i]);
        auto &n2 = l[(i+1)%l.size()];
        if(l[i].first != n2.first && l[i].second != n2.second) o.push_back({n2.first,l[i].second});
    }
    return o;
}
inline Loop gen_octi(Rng &r,const GenCfg &g) {
    // vertices on multiples of 4, edges horizontal, vertical or diagonal: all crossings are integers
    Loop l;
    Pt p{even_in(r,g.lo,g.hi,2*g.unit),even_in(r,g.lo,g.hi,2*g.unit)};
    auto in = [&](i64 v) { return v >= g.lo && v <= g.hi; };
    int n = std::max(3,g.npts);
    i64 span = std::max<i64>(1,(g.hi-g.lo)/(4*g.unit));
    for(int i=0; i<n; ++i) {
        l.push_back(p);
        for(int t=0; t<20; ++t) {
            static const int D[8][2] = {{1,0},{1,1},{0,1},{-1,1},{-1,0},{-1,-1},{0,-1},{1,-1}};
            auto &d = D[r.below(8)];
            i64 k = 2*g.unit*r.range(1,std::max<i64>(1,span));
            Pt q{p.first+d[0]*k,p.second+d[1]*k};
            if(in(q.first) && in(q.second)) { p = q; break; }
        }
    }
    // close with axis/diagonal legs
    Pt s = l[0];
    Pt e = l.back();
    if(e.first != s.first && e.second != s.second && std::llabs(e.first-s.first) != std::llabs(e.second-s.second)) l.push_back({s.first,e.second});
    return l;
}
inline Loop gen_star(Rng &r,const GenCfg &g) {
    int n = std::max(3,g.npts);
    long double cx = r.range(g.lo,g.hi), cy = r.range(g.lo,g.hi), R = std::max<long double>(2,(long double)(g.hi-g.lo)*(0.1L+0.4L*(r.below(1000)/1000.0L)));
    Loop l;
    long double a0 = r.below(6283)/1000.0L;
    int step = r.chance(1,3) ? 2 : 1;   // step 2 gives self-intersecting stars
    for(int i=0; i<n; ++i) {
        long double a = a0 + 2*std::numbers::pi_v<long double>*((i*step)%n + (step == 2 && n%2 == 0 && i >= n/2 ? 1 : 0))/n;
        long double rr = R*(0.35L + 0.65L*(r.below(1000)/1000.0L));
        i64 x = (i64)std::llround(cx+rr*std::cos(a)), y = (i64)std::llround(cy+rr*std::sin(a));
        l.push_back({std::clamp(x,g.lo,g.hi),std::clamp(y,g.lo,g.hi)});
    }
    if(r.chance(1,3)) std::reverse(l.begin(),l.end());
    return l;
}
inline std::vector<Loop> gen_rings(Rng &r,const GenCfg &g) {
    std::vector<Loop> o;
    i64 x1=even_in(r,g.lo,(g.lo+g.hi)/2,g.unit), y1=even_in(r,g.lo,(g.lo+g.hi)/2,g.unit);
    i64 x2=even_in(r,(g.lo+g.hi)/2,g.hi,g.unit), y2=even_in(r,(g.lo+g.hi)/2,g.hi,g.unit);
    bool cw = !r.chance(1,6);
    for(int i=0; i<8 && x2-x1 >= g.unit && y2-y1 >= g.unit; ++i) {
        o.push_back(rect(x1,y1,x2,y2,cw));
        rotate_start(r,o.back());
        if(r.chance(3,4)) cw = !cw;
        i64 w = std::max<i64>(g.unit,(x2-x1)/6/g.unit*g.unit), h = std::max<i64>(g.unit,(y2-y1)/6/g.unit*g.unit);
        // some rings touch the enclosing one
        x1 += r.chance(1,6) ? 0 : w; x2 -= r.chance(1,6) ? 0 : w;
        y1 += r.chance(1,6) ? 0 : h; y2 -= r.chance(1,6) ? 0 : h;
        if(r.chance(1,4)) break;
        if(r.chance(1,3) && x2-x1 > 6*g.unit) {
            // split: two siblings
            i64 xm = (x1+x2)/(2*g.unit)*g.unit;
            o.push_back(rect(x1,y1,xm-g.unit*(i64)r.below(2),y2,cw));
            o.push_back(rect(xm,y1,x2,y2,cw));
            rotate_start(r,o.back());
            if(r.chance(1,2)) { x1 = xm+g.unit; x2 -= g.unit; } else { x2 = xm-2*g.unit; x1 += g.unit; }
            y1 += g.unit; y2 -= g.unit;
            cw = !cw;
        }
    }
    return o;
}
inline std::vector<Loop> gen_boxes(Rng &r,const GenCfg &g) {
    std::vector<Loop> o;
    int n = 1 + (int)r.below((u64)std::max(1,g.npts/3));
    for(int i=0; i<n; ++i) {
        i64 x1=even_in(r,g.lo,g.hi,g.unit), x2=even_in(r,g.lo,g.hi,g.unit), y1=even_in(r,g.lo,g.hi,g.unit), y2=even_in(r,g.lo,g.hi,g.unit);
        if(x1 > x2) std::swap(x1,x2);
        if(y1 > y2) std::swap(y1,y2);
        if(!o.empty() && r.chance(1,3)) { auto &q = o[r.below(o.size())]; if(r.chance(1,2)) x1 = q[1].first; else y1 = q[0].second; if(r.chance(1,2)) x2 = q[2].first; if(x1 > x2) std::swap(x1,x2); if(y1 > y2) std::swap(y1,y2); }
        o.push_back(rect(x1,y1,x2,y2,!r.chance(1,4)));
        rotate_start(r,o.back());
        if(r.chance(1,10)) o.push_back(o.back());
    }
    return o;
}
inline Loop gen_sliver(Rng &r,const GenCfg &g) {
    // nearly parallel long lines through a narrow band: rounding keeps creating new intersections
    Loop l;
    int n = std::max(4,g.npts);
    i64 c = r.range(g.lo,g.hi), w = 1 + (i64)r.below(6);
    bool vert = r.chance(1,3);
    for(int i=0; i<n; ++i) {
        i64 u = (i & 1) ? g.hi - (i64)r.below((u64)std::max<i64>(1,(g.hi-g.lo)/8)+1) : g.lo + (i64)r.below((u64)std::max<i64>(1,(g.hi-g.lo)/8)+1);
        if(r.chance(1,5)) u = r.range(g.lo,g.hi);
        i64 v = std::clamp<i64>(c + r.range(-w,w),g.lo,g.hi);
        l.push_back(vert ? Pt{v,u} : Pt{u,v});
    }
    if(r.chance(1,2)) { Pt p{r.range(g.lo,g.hi),r.range(g.lo,g.hi)}; l.push_back(p); }
    return l;
}
inline Loop gen_comb(Rng &r,const GenCfg &g) {
    Loop l;
    int teeth = std::max(2,g.npts/2);
    i64 w = std::max<i64>(g.unit,(g.hi-g.lo)/(2*teeth)/g.unit*g.unit);
    i64 x = even_in(r,g.lo,std::max(g.lo,g.hi-2*teeth*w),g.unit), yt = even_in(r,g.lo,g.hi,g.unit), yb = even_in(r,g.lo,g.hi,g.unit), yc = even_in(r,g.lo,g.hi,g.unit);
    l.push_back({x,yc});
    for(int i=0; i<teeth && x+2*w<=g.hi; ++i) {
        l.push_back({x,yt}); l.push_back({x+w,yt}); l.push_back({x+w,yb}); x += 2*w; l.push_back({x,yb});
        if(r.chance(1,5)) yb = even_in(r,g.lo,g.hi,g.unit);
        if(r.chance(1,5)) yt = even_in(r,g.lo,g.hi,g.unit);
    }
    l.push_back({x,yc});
    Loop o;
    for(size_t i=0; i<l.size(); ++i) {
        o.push_back(l[i]);
        auto &n2 = l[(i+1)%l.size()];
        if(l[i].first != n2.first && l[i].second != n2.second) o.push_back({n2.first,l[i].second});
    }
    if(r.chance(1,2)) std::reverse(o.begin(),o.end());
    return o;
}
inline Loop gen_degen(Rng &r,const GenCfg &g) {
    Loop l;
    auto rp = [&]{ return Pt{even_in(r,g.lo,g.hi,g.unit),even_in(r,g.lo,g.hi,g.unit)}; };
    switch(r.below(7)) {
    case 0: return {};
    case 1: return {rp()};
    case 2: return {rp(),rp()};
    case 3: { Pt p = rp(); int n = 1+(int)r.below(4); for(int i=0; i<n; ++i) l.push_back(p); if(r.chance(1,2)) l.push_back(rp()); return l; }
    case 4: { // zero-area back-and-forth
        Pt a = rp(); i64 y = a.second; int n = 3+(int)r.below(4);
        for(int i=0; i<n; ++i) l.push_back({even_in(r,g.lo,g.hi,g.unit),y});
        return l; }
    case 5: { // spike on a box
        i64 x1=even_in(r,g.lo,g.hi,g.unit), x2=even_in(r,g.lo,g.hi,g.unit), y1=even_in(r,g.lo,g.hi,g.unit), y2=even_in(r,g.lo,g.hi,g.unit);
        l = rect(x1,y1,x2,y2,true);
        Pt q{even_in(r,g.lo,g.hi,g.unit),l[0].second};
        l.insert(l.begin(),{l[0],q});
        return l; }
    default: { Pt a = rp(), b = rp(); return {a,b,a}; }
    }
}
inline Loop gen_gridtri(Rng &r,const GenCfg &g) {
    // tiny grids: many coincidences
    i64 k = 1 + (i64)r.below(3);
    Loop l;
    int n = std::max(3,g.npts);
    i64 cells = std::min<i64>(6,std::max<i64>(1,(g.hi-g.lo)/k));
    for(int i=0; i<n; ++i) l.push_back({g.lo+k*(i64)r.below((u64)cells+1),g.lo+k*(i64)r.below((u64)cells+1)});
    return l;
}
inline std::vector<Loop> gen_shared(Rng &r,const GenCfg &g) {
    // chains of loops sharing vertices or whole edges
    std::vector<Loop> o;
    i64 w = std::max<i64>(g.unit,(g.hi-g.lo)/8/g.unit*g.unit);
    i64 x = even_in(r,g.lo,(g.lo+g.hi)/2,g.unit), y = even_in(r,g.lo,(g.lo+g.hi)/2,g.unit);
    int n = 2+(int)r.below(4);
    for(int i=0; i<n; ++i) {
        if(x+w > g.hi || y+w > g.hi) break;
        o.push_back(rect(x,y,x+w,y+w,!r.chance(1,5)));
        rotate_start(r,o.back());
        if(r.chance(1,3)) { Pt c = o.back()[2]; o.back() = Loop{o.back()[0],o.back()[1],c}; if(cross3(o.back()[0],o.back()[1],o.back()[2]) == 0) o.back().push_back({x,y+w}); }
        switch(r.below(4)) {
        case 0: x += w; break;
        case 1: y += w; break;
        case 2: x += w; y += w; break;
        default: x += w; y += (i64)r.below((u64)(w/g.unit)+1)*g.unit; break;
        }
    }
    return o;
}

// many lines through a few common points
inline std::vector<Loop> gen_spokes(Rng &r,const GenCfg &g) {
    std::vector<Loop> o;
    int loops = 1 + (int)r.below(2);
    i64 half = std::max<i64>(1,(g.hi-g.lo)/2);
    Pt c{g.lo+half,g.lo+half};
    for(int k=0; k<loops; ++k) {
        if(r.chance(1,3)) c = {r.range(g.lo+half/2,g.hi-half/2),r.range(g.lo+half/2,g.hi-half/2)};
        i64 m = std::max<i64>(1,std::min({c.first-g.lo,g.hi-c.first,c.second-g.lo,g.hi-c.second}));
        Loop l;
        int n = std::max(2,g.npts/2) * (r.chance(1,10) ? 4 : 1);
        for(int i=0; i<n; ++i) {
            i64 dx = r.range(-m,m), dy = r.range(-m,m);
            i64 t = r.chance(1,3) ? r.range(1,2) : 1;      // unequal arms still pass through the centre
            l.push_back({c.first+dx,c.second+dy});
            l.push_back({c.first-dx/t*1,c.second-dy/t*1});
            if(t == 2 && (dx % 2 || dy % 2)) l.back() = {c.first-dx,c.second-dy};
        }
        o.push_back(l);
    }
    return o;
}

// dirty a clean loop with duplicates in ways that must not matter
inline Loop add_duplicates(Rng &r,Loop l,int density) {
    Loop o;
    for(auto &p : l) { o.push_back(p); while((int)r.below(100) < density) o.push_back(p); }
    if(!l.empty() && (int)r.below(100) < density) { o.push_back(l[0]); while((int)r.below(100) < density) o.push_back(l[0]); }
    return o;
}

inline std::vector<Loop> gen_shapes(Rng &r,GenCfg g) {
    switch(g.family) {
    case SF_RECTI: return {gen_recti(r,g)};
    case SF_OCTI: return {gen_octi(r,g)};
    case SF_STAR: return {gen_star(r,g)};
    case SF_RINGS: return gen_rings(r,g);
    case SF_BOXES: return gen_boxes(r,g);
    case SF_SLIVER: return {gen_sliver(r,g)};
    case SF_COMB: return {gen_comb(r,g)};
    case SF_DEGEN: return {gen_degen(r,g)};
    case SF_GRIDTRI: return {gen_gridtri(r,g)};
    case SF_SHARED: return gen_shared(r,g);
    case SF_SPOKES: return gen_spokes(r,g);
    default: return {gen_random(r,g)};
    }
}
inline bool family_grid(int f) { return f == SF_RECTI || f == SF_OCTI || f == SF_RINGS || f == SF_BOXES || f == SF_COMB || f == SF_DEGEN; }

} // namespace sim
