// Workload + fault + schedule plans per property. A plan is a pure function of (property, seed, index).
#pragma once
#include <deque>
#include "gen.hpp"
namespace sim {

struct Limits { i64 cmax; };   // |coordinate| bound for the coordinate type

struct Planner {
    Rng r;
    std::string prop;
    Limits lim;
    Plan p;
    GenCfg g;
    std::vector<int> fams;

    Planner(const std::string &prop,u64 seed,Limits lim) : r(seed), prop(prop), lim(lim) {}

    void box(bool region) {
        i64 c = lim.cmax;
        struct B { i64 lo,hi,unit; };
        std::vector<B> bs;
        if(region) bs = {{0,200,16},{-120,120,12},{0,1000,32},{0,3000,64},{-2000,2000,100}};
        else bs = {{0,8,1},{0,16,2},{-8,8,1},{0,40,2},{0,100,4},{-100,100,4},{0,1000,16},{0,5,1}};
        if(r.chance(1,5)) bs.push_back({-c/2,c/2,c/64});
        if(r.chance(1,10)) bs = {{-c/2,c/2,c/64}};
        if(r.chance(1,12)) bs = {{c/2-2000,c/2,64}};
        auto b = r.pick(bs);
        g.lo = std::max(b.lo,-c/2); g.hi = std::min(b.hi,c/2); g.unit = std::max<i64>(1,b.unit);
    }
    // swarm: a random subset of shape families per run
    void swarm(const std::vector<int> &base) {
        fams.clear();
        for(int f : base) if(r.chance(1,2)) fams.push_back(f);
        if(fams.empty()) fams.push_back(base[r.below(base.size())]);
    }
    std::vector<Loop> shapes() {
        g.family = r.pick(fams);
        g.npts = 3 + (int)r.below(r.chance(1,6) ? 24 : 9);
        auto v = gen_shapes(r,g);
        return v;
    }
    Op &op(const std::string &k) { p.ops.push_back(Op{k,{},{}}); return p.ops.back(); }

    int route() { static const int rt[] = {0,1,2,3,4,5,6,7}; return rt[r.below(8)]; }
    void add(int i,int task,const Loop &l,int set,int route,bool join) {
        Op &o = op("add");
        if(i) o.a["i"] = i;
        if(task) o.a["t"] = task;
        o.a["s"] = set; o.a["r"] = route;
        if(join) o.a["join"] = 1;
        o.pts = l;
        given(o,join);
    }
    // a merge history for an origin tracker alone
    Op &merge_history() {
        Op &o = op("hist");
        size_t n = 2 + r.below(r.chance(1,3) ? 80 : 16);
        i64 range = 1 + (i64)r.below(r.chance(1,2) ? 6 : 40);
        for(size_t k=0; k<n; ++k) o.pts.push_back({-1,(i64)r.below((u64)range)});
        size_t m = r.below(n*2);
        int style = (int)r.below(5);
        std::deque<i64> alive;
        for(size_t k=0; k<n; ++k) alive.push_back((i64)k);
        if(style >= 3) m = n;
        for(size_t k=0; k<m; ++k) {
            if(r.chance(1,12)) o.pts.push_back({-2,(i64)r.below(4000)});
            else if(r.chance(1,25)) o.pts.push_back({-1,(i64)r.below((u64)range)});
            else if(r.chance(1,60)) o.pts.push_back({-3,(i64)r.below(40)});
            else if(style == 0) o.pts.push_back({(i64)r.below(n),(i64)r.below(n)});
            else if(style >= 3) { // balanced: sets of like size meet
                if(alive.size() < 2) break;
                size_t q0 = style == 3 ? 0 : r.below(alive.size());
                i64 f = alive[q0]; alive.erase(alive.begin() + (std::ptrdiff_t)q0);
                i64 to;
                if(style == 3) { to = alive.front(); alive.pop_front(); }
                else { size_t q = r.below(alive.size()); to = alive[q]; alive.erase(alive.begin() + (std::ptrdiff_t)q); }
                o.pts.push_back({f,to}); alive.push_back(to);
            }
            else if(style == 1) { size_t c = r.below(n), w = 1 + r.below(4); o.pts.push_back({(i64)c,(i64)(c + w)}); }
            else { size_t h = 1 + r.below(3); o.pts.push_back({(i64)r.below(n),(i64)r.below(h)}); }
        }
        return o;
    }
    // original indices chosen by the caller, repeated ones included
    bool givens = false;
    void given(Op &o,bool join) {
        if(!givens || join || r.chance(1,3)) return;
        o.a["oi"] = r.chance(1,3) ? 2 : 1;
        o.a["ob"] = (i64)(r.chance(1,2) ? r.below(4) : r.below(200));
        if(o.a["oi"] == 1 && r.chance(2,3)) o.a["om"] = 1 + (i64)r.below(12);
    }
    int dupdens = 0;
    void add_group(int i,int task,int set,bool routes=true) {
        auto v = shapes();
        int rt = routes ? route() : 0;
        bool join = v.size() > 1 && r.chance(1,2);
        for(size_t k=0; k<v.size(); ++k) {
            if(v[k].size() > 120) v[k].resize(120);
            Loop l = dupdens ? add_duplicates(r,v[k],dupdens) : v[k];
            add(i,task,l,set,rt,join && k > 0);
        }
    }
    void rounding(Op &o,bool adverse=true) {
        int m = r.chance(2,5) ? RM_FAIR : (int)r.below(RM_COUNT-1)+1;
        if(!adverse) m = RM_FAIR;
        o.a["rm"] = m;
        o.a["rs"] = (i64)(r.next() >> 8);
        if(m != RM_FAIR) o.a["rk"] = (i64)(r.chance(1,3) ? r.below(6) : prop == "C02" ? r.below(24) : r.below(120));
    }
    Op &exec(int i,int task,bool adverse=true) {
        Op &o = op("exec");
        if(i) o.a["i"] = i;
        if(task) o.a["t"] = task;
        o.a["op"] = (i64)r.below(5);
        o.a["tree"] = r.chance(1,2);
        rounding(o,adverse);
        return o;
    }
    void fault_alloc(Op &o) {
        int k = (int)r.below(10);
        if(k < 7) { o.a["fk"] = 1; o.a["fa"] = (i64)(r.chance(1,2) ? r.below(12) : r.below(70)); if(r.chance(1,4)) o.a["fc"] = (i64)r.below(4); }
        else if(k < 9) { o.a["fk"] = 2; o.a["fa"] = (i64)(r.below(2000) << r.below(5)); }
        else { o.a["fk"] = 6; o.a["fa"] = (i64)r.below(30); o.a["fs"] = (i64)r.below(1000000); }
    }
    void fault_user(Op &o,bool trk) {
        bool it = o.kind != "exec" && (!trk || r.chance(1,2));
        if(it) { o.a["fk"] = 3; o.a["fa"] = (i64)(r.chance(1,2) ? r.below(6) : r.below(40)); if(o.get("r") == 0 || o.get("r") == 3 || o.get("r") == 6) o.a["r"] = o.get("join") ? 5 : std::vector<i64>{1,2,4,5,7}[r.below(5)]; }
        else { o.a["fk"] = 4; o.a["fa"] = (i64)(r.chance(1,2) ? r.below(8) : r.below(60)); }
    }
    void offset_op(int i,int task,const Loop &l,int set,bool closed) {
        Op &o = op("off");
        if(i) o.a["i"] = i;
        if(task) o.a["t"] = task;
        o.a["s"] = set;
        static const int rt[] = {0,2,4,6,7};
        o.a["r"] = rt[r.below(5)];
        o.a["closed"] = closed;
        i64 span = std::min<i64>(g.hi-g.lo,2000);
        i64 m = 1 + (i64)r.below((u64)std::max<i64>(2,span*6));
        o.a["mag"] = r.chance(1,3) ? -m : m;
        o.a["arc"] = 1 + (i64)r.below((u64)std::max<i64>(2,span/6));
        o.pts = l;
        given(o,false);
    }

    // ---- simple, correctly oriented regions for offsets
    static void orient(Loop &l,bool cw) { if((area2(l) > 0) != cw) std::reverse(l.begin(),l.end()); }
    Loop star_in(long double cx,long double cy,long double rmin,long double rmax,int n) {
        std::vector<long double> an;
        long double tau = 2*std::numbers::pi_v<long double>;
        bool even = r.chance(1,2);
        for(int i=0; i<n; ++i) an.push_back(even ? tau*i/n : tau*(long double)r.below(100000)/100000);
        std::sort(an.begin(),an.end());
        bool smooth = r.chance(1,3);
        Loop l;
        for(auto a : an) {
            long double R = smooth ? rmax : rmin + (rmax-rmin)*(long double)r.below(1000)/1000;
            Pt q{(i64)std::llround(cx+R*std::cos(a)),(i64)std::llround(cy+R*std::sin(a))};
            if(l.empty() || l.back() != q) l.push_back(q);
        }
        while(l.size() > 1 && l.front() == l.back()) l.pop_back();
        return l;
    }
    std::vector<Loop> off_region(i64 x,i64 y,i64 W) {
        std::vector<Loop> o;
        auto R = [&](i64 a,i64 b) { return r.range(std::min(a,b),std::max(a,b)); };
        switch(r.below(8)) {
        case 0: { i64 w = R(W/20+1,W), h = R(W/20+1,W); o.push_back(rect(x,y,x+w,y+h,true)); break; }
        case 1: { // star-shaped
            Loop l = star_in(x+W/2,y+W/2,(long double)W*(0.05L+0.3L*(long double)r.below(1000)/1000),W/2.0L,3+(int)r.below(r.chance(1,5) ? 40 : 12));
            o.push_back(l); break; }
        case 2: { // histogram or comb
            int n = 2 + (int)r.below(6);
            i64 w = std::max<i64>(2,W/n);
            Loop l{{x,y}};
            i64 h = 0;
            for(int i=0; i<n; ++i) {
                i64 nh = r.chance(1,3) ? R(W/20+1,W/4) : R(W/10+1,W);
                if(nh == h) nh += 1;
                l.push_back({x+i*w,y+nh}); l.push_back({x+(i+1)*w,y+nh}); h = nh;
            }
            l.push_back({x+n*w,y});
            Loop q;
            for(auto &p : l) if(q.empty() || q.back() != p) q.push_back(p);
            o.push_back(q); break; }
        case 3: { // grid of cells with gaps
            int n = 1 + (int)r.below(3), k = 1 + (int)r.below(3);
            i64 c = std::max<i64>(4,W/std::max(n,k)), gap = std::max<i64>(1,c/(2+(i64)r.below(12)));
            for(int i=0; i<n; ++i) for(int j=0; j<k; ++j) if(!r.chance(1,5) || o.empty())
                o.push_back(r.chance(2,3) ? rect(x+i*c,y+j*c,x+(i+1)*c-gap,y+(j+1)*c-gap,true) : Loop{{x+i*c,y+j*c},{x+(i+1)*c-gap,y+j*c+(i64)r.below((u64)(c/3+1))},{x+i*c+(i64)r.below((u64)(c/2+1)),y+(j+1)*c-gap}});
            break; }
        case 4: { // ring: outline with holes of all sizes
            o.push_back(r.chance(1,2) ? rect(x,y,x+W,y+W,true) : star_in(x+W/2,y+W/2,W*0.62L,W*0.7L,5+(int)r.below(20)));
            int n = 1 + (int)r.below(3);
            i64 c = W/(n == 1 ? 1 : 2);
            for(int i=0; i<n; ++i) {
                long double cx = x + (n == 1 ? W/2 : c/2 + (i%2)*c), cy = y + (n == 1 ? W/2 : c/2 + (i/2)*c), hr = (long double)c*(0.02L+0.38L*(long double)r.below(1000)/1000);
                Loop l = star_in(cx,cy,r.chance(1,3) ? hr*0.3L : hr*0.8L,hr,3+(int)r.below(r.chance(1,3) ? 30 : 6));
                if(l.size() < 3) continue;
                orient(l,false);
                o.push_back(l);
                if(r.chance(1,4)) { Loop in = star_in(cx,cy,hr*0.1L,hr*0.2L,3+(int)r.below(5)); orient(in,true); if(in.size() >= 3) o.push_back(in); }
            }
            orient(o[0],true);
            for(auto &l : o) rotate_start(r,l);
            return o; }
        case 5: { // spiral corridor
            int turns = 2 + (int)r.below(4);
            i64 w = std::max<i64>(3,W/(4*turns)), th = std::max<i64>(1,w*(i64)(1+r.below(6))/8);
            std::vector<Pt> c;
            i64 a=x,b=y,L=W;
            c.push_back({a,b});
            static const int D[4][2] = {{1,0},{0,1},{-1,0},{0,-1}};
            for(int i=0; i<turns*2 && L > 2*w; ++i) { a += D[i%4][0]*L; b += D[i%4][1]*L; c.push_back({a,b}); if(i%2) L -= 2*w; else if(i) L -= 0; }
            // thicken towards the inside: offset each leg by th on its right
            Loop out = c, in;
            for(size_t i=0; i<c.size(); ++i) {
                i64 ix=0,iy=0;
                auto add = [&](size_t k) { i64 dx=c[k+1].first-c[k].first, dy=c[k+1].second-c[k].second; ix += dy ? (dy > 0 ? -1 : 1) : 0; iy += dx ? (dx > 0 ? 1 : -1) : 0; };
                if(i > 0) add(i-1);
                if(i+1 < c.size()) add(i);
                in.push_back({c[i].first+ix*th,c[i].second+iy*th});
            }
            std::reverse(in.begin(),in.end());
            out.insert(out.end(),in.begin(),in.end());
            o.push_back(out); break; }
        case 6: { // thin triangle
            o.push_back({{x,y},{x+W,y+R(-W/3,W/3)},{x+R(W/2,W),y+R(-W/3,W/3)}}); break; }
        default: { // L or T
            i64 a = R(W/10+1,W/2), b = R(W/10+1,W/2);
            o.push_back({{x,y},{x+W,y},{x+W,y+b},{x+a,y+b},{x+a,y+W},{x,y+W}}); break; }
        }
        for(auto &l : o) { orient(l,true); rotate_start(r,l); }
        return o;
    }
    Loop off_path(i64 x,i64 y,i64 W) {
        Loop l;
        if(r.chance(1,6)) return {{x,y}};
        int n = 2 + (int)r.below(7);
        Pt q{x + (i64)r.below((u64)W+1),y + (i64)r.below((u64)W+1)};
        for(int i=0; i<n; ++i) {
            l.push_back(q);
            int z = (int)r.below(8);
            if(z == 0 && l.size() > 1) q = l[l.size()-2];                        // straight back
            else if(z == 1 && l.size() > 1 && W <= 40000) { auto &a = l[l.size()-2]; q = {q.first + (a.first-q.first)/2*2,q.second + (a.second-q.second)/2*2}; if(r.chance(1,2)) q = {l.back().first - (a.first-l.back().first),l.back().second - (a.second-l.back().second)}; }
            else if(z == 2) q.first = x + (i64)r.below((u64)W+1);
            else if(z == 3) q.second = y + (i64)r.below((u64)W+1);
            else q = {x + (i64)r.below((u64)W+1),y + (i64)r.below((u64)W+1)};
            if(q == l.back()) q.first += W > 40000 ? W/5 + 1 : 1;   // near-coincident long lines split each other a million times
        }
        return l;
    }
    void offset_world() {
        i64 c = lim.cmax;
        std::vector<i64> Ws = {200,600,2000};
        if(c > 100000) Ws = {200,1000,5000,40000,1000000,c/16};
        int rounds = 1 + (int)r.below(2);
        p.cfg["trk"] = std::vector<i64>{0,0,3,2}[r.below(4)];
        for(int k=0; k<rounds; ++k) {
            i64 W = r.pick(Ws);
            i64 ox = r.range(-W,W/2), oy = r.range(-W,W/2);
            int sets = r.chance(1,4) ? 2 : 1;
            for(int s=0; s<sets; ++s) {
                int set = sets == 1 ? (r.chance(1,6) ? 1 : 0) : s;
                i64 mag16;
                switch(r.below(8)) {
                case 0: mag16 = (i64)r.below(64); break;
                case 1: mag16 = W*16/50 + (i64)r.below(32); break;
                case 2: mag16 = W*16 + (i64)r.below((u64)W*8); break;
                case 3: mag16 = r.chance(1,2) ? 0 : W*16; break;
                default: mag16 = (i64)r.below((u64)(W*16/2)); break;
                }
                if(lim.cmax < 10000) mag16 = std::min<i64>(mag16,1500*16);
                if(W > 40000 && mag16 && mag16 < 128) mag16 += 128;
                bool neg = r.chance(2,5);
                auto par = [&](Op &o,bool closed,i64 m16) {
                    o.a["s"] = set; o.a["closed"] = closed; o.a["mag"] = m16;
                    static const int rt[] = {0,2,4,6,7,1};
                    o.a["r"] = rt[r.below(6)];
                    i64 m = std::max<i64>(1,std::llabs(m16)/16);
                    i64 steps = r.chance(1,6) ? 0 : 3 + (i64)r.below(r.chance(1,6) ? 120 : 24);
                    o.a["arc"] = std::clamp<i64>(steps ? (i64)(6.2832*(double)m/(double)steps) + (i64)r.below(2) : m*(2+(i64)r.below(4)),1,c);
                };
                int dd = r.chance(1,3) ? 5 + (int)r.below(40) : 0;
                auto emit = [&](const std::vector<Loop> &v,bool closed,i64 m16,bool faulty) {
                    i64 arc = 0;
                    for(size_t z=0; z<v.size(); ++z) {
                        Op &o = op("off");
                        o.pts = dd ? add_duplicates(r,v[z],dd) : v[z];
                        par(o,closed,m16);
                        if(z && r.chance(2,3)) o.a["join"] = 1;
                        if(!z) arc = o.a["arc"]; else o.a["arc"] = arc;
                        if(faulty && z == 0) { if(r.chance(1,2)) fault_alloc(o); else fault_user(o,false); }
                    }
                };
                if(r.chance(1,8)) { // a failed attempt, then start over
                    emit(off_region(ox,oy,W),true,neg ? -mag16 : mag16,true);
                    op("reset");
                    set = sets == 1 ? set : s;
                }
                bool region = r.chance(3,4);
                if(region) emit(off_region(ox+(s ? r.range(-W/2,W/2) : 0),oy+(s ? r.range(-W/2,W/2) : 0),W),true,neg ? -mag16 : mag16,false);
                if(!region || (!neg && r.chance(1,4))) {
                    int n = 1 + (int)r.below(3);
                    for(int z=0; z<n; ++z) {
                        i64 m16 = z ? mag16/(1+(i64)r.below(4)) : mag16;
                        m16 = std::max<i64>(W > 40000 ? 128 : 1,m16);
                        Loop l = off_path(ox,oy,W);
                        emit({l},l.size() <= 2 ? r.chance(1,2) : false,region || !neg || r.chance(3,4) ? m16 : -m16,false);
                    }
                }
            }
            Op &e = exec(0,0);
            e.a["op"] = sets == 1 ? (r.chance(2,3) ? 0 : r.chance(1,2) ? 2 : 3) : (i64)r.below(4);
            e.a["mode"] = r.chance(1,3) ? (i64)(1+r.below(2)) : 0;
            if(e.get("rm",0) != RM_FAIR) e.a["rk"] = (i64)r.below(W < 1000 ? 6 : 40);
            if(r.chance(1,3)) op("reset");
        }
    }
    void history(int inst,int task,int rounds,int faults /*0 none,1 alloc,2 user*/,int trk,bool offs,bool modes) {
        for(int k=0; k<rounds; ++k) {
            int groups = 1 + (int)r.below(3);
            for(int q=0; q<groups; ++q) {
                size_t before = p.ops.size();
                if(offs && r.chance(1,4)) { auto v = shapes(); for(auto &l : v) if(l.size() < 40) offset_op(inst,task,l,(int)r.below(2),!r.chance(1,3)); }
                else add_group(inst,task,(int)r.below(2));
                if(faults && r.chance(1,4)) {
                    for(size_t z=before; z<p.ops.size(); ++z) if(!p.ops[z].get("join") && r.chance(1,2)) {
                        if(faults == 1) fault_alloc(p.ops[z]); else fault_user(p.ops[z],trk != 0 && trk != 3);
                        break;
                    }
                }
                if(r.chance(1,10)) { Op &o = op("reset"); if(inst) o.a["i"] = inst; if(task) o.a["t"] = task; }
            }
            Op &e = exec(inst,task);
            if(modes && r.chance(1,3)) e.a["mode"] = 1 + (i64)r.below(2);
            if(faults && r.chance(1,2)) { if(faults == 1) fault_alloc(e); else if(trk && trk != 3) fault_user(e,true); }
            int z = (int)r.below(10);
            auto tag = [&](Op &o) { if(inst) o.a["i"] = inst; if(task) o.a["t"] = task; };
            if(z < 3) tag(op("reset"));
            else if(z == 3) { Op &x = exec(inst,task); (void)x; }   // execute again without input
            else if(z == 4) tag(op("new"));
        }
    }

    // rasterize now and then (properties that compare whole histories)
    void drawing(int inst,int task) {
        Op &o = op("draw");
        if(inst) o.a["i"] = inst;
        if(task) o.a["t"] = task;
        o.a["w"] = 1 + (i64)r.below(60); o.a["h"] = 1 + (i64)r.below(60); o.a["rule"] = (i64)r.below(4); o.a["again"] = (i64)r.below(2);
    }
    void sprinkle_draws() {
        std::vector<Op> in;
        in.swap(p.ops);
        for(auto &o : in) {
            bool d = o.kind == "exec" && r.chance(1,3);
            int i = (int)o.get("i"), t = (int)o.get("t");
            if(d && r.chance(1,2)) { drawing(i,t); d = false; }
            p.ops.push_back(o);
            if(d) drawing(i,t);
        }
    }
    Plan make() {
        p.cfg["seed"] = (i64)(r.next() >> 2);
        if(r.chance(1,2)) { p.cfg["heapfill"] = (i64)r.below(5); p.cfg["heapreuse"] = (i64)r.below(2); p.cfg["heapseed"] = (i64)r.below(1000); }
        const std::vector<int> ALL = {SF_RANDOM,SF_RECTI,SF_OCTI,SF_STAR,SF_RINGS,SF_BOXES,SF_SLIVER,SF_COMB,SF_DEGEN,SF_GRIDTRI,SF_SHARED,SF_SPOKES};
        swarm(ALL);
        if(prop == "C01" || prop == "C04") {
            box(false);
            if(r.chance(1,2)) swarm({SF_RANDOM,SF_SLIVER,SF_STAR,SF_OCTI,SF_GRIDTRI,SF_SPOKES});
            int n = 1 + (int)r.below(4);
            for(int k=0; k<n; ++k) {
                if(r.chance(1,8)) { auto v = shapes(); for(auto &l : v) if(l.size() < 40) offset_op(0,0,l,(int)r.below(2),!r.chance(1,3)); }
                else add_group(0,0,(int)r.below(2),false);
            }
            Op &e = exec(0,0);
            if(prop == "C04" && r.chance(1,3)) { e.a["rm"] = RM_REAL; e.a.erase("rk"); } // the coins of the library's own generator
        } else if(prop == "C02") {
            box(true);
            int n = 1 + (int)r.below(4);
            for(int k=0; k<n; ++k) add_group(0,0,(int)r.below(2),false);
            exec(0,0);
            if(r.chance(1,4)) { n = 1 + (int)r.below(3); for(int k=0; k<n; ++k) add_group(0,0,(int)r.below(2),false); exec(0,0); }
        } else if(prop == "C03") {
            box(r.chance(1,2));
            if(r.chance(2,3)) swarm({SF_RINGS,SF_BOXES,SF_SHARED,SF_COMB,SF_RECTI,SF_OCTI});
            int n = 1 + (int)r.below(4);
            for(int k=0; k<n; ++k) add_group(0,0,(int)r.below(2),false);
            Op &e = exec(0,0);
            if(r.chance(3,4)) e.a["tree"] = 1;
        } else if(prop == "C05") {
            box(false);
            p.cfg["trk"] = (i64)r.below(4);
            if(r.chance(1,4)) dupdens = 20;
            givens = r.chance(1,8);
            if(r.chance(1,8)) fault_alloc(merge_history());
            history(0,0,1+(int)r.below(4),1,(int)p.get("trk"),true,true);
            if(r.chance(1,2)) op("reset");
            add_group(0,0,0); exec(0,0);
        } else if(prop == "C06") {
            box(false);
            p.cfg["trk"] = (i64)r.below(4);
            if(r.chance(1,4)) dupdens = 20;
            givens = r.chance(1,8);
            history(0,0,1+(int)r.below(4),2,(int)p.get("trk"),true,true);
            if(r.chance(1,2)) op("reset");
            add_group(0,0,0); exec(0,0);
        } else if(prop == "C07") {
            box(false);
            p.cfg["trk"] = (i64)r.below(3);
            if(r.chance(2,3)) dupdens = 5 + (int)r.below(40);
            givens = r.chance(1,8);
            history(0,0,2+(int)r.below(6),0,(int)p.get("trk"),r.chance(1,3),true);
        } else if(prop == "C08") {
            box(false);
            int tasks = 2 + (int)r.below(3);
            p.cfg["tasks"] = tasks;
            p.cfg["sched_seed"] = (i64)(r.next() >> 2);
            p.cfg["sched_mode"] = (i64)r.below(3);
            p.cfg["sched_sticky"] = 1 + (i64)r.below(30);
            // preemption between basic blocks: mean distance, and extra ones where code is new to the task
            static const i64 means[] = {20,60,200,1000,5000,50000};
            p.cfg["sched_mean"] = means[r.below(6)];
            if(r.chance(1,2)) p.cfg["sched_rare"] = 1 + (i64)r.below(12);
            for(int t=0; t<tasks; ++t) {
                int trk = (int)r.below(4);
                p.cfg["trk" + std::to_string(t)] = trk;
                int fl = r.chance(1,3) ? 1 + (int)r.below(2) : 0;
                history(t,t,1+(int)r.below(3),fl,trk,r.chance(1,3),true);
            }
            for(auto &o : p.ops) if(o.kind == "exec") { o.a["rm"] = RM_REAL; o.a.erase("rk"); }
            sprinkle_draws();
        } else if(prop == "C09") {
            box(false);
            p.cfg["trk"] = (i64)r.below(4);
            history(0,0,1+(int)r.below(4),r.chance(1,4) ? 1 : 0,(int)p.get("trk"),true,true);
            for(auto &o : p.ops) if(o.kind == "exec" && r.chance(1,2)) { o.a["rm"] = RM_REAL; o.a.erase("rk"); }
            sprinkle_draws();
        } else if(prop == "C10" || prop == "C11") {
            box(r.chance(1,3));
            p.cfg["trk"] = prop == "C10" ? (r.chance(1,2) ? 1 : 2) : (r.chance(1,3) ? 3 : 2);
            if(r.chance(1,3)) dupdens = 10 + (int)r.below(30);
            givens = r.chance(1,3);
            if(prop == "C11" && r.chance(1,3)) { int q = 1 + (int)r.below(4); for(int k=0; k<q; ++k) { Op &o = merge_history(); if(r.chance(1,10)) fault_alloc(o); } }
            history(0,0,1+(int)r.below(3),prop == "C11" && r.chance(1,6) ? 1 : 0,(int)p.get("trk"),r.chance(1,4),prop == "C11");
        } else if(prop == "C12") {
            g.lo = 0; g.hi = 100;
            offset_world();
        } else if(prop == "C18") {
            box(r.chance(1,3));
            p.cfg["trk"] = 0;
            int n = 1 + (int)r.below(3);
            for(int k=0; k<n; ++k) {
                int q = 1 + (int)r.below(4);
                for(int z=0; z<q; ++z) {
                    if(r.chance(1,8)) { auto v = shapes(); for(auto &l : v) if(l.size() < 40) offset_op(0,0,l,(int)r.below(2),!r.chance(1,3)); }
                    else add_group(0,0,(int)r.below(2),false);
                }
                exec(0,0);
            }
        } else if(prop == "C15") {
            box(false);
            p.cfg["trk"] = r.chance(1,2) ? 3 : 0;
            int n = 1 + (int)r.below(4);
            for(int k=0; k<n; ++k) {
                int q = 1 + (int)r.below(2);
                for(int z=0; z<q; ++z) add_group(0,0,(int)r.below(2));
                Op &e = exec(0,0);
                e.a["mode"] = (i64)r.below(3);
                if(r.chance(1,2)) op("churn").a["rs"] = (i64)r.below(1000);
                if(r.chance(1,3)) op("held").a["move"] = r.chance(1,2);
                if(r.chance(1,8)) op("drop");
                if(r.chance(1,3)) op("new");
            }
            op("churn");
        }
        return p;
    }
};

} // namespace sim
