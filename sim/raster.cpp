// polysim-raster: deterministic simulation of the rasterizer
#include "rastworld.hpp"
#include "newheap.hpp"
#include "driver.hpp"

namespace {
struct RPlanner {
    Rng r;
    Plan p;
    i64 cmax;
    RPlanner(u64 seed) : r(seed), cmax((i64)1 << std::min<int>(sizeof(Coord)*8-3,40)) {}
    Op &op(const char *k,int i) { p.ops.push_back(Op{k,{},{}}); if(i) p.ops.back().a["i"] = i; return p.ops.back(); }
    Plan make() {
        p.cfg["seed"] = (i64)(r.next() >> 2);
        p.cfg["heapfill"] = (i64)r.below(4);
        int ninst = r.chance(1,4) ? 2 : 1;
        const std::vector<int> ALL = {SF_RANDOM,SF_RECTI,SF_OCTI,SF_STAR,SF_RINGS,SF_BOXES,SF_SLIVER,SF_COMB,SF_DEGEN,SF_GRIDTRI,SF_SHARED,SF_SPOKES};
        std::vector<int> fams;
        for(int f : ALL) if(r.chance(1,2)) fams.push_back(f);
        if(fams.empty()) fams = ALL;
        struct B { i64 lo,hi,unit; };
        B b = r.pick(std::vector<B>{{0,8,1},{0,16,2},{0,30,2},{-8,8,1},{-20,60,4},{0,100,4},{-100,200,10},{0,5,1},{0,40,1}});
        bool stretch = r.chance(1,8);        // long lines through and beyond the image
        i64 sx = stretch ? 1 + (i64)r.below((u64)std::max<i64>(1,cmax/400)) : 1;
        GenCfg g; g.lo = b.lo; g.hi = b.hi; g.unit = b.unit;
        int dup = r.chance(1,3) ? 10 + (int)r.below(30) : 0;
        bool faults = r.chance(1,2);
        auto add = [&](int i) {
            g.family = r.pick(fams);
            g.npts = 3 + (int)r.below(r.chance(1,6) ? 20 : 8);
            auto v = gen_shapes(r,g);
            for(auto &l : v) {
                if(l.size() > 60) l.resize(60);
                Loop q = dup ? add_duplicates(r,l,dup) : l;
                if(sx > 1) for(auto &pt : q) pt.first = std::clamp<i64>(pt.first*sx,-cmax,cmax);
                Op &o = op("add",i);
                o.a["r"] = (i64)r.below(5);
                o.pts = q;
                if(faults && r.chance(1,10)) fault(o,true);
            }
        };
        int rounds = 1 + (int)r.below(5);
        for(int k=0; k<rounds; ++k) {
            int i = (int)r.below((u64)ninst);
            int na = 1 + (int)r.below(3);
            if(k == 0 || r.chance(2,3)) for(int z=0; z<na; ++z) add(i);
            int nx = 1 + (int)r.below(4);
            for(int z=0; z<nx; ++z) {
                int what = (int)r.below(10);
                int i2 = r.chance(1,4) ? (int)r.below((u64)ninst) : i;
                if(what < 4) { Op &o = op("draw",i2); size(o,b.hi); if(r.chance(1,5)) o.a["defrule"] = 1; else o.a["rule"] = (i64)r.below(4); if(faults && r.chance(1,3)) fault(o,false); }
                else if(what < 7) { Op &o = op("scan",i2); size(o,b.hi); if(r.chance(2,3)) o.a["n"] = (i64)r.below(12); if(faults && r.chance(1,4)) { o.a["fk"] = 1; o.a["fa"] = (i64)r.below(12); } }
                else if(what < 9) { Op &o = op("resume",i2); if(r.chance(1,2)) o.a["n"] = (i64)r.below(12); if(faults && r.chance(1,5)) { o.a["fk"] = 1; o.a["fa"] = (i64)r.below(4); } }
                else if(r.chance(1,3)) op("move",i2);
                else if(r.chance(1,2)) op("clear",i2);
                else op("new",i2);
            }
        }
        return p;
    }
    void size(Op &o,i64 hi) {
        i64 m = std::min<i64>(hi+hi/2+2,200);
        o.a["w"] = 1 + (i64)r.below((u64)m); o.a["h"] = (i64)r.below((u64)m+1);
        if(r.chance(1,2)) { o.a["w"] = m; o.a["h"] = m; }
    }
    void fault(Op &o,bool add) {
        int k = (int)r.below(3);
        if(k == 0) { o.a["fk"] = add ? F_ITER : F_FILL; o.a["fa"] = (i64)r.below(8); if(add && (o.get("r") == 0 || o.get("r") == 3)) o.a["r"] = 1 + (i64)r.below(2); }
        else if(k == 1) { o.a["fk"] = F_ALLOC; o.a["fa"] = (i64)r.below(10); if(r.chance(1,3)) o.a["fc"] = (i64)r.below(3); }
        else { o.a["fk"] = F_ALLOCP; o.a["fa"] = (i64)r.below(6); o.a["fs"] = (i64)r.below(100000); }
    }
};

Result once(const Plan &p,std::set<std::string> *want,Stats &st,bool verbose,int fill) {
    (void)want;
    Collector col;
    Result r;
    TaskCtx ctx; ctx.new_faults = true;
    tls = &ctx;
    i64 live0 = new_live;
    new_fill = fill; new_fill_state = (u64)p.get("seed",1) + (u64)fill*77;
    {
        RastWorld<Coord> w(col,st,p);
        w.verbose = verbose;
        w.run();
        r.hash = w.hist.h; r.nontrivial = w.nontrivial;
        if(verbose) for(auto &l : w.log) std::cerr << l << '\n';
    }
    if(new_live != live0) col.viol("C13","leak",std::to_string(new_live-live0) + " blocks never freed");
    new_live = live0;
    tls = nullptr;
    r.v = col.v;
    return r;
}
}

Result run_plan(const Plan &p,std::set<std::string> *want,Stats &st,bool verbose) {
    arm_cpu(20);
    int f = (int)p.get("heapfill");
    Result r = once(p,want,st,verbose,f);
    if(r.v.empty()) {
        Stats d;
        Result q = once(p,want,d,false,(f+1)%4);
        if(q.hash != r.hash) r.v.push_back({"C13","content_dependent","the same calls behaved differently under different memory contents"});
    }
    arm_cpu(0);
    return r;
}

Plan plan_for(const std::string &prop,u64 seed,u64 index) {
    RPlanner pl(mix(mix(seed,index),0x72617374+sizeof(Coord)));
    Plan p = pl.make();
    p.cfg["prop"] = std::stoi(prop.substr(1));
    p.cfg["coord"] = sizeof(Coord)*8;
    p.cfg["index"] = sizeof(Index)*8;
    return p;
}

int main(int argc,char **argv) { return driver_main(argc,argv); }
