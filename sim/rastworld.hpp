// Simulated world around the real rasterizer.
#pragma once
#include "clipworld.hpp"
namespace sim {

struct Span { i64 x1,x2,y,w; bool operator==(const Span&) const = default; };

// exact reference: lines crossing rows, as rationals
struct RLine { i64 xa,ya,xb,yb; int dir; };
inline std::vector<RLine> rlines(const std::vector<Loop> &ls) {
    std::vector<RLine> r;
    for(auto &l : ls) for(size_t i=0; i<l.size(); ++i) {
        Pt a = l[i], b = l[(i+1)%l.size()];
        if(a.second == b.second) continue;
        if(a.second < b.second) r.push_back({a.first,a.second,b.first,b.second,1});
        else r.push_back({b.first,b.second,a.first,a.second,-1});
    }
    return r;
}
inline i64 intercept_trunc(const RLine &l,i64 y,i64 lo,i64 hi) {
    i128 num = (i128)l.xa*(l.yb-y) + (i128)l.xb*(y-l.ya), den = l.yb-l.ya;
    i128 q = num/den;   // truncates toward zero; below zero everything clamps anyway
    if(q < lo) return lo;
    if(q > hi) return hi;
    return (i64)q;
}

template<typename Coord> class RastWorld {
public:
    using P = poly_ops::point_t<Coord>;
    using R = poly_ops::draw::rasterizer<Coord>;
    using S = poly_ops::draw::scan_line_sweep_state<Coord>;
    VSink &vs; Stats &st; const Plan &plan;
    Hash hist; bool verbose = false; std::vector<std::string> log;
    u64 nontrivial = 0;
    struct Inst {
        std::unique_ptr<R> r;
        std::unique_ptr<S> s;
        std::vector<Loop> model;
        bool tainted = false, ran = false;
        int w = 0, h = 0;
        std::vector<Span> got;     // spans of the scan in progress
        bool complete = false;
    };
    std::map<int,Inst> inst;
    RastWorld(VSink &v,Stats &s,const Plan &p) : vs(v), st(s), plan(p) {}
    void V(const std::string &k,const std::string &m) { vs.viol("C13",k,m); }
    Inst &get(int i) {
        Inst &n = inst[i];
        if(!n.r) { Sut s; n.r = std::make_unique<R>(); }
        return n;
    }
    static std::vector<P> conv(const Loop &l) { std::vector<P> v; for(auto &p : l) v.push_back(P{(Coord)p.first,(Coord)p.second}); return v; }

    enum Oc { OK, OOM, USER, OTHER };
    template<typename F> Oc guarded(const Op &op,F &&f) {
        tls->fault = Fault{};
        tls->fault.kind = (int)op.get("fk"); tls->fault.at = op.get("fa"); tls->fault.count = op.get("fc",1);
        tls->fault.rng = Rng(mix((u64)plan.get("seed",1),(u64)op.get("fs",5)));
        Oc oc = OK; std::string other, ok = "unexpected_exception"; bool bad = false;
        int kind = tls->fault.kind; i64 at = tls->fault.at;
        try { f(); }
        catch(const Injected &e) { oc = USER; bad = !(kind == F_ITER || kind == F_FILL) || e.id != (u64)at; }
        catch(const std::bad_alloc&) { oc = OOM; }
        catch(const AssertFailed &e) { oc = OTHER; other = "internal consistency check failed: " + e.what; ok = "assertion"; }
        catch(const StepCap&) { oc = OTHER; other = "row bound exceeded"; ok = "no_progress"; }
        catch(const std::exception &e) { oc = OTHER; other = e.what(); }
        tls->in_sut = 0;
        i64 fired = tls->fault.fired;
        if(kind) { st.inc(std::string("fault_armed_") + fault_name(kind)); if(fired) { ++nontrivial; st.inc(std::string("fault_fired_") + fault_name(kind)); } }
        tls->fault = Fault{};
        if(bad) V("wrong_exception","the exception that arrived is not the one thrown");
        if(oc == OOM && !(kind == F_ALLOC || kind == F_ALLOCP)) { oc = OTHER; other = "std::bad_alloc without an allocation failure"; }
        if(oc == OTHER) V(ok,op.kind + ": " + other);
        if(oc == OK && fired && (kind == F_ITER || kind == F_FILL)) V("swallowed","an exception thrown by caller code did not reach the caller");
        hist.add((u64)oc); hist.add((u64)fired);
        return oc;
    }

    // ---- checks
    void check_spans(const std::vector<Span> &sp,const std::vector<Loop> &model,int w,int h,bool complete,int rule,const char *what) {
        auto L = rlines(model);
        size_t i = 0;
        i64 last_y = -1;
        for(auto &s : sp) {
            if(s.x1 < 0 || s.x2 < s.x1 || s.x2 >= w || s.y < 0 || s.y >= h) return V("bounds",std::string(what) + ": span outside the image or reversed: " + str(s));
            if(s.y < last_y) return V("row_order",std::string(what) + ": rows go back: " + str(s));
            last_y = s.y;
        }
        i64 ylo = h, yhi = 0;
        for(auto &l : L) { ylo = std::min(ylo,l.ya); yhi = std::max(yhi,l.yb); }
        i64 end = complete ? h : (sp.empty() ? 0 : sp.back().y);   // the last row of an unfinished scan is incomplete
        if(!complete && !sp.empty()) end = sp.back().y + 1;
        for(auto &s : sp) if(s.y < ylo || s.y >= yhi) return V("phantom_row",std::string(what) + ": span in a row no line crosses: " + str(s));
        std::vector<std::pair<i64,int>> t;
        for(i64 y=std::max<i64>(0,ylo); y<std::min<i64>(end,yhi); ++y) {
            while(i < sp.size() && sp[i].y < y) ++i;
            size_t j = i;
            while(j < sp.size() && sp[j].y == y) ++j;
            bool partial = !complete && y == end-1;
            t.clear();
            for(auto &l : L) if(l.ya <= y && y < l.yb) t.emplace_back(intercept_trunc(l,y,0,w-1),l.dir);
            std::sort(t.begin(),t.end());
            // no overlaps except at end pixels
            std::vector<Span> row(sp.begin()+(std::ptrdiff_t)i,sp.begin()+(std::ptrdiff_t)j);
            std::sort(row.begin(),row.end(),[](const Span &a,const Span &b) { return std::pair(a.x1,a.x2) < std::pair(b.x1,b.x2); });
            for(size_t k=0; k+1<row.size(); ++k) if(row[k].x2 > row[k+1].x1) return V("overlap",std::string(what) + ": spans overlap: " + str(row[k]) + " and " + str(row[k+1]));
            for(auto &s : row) {
                if(s.w == 0) return V("zero_span",std::string(what) + ": span with winding zero: " + str(s));
                if(rule >= 0 && !fills(rule,s.w)) return V("rule",std::string(what) + ": span drawn against the fill rule");
            }
            // exact winding of every pixel no line passes through
            std::vector<long> wn((size_t)w,0); std::vector<char> blocked((size_t)w,0);
            for(auto &[x,d] : t) blocked[(size_t)x] = 1;
            { long acc = 0; size_t q = t.size(); for(i64 x=w-1; x>=0; --x) { while(q > 0 && t[q-1].first > x) acc += t[--q].second; wn[(size_t)x] = acc; } }
            std::vector<int> cover((size_t)w,0); std::vector<i64> got((size_t)w,0);
            for(auto &s : row) for(i64 x=s.x1; x<=s.x2; ++x) { ++cover[(size_t)x]; got[(size_t)x] = s.w; }
            for(i64 x=0; x<w; ++x) if(!blocked[(size_t)x]) {
                long expect = wn[(size_t)x];
                if(rule >= 0 && !fills(rule,expect)) expect = 0;
                if(partial && !cover[(size_t)x]) continue;
                if(cover[(size_t)x] > 1 || got[(size_t)x] != expect) {
                    std::ostringstream o;
                    o << what << ": pixel " << x << ',' << y << " reported " << cover[(size_t)x] << " times with winding " << got[(size_t)x] << ", exact winding " << wn[(size_t)x];
                    return V("winding",o.str());
                }
                st.n["pixels_checked"]++;
            }
            i = j;
            st.n["rows_checked"]++;
        }
    }
    static bool fills(int rule,i64 w) {
        switch(rule) { case 0: return w != 0; case 1: return w % 2 != 0; case 2: return w > 0; default: return w < 0; }
    }
    static std::string str(const Span &s) { std::ostringstream o; o << '[' << s.x1 << ',' << s.x2 << "] row " << s.y << " winding " << s.w; return o.str(); }
    void hash_span(const Span &s) { hist.add((u64)s.x1); hist.add((u64)s.x2); hist.add((u64)s.y); hist.add((u64)s.w); }

    std::vector<Span> fresh_scan(const std::vector<Loop> &model,int w,int h) {
        std::vector<Span> out;
        Sut s;
        R r;
        for(auto &l : model) { std::vector<P> v; { User u; v = conv(l); } r.add_loops(v); }
        auto state = r.scan_lines((unsigned)w,(unsigned)h);
        poly_ops::draw::scan_line sc;
        while(state(r,sc)) { User u; out.push_back({(i64)sc.x1,(i64)sc.x2,(i64)sc.y,(i64)sc.winding}); if(out.size() > 2000000) throw StepCap{}; }
        return out;
    }

    bool fresh(const std::vector<Loop> &model,int w,int h,std::vector<Span> &out) {
        Op op{"fresh scan",{},{}};
        return guarded(op,[&]{ out = fresh_scan(model,w,h); }) == OK;
    }
    void apply(const Op &op) {
        hist.add(op.kind); st.inc("op_" + op.kind);
        Inst &n = get((int)op.get("i"));
        using poly_ops::draw::fill_rule_t;
        if(op.kind == "add") {
            if(n.ran) { n.model.clear(); n.ran = false; n.tainted = false; }
            n.s.reset();
            int route = (int)op.get("r");
            auto oc = guarded(op,[&]{
                const Loop &l = op.pts;
                switch(route) {
                case 1: {
                    auto v = conv(l);
                    Sut g;
                    auto sink = n.r->add_loop();
                    for(auto &p : v) { { User u; yield_point(); if(tls->fault.hit(F_ITER)) throw Injected{(u64)tls->fault.at}; } sink(p); }
                    break; }
                case 2: { SimRange<Coord> r{&l}; Sut g; n.r->add_loops(r); break; }
                case 3: { std::vector<std::vector<P>> v{conv(l)}; Sut g; n.r->add_loops(v); break; }
                case 4: { std::vector<const Loop*> v{&l}; SimRangeRange<Coord> r{&v}; Sut g; n.r->add_loops(r); break; }
                default: { auto v = conv(l); Sut g; n.r->add_loops(v); }
                }
            });
            if(oc == OK) n.model.push_back(op.pts); else n.tainted = true;
        } else if(op.kind == "clear") {
            n.s.reset();
            guarded(op,[&]{ Sut g; n.r->clear(); });
            n.model.clear(); n.ran = false; n.tainted = false;
        } else if(op.kind == "new") {
            n.s.reset();
            { Sut g; n.r.reset(); }
            inst.erase((int)op.get("i"));
        } else if(op.kind == "move") {
            n.s.reset();
            Sut g;
            auto q = std::make_unique<R>(std::move(*n.r));
            n.r = std::move(q);
        } else if(op.kind == "scan" || op.kind == "resume") {
            if(op.kind == "resume" && (!n.s || n.complete)) return;
            i64 limit = op.get("n",-1);
            auto oc = guarded(op,[&]{
                if(op.kind == "scan") {
                    n.s.reset();
                    n.got.clear(); n.complete = false; n.w = (int)op.get("w",8); n.h = (int)op.get("h",8);
                    n.ran = true;
                    void *mem = ::operator new(sizeof(S));   // the simulator's own allocation
                    try { Sut g; new(mem) S(n.r->scan_lines((unsigned)n.w,(unsigned)n.h)); }
                    catch(...) { tls->in_sut = 0; ::operator delete(mem); throw; }
                    n.s.reset((S*)mem);
                }
                poly_ops::draw::scan_line sc;
                for(i64 k=0; limit < 0 || k < limit; ++k) {
                    bool more;
                    { Sut g; more = (*n.s)(*n.r,sc); }
                    if(!more) { n.complete = true; break; }
                    n.got.push_back({(i64)sc.x1,(i64)sc.x2,(i64)sc.y,(i64)sc.winding});
                    if(n.got.size() > 2000000) throw StepCap{};
                }
                if(n.complete) { // a finished scan stays finished
                    Sut g;
                    if((*n.s)(*n.r,sc)) { User u; V("after_end","a finished scan reported another span"); }
                }
            });
            if(oc != OK) { n.s.reset(); n.tainted = n.tainted || oc == OTHER; n.complete = false; hist.add(n.got.size()); return; }
            for(auto &s : n.got) hash_span(s);
            if(n.tainted) return;
            check_spans(n.got,n.model,n.w,n.h,n.complete,-1,"scan");
            std::vector<Span> ref;
            if(!fresh(n.model,n.w,n.h,ref)) return;
            bool same = n.complete ? ref == n.got : n.got.size() <= ref.size() && std::equal(n.got.begin(),n.got.end(),ref.begin());
            if(!same) V("reuse","a suspended or repeated scan differs from one uninterrupted scan of a new object");
            st.inc("scans"); if(!n.got.empty()) ++nontrivial;
            if(verbose) log.push_back("scan " + std::to_string(n.got.size()) + " spans" + (n.complete ? "" : " (suspended)"));
        } else if(op.kind == "draw") {
            std::vector<Span> got;
            int w = (int)op.get("w",8), h = (int)op.get("h",8), rule = (int)op.get("rule",0);
            { Sut g; n.s.reset(); }
            n.ran = true;
            auto oc = guarded(op,[&]{
                Sut g;
                auto cb = [&](unsigned a,unsigned b,unsigned y) {
                    User u;
                    yield_point();
                    if(tls->fault.hit(F_FILL)) throw Injected{(u64)tls->fault.at};
                    got.push_back({(i64)a,(i64)b,(i64)y,rule == 3 ? -1 : 1});
                    if(got.size() > 2000000) throw StepCap{};
                };
                if(op.get("defrule")) { rule = 0; n.r->draw((unsigned)w,(unsigned)h,cb); }
                else n.r->draw((unsigned)w,(unsigned)h,cb,(fill_rule_t)rule);
            });
            for(auto &s : got) hash_span(s);
            if(oc != OK) { n.tainted = n.tainted || oc == OTHER; return; }
            if(n.tainted) return;
            std::vector<Span> ref;
            if(!fresh(n.model,w,h,ref)) return;
            check_spans(ref,n.model,w,h,true,-1,"scan");
            std::vector<Span> exp;
            for(auto &s : ref) if(fills(rule,s.w)) exp.push_back({s.x1,s.x2,s.y,rule == 3 ? -1 : 1});
            if(exp != got) V("draw_rule","draw() did not fill exactly the spans its fill rule selects");
            st.inc("draws"); if(!got.empty()) ++nontrivial;
            if(verbose) log.push_back("draw " + std::to_string(got.size()) + " spans");
        }
    }
    void run() {
        for(auto &op : plan.ops) apply(op);
        for(auto &[i,n] : inst) { Sut s; n.s.reset(); n.r.reset(); }
        inst.clear();
    }
};

} // namespace sim
