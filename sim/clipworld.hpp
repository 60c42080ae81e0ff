// Simulated world around the real clipper / offset / tracker code.
#pragma once
#include "gen.hpp"

// ---- seams the library already offers, bound to the simulator
#define minstd_rand sim_minstd_rand
#define POLY_OPS_ASSERT(X) ((X) ? (void)0 : ::sim::assertion_failed(#X,__func__))
#define POLY_OPS_DEBUG_ITERATION ::sim::on_step();
#include <poly_ops/poly_ops.hpp>
#include <poly_ops/polydraw.hpp>
#undef minstd_rand

namespace sim {

// ---------------------------------------------------------------- caller-side types
template<typename C> struct UPoint { C a,b; };     // a user point type reached through point_ops

// single-pass caller range; each dereference is a simulated caller action that may fail
template<typename C> struct SimRange {
    const Loop *l;
    struct sentinel {};
    struct iterator {
        using value_type = poly_ops::point_t<C>;
        using difference_type = std::ptrdiff_t;
        using iterator_concept = std::input_iterator_tag;
        const Loop *l = nullptr;
        size_t i = 0;
        poly_ops::point_t<C> operator*() const {
            User u;
            yield_point();
            if(tls && tls->fault.hit(F_ITER)) throw Injected{(u64)tls->fault.at};
            return {(C)(*l)[i].first,(C)(*l)[i].second};
        }
        iterator &operator++() {
            User u;
            if(tls && tls->fault.hit(F_ITER)) throw Injected{(u64)tls->fault.at};
            ++i;
            return *this;
        }
        void operator++(int) { ++*this; }
        friend bool operator==(const iterator &a,sentinel) { return a.i >= a.l->size(); }
    };
    iterator begin() const { return {l,0}; }
    sentinel end() const { return {}; }
};
// bidirectional, common caller range
template<typename C> struct SimBidi {
    const Loop *l;
    struct iterator {
        using value_type = poly_ops::point_t<C>;
        using difference_type = std::ptrdiff_t;
        using iterator_concept = std::bidirectional_iterator_tag;
        using iterator_category = std::input_iterator_tag;
        using reference = poly_ops::point_t<C>;
        using pointer = void;
        const Loop *l = nullptr;
        size_t i = 0;
        poly_ops::point_t<C> operator*() const {
            User u;
            yield_point();
            if(i >= l->size()) fatal(96,"range_overrun","caller range dereferenced past its end");
            if(tls && tls->fault.hit(F_ITER)) throw Injected{(u64)tls->fault.at};
            return {(C)(*l)[i].first,(C)(*l)[i].second};
        }
        iterator &operator++() { ++i; return *this; }
        iterator operator++(int) { auto t = *this; ++i; return t; }
        iterator &operator--() { --i; return *this; }
        iterator operator--(int) { auto t = *this; --i; return t; }
        friend bool operator==(const iterator &a,const iterator &b) { return a.i == b.i; }
    };
    iterator begin() const { return {l,0}; }
    iterator end() const { return {l,l->size()}; }
};
// single-pass range of single-pass ranges
template<typename C> struct SimRangeRange {
    const std::vector<const Loop*> *v;
    struct sentinel {};
    struct iterator {
        using value_type = SimRange<C>;
        using difference_type = std::ptrdiff_t;
        using iterator_concept = std::input_iterator_tag;
        const std::vector<const Loop*> *v = nullptr;
        size_t i = 0;
        SimRange<C> operator*() const {
            User u;
            if(tls && tls->fault.hit(F_ITER)) throw Injected{(u64)tls->fault.at};
            return {(*v)[i]};
        }
        iterator &operator++() { ++i; return *this; }
        void operator++(int) { ++i; }
        friend bool operator==(const iterator &a,sentinel) { return a.i >= a.v->size(); }
    };
    iterator begin() const { return {v,0}; }
    sentinel end() const { return {}; }
};

} // namespace sim

template<typename C> struct poly_ops::point_ops<sim::UPoint<C>> {
    static C get_x(const sim::UPoint<C> &p) {
        sim::User u;
        if(sim::tls && sim::tls->fault.hit(sim::F_ITER)) throw sim::Injected{(sim::u64)sim::tls->fault.at};
        return p.a;
    }
    static C get_y(const sim::UPoint<C> &p) { return p.b; }
};

namespace sim {

struct Out {
    std::vector<Loop> loops;
    std::vector<std::vector<i64>> idx;                    // tracker index of each point (-1 without tracker)
    std::vector<std::vector<std::vector<i64>>> orig;      // reported origins
    std::vector<int> parent, depth;
    bool size_ok = true;
    bool same_points(const Out &o) const { return loops == o.loops && parent == o.parent; }
    void hash(Hash &h) const {
        for(size_t i=0; i<loops.size(); ++i) {
            h.add((u64)loops[i].size());
            h.add((u64)(i64)parent[i]);
            for(auto &p : loops[i]) { h.add((u64)p.first); h.add((u64)p.second); }
            if(i < idx.size()) for(auto v : idx[i]) h.add((u64)v);
            if(i < orig.size()) for(auto &s : orig[i]) for(auto v : s) h.add((u64)v);
        }
    }
    std::string brief() const {
        std::ostringstream o;
        for(size_t i=0; i<loops.size() && i<12; ++i) {
            o << (i ? " | " : "");
            for(size_t j=0; j<loops[i].size() && j<24; ++j) o << loops[i][j].first << ',' << loops[i][j].second << ' ';
        }
        return o.str();
    }
};


template<typename Coord,typename Index> struct TVal { poly_ops::point_t<Coord> p; Index i; };

// reference model of the tracker contract; optionally forwards to the real origin tracker
template<typename Coord,typename Index> struct SimTracker : poly_ops::i_point_tracker<Index> {
    VSink *vs = nullptr;
    std::vector<i64> added;                 // original index of each initially added point
    std::vector<char> discarded;            // per index
    std::vector<std::set<i64>> sets;
    std::optional<poly_ops::origin_point_tracker<Index>> real;
    u64 resets = 0, calls = 0, merges = 0, splits = 0;
    size_t max_set = 0;
    bool quiet = false;                     // protocol not judged (object was left mid-failure)
    bool phase2 = false;                    // splits/merges have begun
    Hash log;

    void err(const char *k,const std::string &m) { if(!quiet) vs->viol("C10",k,m); }
    // a caller's array would be read outside its bounds, which no failure before may lead to
    void range_err(const char *k,const std::string &m) {
        if(!quiet) vs->viol("C10",k,m);
        else for(const char *p : {"C05","C06"}) vs->viol(p,k,m + " (after a failed call)");
    }
    size_t count() const { return discarded.size(); }
    void enter(int kind) {
        ++calls;
        yield_point();
        (void)kind;
        if(tls && tls->fault.hit(F_TRK)) throw Injected{(u64)tls->fault.at};
    }
    void point_added(Index o) override {
        { User u; enter(0); }
        if(real) real->point_added(o);
        User u;
        if(phase2) err("added_late","point_added after splitting began");
        added.push_back((i64)o); discarded.push_back(0); sets.push_back({(i64)o});
        log.add(1); log.add((u64)o);
    }
    void new_point_between(Index a,Index b) override {
        { User u; enter(1); }
        if(real) real->new_point_between(a,b);
        User u;
        phase2 = true; ++splits;
        if((size_t)a >= count() || (size_t)b >= count()) range_err("split_range","new_point_between names a point that does not exist");
        else if(a == b) err("split_same","new_point_between names one point twice");
        discarded.push_back(0); sets.push_back({});
        log.add(2); log.add((u64)a); log.add((u64)b);
    }
    void point_merge(Index f,Index t) override {
        if((size_t)f >= count() || (size_t)t >= count()) {
            User u;
            range_err("merge_range","point_merge names a point that does not exist");
            throw StepCap{};
        }
        { User u; enter(2); }
        if(real) real->point_merge(f,t);
        User u;
        phase2 = true; ++merges;
        if(f == t) err("merge_self","point_merge merges a point into itself");
        if(discarded[f]) err("merge_from_discarded","point_merge discards a point twice");
        if(discarded[t]) err("merge_to_discarded","point_merge merges into a discarded point");
        discarded[f] = 1;
        sets[t].insert(sets[f].begin(),sets[f].end());
        max_set = std::max(max_set,sets[t].size());
        log.add(3); log.add((u64)f); log.add((u64)t);
    }
    void reset() override {
        if(real) real->reset();
        User u;
        ++resets;
        added.clear(); discarded.clear(); sets.clear(); phase2 = false; quiet = false;
        log.add(4);
    }
    poly_ops::i_point_tracker<Index> *callbacks() { return this; }
    TVal<Coord,Index> get_value(Index i,const poly_ops::point_t<Coord> &p) const { return {p,i}; }
};

struct AddRec {
    bool off = false, closed = true;
    int set = 0;
    Loop raw;
    double mag = 0; i64 arc = 1;
    u64 call = 0;
    std::vector<i64> og;       // original index of each input point
    int oi = 0;                // 0: counted by the library, 1: given with each point, 2: counted from a given start
    i64 ob = 0, om = 0;
};

struct HeldBase {
    virtual Out read() = 0;
    virtual std::unique_ptr<HeldBase> move_out() = 0;
    virtual ~HeldBase() = default;
};

template<typename P> struct PV { static auto pt(const P &p) { return p; } };

template<typename Coord,typename Index> class ClipWorld {
public:
    using P = poly_ops::point_t<Coord>;
    using Clip = poly_ops::clipper<Coord,Index>;
    using OT = poly_ops::origin_point_tracker<Index>;
    using TClip = poly_ops::tclipper<Coord,Index,OT>;
    using ST = SimTracker<Coord,Index>;

    VSink &vs;
    Stats &st;
    const Plan &plan;
    std::set<std::string> *want = nullptr;        // property ids being judged (null: all)
    Heap heap, dheap;
    Hash hist;
    std::vector<std::string> log;
    bool verbose = false;
    u64 plan_seed;
    u64 nexec = 0, nontrivial = 0;

    struct Inst {
        int trk = 0;
        std::unique_ptr<Clip> c;
        std::unique_ptr<TClip> tc;
        std::unique_ptr<ST> t;
        std::vector<AddRec> model;
        bool ran = false;              // an execution consumed the input
        bool tainted = false;          // a failure happened since the last reset
        bool had_alloc = false, had_user = false;
        i64 next_orig = 0;
        u64 execs = 0, expected_resets = 0, calls = 0;
        bool offs() const { for(auto &a : model) if(a.off) return true; return false; }
    };
    std::map<int,Inst> inst;
    struct Held { std::unique_ptr<HeldBase> h; Out ref; };
    std::vector<Held> held;

    ClipWorld(VSink &v,Stats &s,const Plan &p) : vs(v), st(s), plan(p) {
        plan_seed = (u64)p.get("seed",1);
        for(Heap *h : {&heap,&dheap}) {
            h->rng = Rng(mix(plan_seed,(u64)p.get("heapseed",0) + (h == &heap ? 11 : 12)));
            h->fill_mode = (int)p.get("heapfill",0);
            h->reuse_mode = (int)p.get("heapreuse",0);
        }
        heap.name = "caller"; dheap.name = "default";
    }
    bool wants(const char *p) const { return !want || want->count(p); }
    void V(const char *p,const std::string &k,const std::string &m) { if(wants(p)) vs.viol(p,k,m); }

    // ------------------------------------------------------------ instance handling
    Inst &get(int i) {
        auto it = inst.find(i);
        if(it == inst.end()) {
            Inst n;
            n.trk = (int)plan.get("trk" + std::to_string(i),plan.get("trk",0));
            it = inst.emplace(i,std::move(n)).first;
        }
        Inst &n = it->second;
        if(!n.c && !n.tc) create(n);
        return n;
    }
    void create(Inst &n) {
        int trk = n.trk;
        n = Inst{};
        n.trk = trk;
        make(n,heap);
    }
    void make(Inst &n,Heap &h) {
        if(n.trk == 3) n.tc = std::make_unique<TClip>(OT(&h),&h);
        else {
            n.c = std::make_unique<Clip>(&h);
            if(n.trk) {
                n.t = std::make_unique<ST>();
                n.t->vs = &tsink;
                tsink.w = this;
                if(n.trk == 2) n.t->real.emplace(&h);
            }
        }
    }
    struct TSink : VSink {
        ClipWorld *w = nullptr;
        void viol(const char *p,const std::string &k,const std::string &m) override { w->V(p,k,m); }
    } tsink;
    void destroy(Inst &n) {
        Sut s;
        n.c.reset(); n.tc.reset(); n.t.reset();
    }
    Clip &base(Inst &n) { return n.tc ? n.tc->base : *n.c; }
    poly_ops::i_point_tracker<Index> *cb(Inst &n) { return n.tc ? n.tc->tracker.callbacks() : n.t ? static_cast<poly_ops::i_point_tracker<Index>*>(n.t.get()) : nullptr; }

    static std::vector<P> conv(const Loop &l) {
        std::vector<P> v;
        v.reserve(l.size());
        for(auto &p : l) v.push_back(P{(Coord)p.first,(Coord)p.second});
        return v;
    }

    // ------------------------------------------------------------ feeding points
    static std::vector<i64> given_origins(const AddRec &a) {
        std::vector<i64> o;
        for(size_t j=0; j<a.raw.size(); ++j) o.push_back(a.ob + (a.om ? (i64)j % a.om : (i64)j));
        return o;
    }
    void feed(Inst &n,const std::vector<const AddRec*> &recs,int route) {
        Clip &c = base(n);
        poly_ops::i_point_tracker<Index> *pt = cb(n);
        if(recs[0]->oi == 2 && (route != 1 || recs.size() > 1)) c.next_orig_i() = (Index)recs[0]->ob;
        poly_ops::bool_set s = recs[0]->set ? poly_ops::bool_set::clip : poly_ops::bool_set::subject;
        auto call = [&](auto &&r) {
            Sut g;
            if(n.tc && route >= 3) {
                if(!(route % 2)) n.tc->add_loops(std::forward<decltype(r)>(r),s);
                else if(recs[0]->set) n.tc->add_loops_clip(std::forward<decltype(r)>(r));
                else n.tc->add_loops_subject(std::forward<decltype(r)>(r));
            }
            else if(recs[0]->set && route % 2) c.add_loops_clip(std::forward<decltype(r)>(r),pt);
            else if(!recs[0]->set && route % 2) c.add_loops_subject(std::forward<decltype(r)>(r),pt);
            else c.add_loops(std::forward<decltype(r)>(r),s,pt);
        };
        if(recs[0]->oi == 1) {
            auto v = conv(recs[0]->raw);
            std::vector<i64> og = given_origins(*recs[0]);
            Sut g;
            auto sink = n.tc ? n.tc->add_loop(s) : c.add_loop(s,pt);
            for(size_t j=0; j<v.size(); ++j) {
                { User u; yield_point(); if(tls->fault.hit(F_ITER)) throw Injected{(u64)tls->fault.at}; }
                sink(v[j],(Index)og[j]);
            }
            return;
        }
        if(recs.size() > 1 || route == 3 || route == 5) {
            if(route == 5) {
                std::vector<const Loop*> v;
                for(auto r : recs) v.push_back(&r->raw);
                SimRangeRange<Coord> rr{&v};
                call(rr);
            } else {
                std::vector<std::vector<P>> v;
                for(auto r : recs) v.push_back(conv(r->raw));
                call(v);
            }
            return;
        }
        const Loop &l = recs[0]->raw;
        switch(route) {
        case 1: {
            auto v = conv(l);
            Sut g;
            auto sink = n.tc ? n.tc->add_loop(s) : c.add_loop(s,pt);
            if(recs[0]->oi == 2) sink.next_orig_i() = (Index)recs[0]->ob;
            for(auto &p : v) {
                { User u; yield_point(); if(tls->fault.hit(F_ITER)) throw Injected{(u64)tls->fault.at}; }
                sink(p);
            }
            break; }
        case 2: { SimRange<Coord> r{&l}; call(r); break; }
        case 4: {
            std::vector<UPoint<Coord>> v;
            for(auto &p : l) v.push_back({(Coord)p.first,(Coord)p.second});
            call(v);
            break; }
        case 6: {
            std::list<P> v;
            for(auto &p : l) v.push_back(P{(Coord)p.first,(Coord)p.second});
            call(v);
            break; }
        case 7: { SimBidi<Coord> r{&l}; call(r); break; }
        default: { auto v = conv(l); call(v); }
        }
    }
    void feed_off(Inst &n,const std::vector<const AddRec*> &recs,int route) {
        const AddRec &a = *recs[0];
        if(a.oi == 2) base(n).next_orig_i() = (Index)a.ob;
        poly_ops::bool_set s = a.set ? poly_ops::bool_set::clip : poly_ops::bool_set::subject;
        auto call = [&](auto &&r) {
            using R = decltype(r);
            Sut g;
            // the convenience forms take no tracker, so they are only used where there is none or it's built in
            if(route >= 4 && n.tc) {
                if(a.set) poly_ops::add_offset_clip(*n.tc,std::forward<R>(r),a.mag,(Coord)a.arc,a.closed);
                else poly_ops::add_offset_subject(*n.tc,std::forward<R>(r),a.mag,(Coord)a.arc,a.closed);
            } else if(route >= 4 && !n.t) {
                if(a.set) poly_ops::add_offset_clip(*n.c,std::forward<R>(r),a.mag,(Coord)a.arc,a.closed);
                else poly_ops::add_offset_subject(*n.c,std::forward<R>(r),a.mag,(Coord)a.arc,a.closed);
            } else if(n.tc && route >= 2) poly_ops::add_offset(*n.tc,std::forward<R>(r),s,a.mag,(Coord)a.arc,a.closed);
            else poly_ops::add_offset(base(n),std::forward<R>(r),s,a.mag,(Coord)a.arc,a.closed,cb(n));
        };
        if(recs.size() > 1 || route == 3) {
            std::vector<std::vector<P>> v;
            for(auto r : recs) v.push_back(conv(r->raw));
            call(v);
            return;
        }
        switch(route) {
        case 2: { SimRange<Coord> r{&a.raw}; call(r); break; }
        case 7: { SimBidi<Coord> r{&a.raw}; call(r); break; }
        case 4: {
            std::vector<UPoint<Coord>> v;
            for(auto &p : a.raw) v.push_back({(Coord)p.first,(Coord)p.second});
            call(v);
            break; }
        case 6: {
            std::list<P> v;
            for(auto &p : a.raw) v.push_back(P{(Coord)p.first,(Coord)p.second});
            call(v);
            break; }
        default: { auto v = conv(a.raw); call(v); }
        }
    }

    // ------------------------------------------------------------ reading results
    static Pt pt_of(const P &p) { return {(i64)p[0],(i64)p[1]}; }
    template<typename VT> static Pt pt_point(const VT &v) { if constexpr(std::is_same_v<VT,P>) return pt_of(v); else return pt_of(v.p); }
    template<typename LoopR> void read_loop(Out &o,LoopR &&l,int parent,int depth) {
        Loop pts; std::vector<i64> ix; std::vector<std::vector<i64>> og;
        size_t n = 0;
        for(auto nx = l.begin(), it = nx; nx != l.end();) {
            if(++n > 1000000) { o.size_ok = false; break; }
            if(n & 1) it = nx++;
            else { it = nx; ++nx; }
            auto v = *it;
            using VT = decltype(v);
            if constexpr(std::is_same_v<VT,P>) { pts.push_back(pt_of(v)); ix.push_back((i64)it.index()); }
            else if constexpr(requires { v.i; }) { pts.push_back(pt_of(v.p)); ix.push_back((i64)v.i); if(v.i != it.index()) o.size_ok = false; }
            else {
                pts.push_back(pt_of(v.p)); ix.push_back((i64)it.index());
                std::vector<i64> s;
                for(auto q : v.original_points) s.push_back((i64)q);
                og.push_back(std::move(s));
            }
        }
        if((size_t)l.size() != n) o.size_ok = false;
        if((size_t)std::ranges::distance(l.begin(),l.end()) != n) o.size_ok = false;
        o.loops.push_back(std::move(pts)); o.idx.push_back(std::move(ix)); o.orig.push_back(std::move(og));
        o.parent.push_back(parent); o.depth.push_back(depth);
    }
    template<typename R> void read_tree(Out &o,R &&r,int parent,int depth) {
        for(auto &&l : r) {
            int me = (int)o.loops.size();
            read_loop(o,l,parent,depth);
            if(depth < 10000) read_tree(o,l.inner_loops(),me,depth+1);
        }
    }
    template<bool Tree,typename R> Out read(R &r) {
        User u;
        Out o;
        if constexpr(Tree) read_tree(o,r,-1,0);
        else {
            size_t n = 0;
            for(auto &&l : r) { read_loop(o,l,-1,0); ++n; }
            if(r.size() != n) o.size_ok = false;
            // random access must agree with iteration
            for(size_t i=0; i<n; ++i) {
                auto it = r.begin() + (std::ptrdiff_t)i;
                auto l = *it;
                if((size_t)l.size() != o.loops[i].size()) o.size_ok = false;
                if(l.size() && pt_point(*l.begin()) != o.loops[i][0]) o.size_ok = false;
                auto b = r.end() - (std::ptrdiff_t)(n-i), d = it;
                if(!(b == it) || (std::ptrdiff_t)(it - r.begin()) != (std::ptrdiff_t)i || (size_t)r.begin()[(std::ptrdiff_t)i].size() != o.loops[i].size()) o.size_ok = false;
                d++; --d; if(!(d == it)) o.size_ok = false;
                d += (std::ptrdiff_t)(n-i); d -= 1; d--; ++d;
                if(!(d == r.end() - 1) || (i+1 < n && !(it < d)) || (size_t)r[i].size() != o.loops[i].size()) o.size_ok = false;
            }
            if(r.empty() != (n == 0)) o.size_ok = false;
        }
        return o;
    }
    template<bool Tree,typename R> struct HeldT : HeldBase {
        ClipWorld *w; R r;
        HeldT(ClipWorld *w,R &&r) : w(w), r(std::move(r)) {}
        Out read() override { return w->template read<Tree>(r); }
        std::unique_ptr<HeldBase> move_out() override { return std::make_unique<HeldT>(w,std::move(r)); }
    };
    template<bool Tree,typename R> Out hold(R &&r) {
        auto h = std::make_unique<HeldT<Tree,std::remove_cvref_t<R>>>(this,std::move(r));
        Out o = h->read();
        held.push_back(Held{std::move(h),o});
        return o;
    }

    // ------------------------------------------------------------ executing
    enum ExecMode { EM_LVALUE=0, EM_RVALUE=1, EM_FREE=2 };
    template<bool Tree> Out run_exec(Inst &n,poly_ops::bool_op op,int mode,std::vector<AddRec> &recs,Heap &h,bool keep) {
        std::optional<Out> o;
        auto fin = [&](auto &&r) {
            if(keep) { User u; o = hold<Tree>(std::move(r)); }
            else { o = read<Tree>(r); Out o2 = read<Tree>(r); if(!o->same_points(o2)) V("C15","reread","reading a result twice gives different loops"); }
        };
        if(mode == EM_FREE && !recs.empty() && recs[0].off) {
            std::vector<std::vector<P>> v;
            for(auto &a : recs) v.push_back(conv(a.raw));
            std::pmr::memory_resource *mr = &h;
            const AddRec &a = recs[0];
            Sut s;
            if(n.trk == 3) {
                if(v.size() == 1) { auto r = poly_ops::offset<Tree,Coord,Index>(v[0],a.mag,(Coord)a.arc,OT(&h),a.closed,mr); fin(std::move(r)); }
                else { auto r = poly_ops::offset<Tree,Coord,Index>(v,a.mag,(Coord)a.arc,OT(&h),a.closed,mr); fin(std::move(r)); }
            } else {
                if(v.size() == 1) { auto r = poly_ops::offset<Tree,Coord,Index>(v[0],a.mag,(Coord)a.arc,a.closed,mr); fin(std::move(r)); }
                else { auto r = poly_ops::offset<Tree,Coord,Index>(v,a.mag,(Coord)a.arc,a.closed,mr); fin(std::move(r)); }
            }
            return *o;
        }
        if(mode == EM_FREE) {
            std::vector<std::vector<P>> sv, cv;
            for(auto &a : recs) (a.set ? cv : sv).push_back(conv(a.raw));
            bool uni = cv.empty() && op == poly_ops::bool_op::union_, nor = cv.empty() && op == poly_ops::bool_op::normalize;
            std::pmr::memory_resource *mr = &h;
            Sut s;
            if(n.trk == 3) {
                if(uni) { auto r = poly_ops::union_op<Tree,Coord,Index>(sv,OT(&h),mr); fin(std::move(r)); }
                else if(nor) { auto r = poly_ops::normalize_op<Tree,Coord,Index>(sv,OT(&h),mr); fin(std::move(r)); }
                else { auto r = poly_ops::boolean_op<Tree,Coord,Index>(sv,cv,op,OT(&h),mr); fin(std::move(r)); }
            } else {
                if(uni) { auto r = poly_ops::union_op<Tree,Coord,Index>(sv,mr); fin(std::move(r)); }
                else if(nor) { auto r = poly_ops::normalize_op<Tree,Coord,Index>(sv,mr); fin(std::move(r)); }
                else { auto r = poly_ops::boolean_op<Tree,Coord,Index>(sv,cv,op,mr); fin(std::move(r)); }
            }
            return *o;
        }
        Sut s;
        if(n.tc) {
            if(mode == EM_RVALUE) { auto r = std::move(*n.tc).template execute<Tree>(op); fin(std::move(r)); }
            else { auto r = n.tc->template execute<Tree>(op); keep = false; fin(std::move(r)); }
        } else if(n.t) {
            if(mode == EM_RVALUE) { auto r = std::move(*n.c).template execute<Tree,ST&>(op,*n.t); keep = false; fin(std::move(r)); }
            else { auto r = n.c->template execute<Tree,ST&>(op,*n.t); keep = false; fin(std::move(r)); }
        } else {
            if(mode == EM_RVALUE) { auto r = std::move(*n.c).template execute<Tree>(op); fin(std::move(r)); }
            else { auto r = n.c->template execute<Tree>(op); keep = false; fin(std::move(r)); }
        }
        return *o;
    }
    Out run_exec_t(Inst &n,int op,bool tree,int mode,std::vector<AddRec> &recs,Heap &h,bool keep) {
        return tree ? run_exec<true>(n,(poly_ops::bool_op)op,mode,recs,h,keep) : run_exec<false>(n,(poly_ops::bool_op)op,mode,recs,h,keep);
    }
    // could the free function 'offset' do this?
    static bool one_offset_call(const std::vector<AddRec> &m,int op) {
        if(op != 0 || m.empty()) return false;
        for(auto &a : m) if(!a.off || a.set || a.closed != m[0].closed || a.mag != m[0].mag || a.arc != m[0].arc) return false;
        return true;
    }
    static const char *op_name(int op) { static const char *n[] = {"union","intersection","xor","difference","normalize"}; return n[op]; }

    static std::vector<Loop> clean_of(const std::vector<AddRec> &m,int set) {
        std::vector<Loop> r;
        for(auto &a : m) if(!a.off && (set < 0 || a.set == set)) { auto c = clean_loop(a.raw); if(!c.empty()) r.push_back(c); }
        return r;
    }

    u64 cap_for(const std::vector<AddRec> &m,u64 burst) {
        auto s = segs_of(clean_of(m,-1));
        for(auto &a : m) if(a.off) {
            // each input corner may become an arc
            double per = std::abs(a.mag)*6.4/std::max<double>(1,(double)a.arc) + 8;
            for(size_t i=0; i<(size_t)(per*(double)(2*a.raw.size()+2)) && s.size() < 4000; ++i) s.push_back({{0,0},{0,0}});
        }
        u64 n = s.size(), k = 0;
        if(n <= 400) {
            std::vector<u64> deg(n);
            for(size_t i=0; i<n; ++i) for(size_t j=i+1; j<n; ++j) if(seg_conflict(s[i],s[j])) { ++k; ++deg[i]; ++deg[j]; }
            max_degree = n ? *std::max_element(deg.begin(),deg.end()) : 0;
        } else { k = n*n/4; max_degree = n; }
        if(!m.empty() && m[0].off) k = n*n/2;
        work_nk = n + k;
        return 20000 + 1000*(n + k + burst) + 8*n*(k + burst);
    }
    u64 work_nk = 0;
    u64 max_degree = 0;      // most other lines any one input line meets

    // ------------------------------------------------------------ oracles
    bool region_inside(int op,long ws,long wc) const {
        switch(op) {
        case 0: return ws + wc > 0;
        case 1: return ws > 0 && wc > 0;
        case 2: return (ws > 0) != (wc > 0);
        case 3: return ws > 0 && !(wc > 0);
        default: return ((ws + wc) & 1) != 0;
        }
    }
    void check_c01(const Out &o,const char *tag="C01") {
        if(!wants(tag)) return;
        std::string m;
        if(find_conflict(o.loops,m)) V(tag,"crossing",m);
    }
    static long double drift(i64 span) { return 8.0L + (long double)span/(long double)(1ll<<49); }
    void check_c02(const Out &o,const std::vector<AddRec> &m,int op,u64 salt,u64 adverse_coins) {
        if(!wants("C02")) return;
        auto S = clean_of(m,0), C = clean_of(m,1);
        std::vector<Loop> all = S;
        all.insert(all.end(),C.begin(),C.end());
        if(all.empty()) { if(!o.loops.empty()) V("C02","from_nothing","output from empty input"); return; }
        i64 x0=INT64_MAX,x1=INT64_MIN,y0=INT64_MAX,y1=INT64_MIN;
        for(auto &l : all) for(auto &p : l) { x0=std::min(x0,p.first); x1=std::max(x1,p.first); y0=std::min(y0,p.second); y1=std::max(y1,p.second); }
        i64 span = std::max(x1-x0,y1-y0);
        // a line is split once per line it meets; each split moves it by less than a unit either way, so
        // under fair coins its pieces drift like a random walk pinned at both ends
        long double T = drift(span) + 0.6L*std::sqrt((long double)max_degree) + 0.75L*(long double)adverse_coins;
        Rng r(mix(plan_seed,salt));
        i64 mul = 4;
        auto probe = [&](Pt q) {
            long double d = dist_to(all,q,mul,1e30L);
            long ws = winding_of(S,q,mul), wc = winding_of(C,q,mul), wo = winding_of(o.loops,q,mul);
            if(on_any_edge(o.loops,q,mul) || d == 0) return;
            bool in = region_inside(op,ws,wc);
            if(wo != (in ? 1 : 0)) {
                st.mx(adverse_coins ? "c02_max_misclassified_distance_milli_adverse" : "c02_max_misclassified_distance_milli_fair",(u64)(d*1000));
                if(d > T) {
                    std::ostringstream s;
                    s << op_name(op) << ": point (" << (double)q.first/mul << ',' << (double)q.second/mul << ") distance " << (double)d
                      << " from every input line has subject winding " << ws << ", clip winding " << wc << " but output winding " << wo;
                    V("C02","region",s.str());
                }
            }
            if(d > T) st.inc(in ? "c02_probes_inside" : "c02_probes_outside"); else st.inc("c02_probes_near_lines");
        };
        int nr = 24;
        for(int i=0; i<nr; ++i) probe({r.range((x0-4)*mul,(x1+4)*mul),r.range((y0-4)*mul,(y1+4)*mul)});
        auto near = [&](const std::vector<Loop> &ls,size_t budget) {
            auto s = segs_of(ls);
            if(s.empty()) return;
            for(size_t k=0; k<std::min(budget,s.size()); ++k) {
                auto &e = s.size() <= budget ? s[k] : s[r.below(s.size())];
                long double f = (long double)(r.below(999)+1)/1000;
                long double mx = e.a.first + f*(long double)(e.b.first-e.a.first), my = e.a.second + f*(long double)(e.b.second-e.a.second);
                long double dx = (long double)(e.b.first-e.a.first), dy = (long double)(e.b.second-e.a.second), L = std::sqrt(dx*dx+dy*dy);
                if(L == 0) continue;
                for(int sd : {-1,1}) {
                    long double dd = (T+0.5L)*sd;
                    probe({(i64)std::llround((mx - dy/L*dd)*mul),(i64)std::llround((my + dx/L*dd)*mul)});
                }
            }
        };
        near(o.loops,24);
        near(all,24);
    }
    // ---- offsets: expected distance region of one set
    static Loop dedup_path(const Loop &l,bool closed) {
        Loop r;
        for(auto &p : l) if(r.empty() || r.back() != p) r.push_back(p);
        if(closed && r.size() > 1 && r.front() == r.back()) r.pop_back();
        return r;
    }
    struct OffPart { std::vector<Loop> loops; double mag; i64 arc; bool region; long double A; };   // region: closed, else paths and points
    struct OffSet { std::vector<OffPart> parts; bool ok = true, empty = true, neg = false; u64 lines = 0; };
    // is this a region with simple boundaries, each oriented so that windings are 0 and 1?
    static bool proper_region(const std::vector<Loop> &ls) {
        std::string m;
        if(find_conflict(ls,m)) return false;
        std::set<Pt> seen;
        for(auto &l : ls) for(auto &p : l) if(!seen.insert(p).second) return false;
        for(size_t i=0; i<ls.size(); ++i) {
            int s = sgn(area2(ls[i]));
            if(!s) return false;
            long outer = 0;
            for(size_t j=0; j<ls.size(); ++j) if(j != i) outer += winding_of(ls[j],ls[i][0],1);
            if(!((outer == 0 && s > 0) || (outer == 1 && s < 0))) return false;
        }
        return true;
    }
    static OffSet off_set(const std::vector<AddRec> &m,int set) {
        OffSet r;
        OffPart reg{{},0,1,true,0};
        bool have = false, negpath = false;
        for(auto &a : m) if(a.set == set) {
            if(!a.off) { r.ok = false; return r; }
            Loop l = dedup_path(a.raw,a.closed);
            if(l.empty()) continue;
            double am = std::fabs(a.mag);
            r.lines += 4*l.size() + (u64)((double)(a.closed ? 1 : 2)*3.2*(double)std::min<size_t>(l.size(),6)*am/(double)a.arc) + 4;
            if(l.size() > 2 && a.closed) {   // a closed loop of two points is the path there and back
                if(have && (reg.mag != a.mag || reg.arc != a.arc)) { r.ok = false; return r; }
                have = true; reg.mag = a.mag; reg.arc = a.arc;
                reg.loops.push_back(l);
            } else {
                if(a.mag < 0 && l.size() > 1) negpath = true;
                if(a.mag < 0) continue;                      // nothing grows
                OffPart q{{l},a.mag,a.arc,false,0};
                long double lim = l.size() == 1 ? std::numbers::pi_v<long double>/3 : std::numbers::pi_v<long double>/2;
                if(am > 0) q.A = am*(1-std::cos(std::min(lim,(long double)a.arc/(long double)am)));
                r.parts.push_back(q);
            }
        }
        if(have) {
            double am = std::fabs(reg.mag);
            if(am > 0) reg.A = am*(1-std::cos(std::min(std::numbers::pi_v<long double>/2,(long double)reg.arc/(long double)am)));
            if(!proper_region(reg.loops)) { r.ok = false; return r; }
            if(reg.mag < 0) { r.neg = true; if(!r.parts.empty()) { r.ok = false; return r; } }
            r.parts.insert(r.parts.begin(),reg);
        }
        r.empty = r.parts.empty();
        // a path walked with a negative distance is inside out; what that does to other shapes is not specified
        if(negpath) { r.neg = true; if(!r.empty) r.ok = false; }
        return r;
    }
    // 1 inside, 0 outside, -1 too close to tell
    static int off_inside(const OffSet &s,const Pt &q,i64 mul,long double T) {
        int res = 0;
        for(auto &p : s.parts) {
            long double m = std::fabs(p.mag), d = 1e300L;
            int in;
            if(p.region) {
                d = dist_to(p.loops,q,mul,1e30L);
                bool inside = winding_of(p.loops,q,mul) > 0;
                long double sd = inside ? -d : d, lim = p.mag;
                if(p.mag >= 0) in = sd < lim - p.A - T ? 1 : sd > lim + T ? 0 : -1;
                else in = sd < lim - T ? 1 : sd > lim + p.A + T ? 0 : -1;
            } else {
                for(auto &l : p.loops) {
                    if(l.size() == 1) d = std::min(d,std::hypot((long double)q.first/mul-l[0].first,(long double)q.second/mul-l[0].second));
                    else for(size_t i=0; i+1<l.size(); ++i)
                        d = std::min(d,std::sqrt(dist2_seg((long double)q.first/mul,(long double)q.second/mul,l[i].first,l[i].second,l[i+1].first,l[i+1].second)));
                }
                in = d < m - p.A - T ? 1 : d > m + T ? 0 : -1;
            }
            if(in == 1) return 1;
            if(in < 0) res = -1;
        }
        return res;
    }
    void check_c12(const Out &o,const std::vector<AddRec> &m,int op,u64 salt,u64 adverse_coins) {
        if(!wants("C12") || m.empty()) return;
        OffSet S = off_set(m,0), C = off_set(m,1);
        if(!S.ok || !C.ok) { st.inc("c12_not_judged"); return; }
        if(op == 4 || (op == 0 && ((S.neg && !C.empty) || (C.neg && !S.empty)))) { st.inc("c12_not_judged"); return; }
        if(S.empty && C.empty) st.inc("c12_expected_empty");
        i64 x0=INT64_MAX,x1=INT64_MIN,y0=INT64_MAX,y1=INT64_MIN;
        long double mx = 0;
        u64 lines = S.lines + C.lines;
        std::vector<const OffPart*> parts;
        for(auto *q : {&S,&C}) for(auto &p : q->parts) {
            parts.push_back(&p);
            mx = std::max(mx,std::fabs((long double)p.mag));
            for(auto &l : p.loops) for(auto &c : l) { x0=std::min(x0,c.first); x1=std::max(x1,c.first); y0=std::min(y0,c.second); y1=std::max(y1,c.second); }
        }
        for(auto &l : o.loops) for(auto &c : l) { x0=std::min(x0,c.first); x1=std::max(x1,c.first); y0=std::min(y0,c.second); y1=std::max(y1,c.second); }
        if(x0 > x1) return;
        i64 ext = (i64)mx + 4;
        long double T = drift(std::max(x1-x0,y1-y0)+2*ext) + mx*1e-8L + 0.6L*std::sqrt((long double)lines) + 0.75L*(long double)adverse_coins;
        i64 mul = 4;
        Rng r(mix(plan_seed,salt^0xc12));
        auto opv = [&](int s,int c) { // three-valued
            if(s < 0 || c < 0) {
                int r0 = -2;
                for(int a=0; a<2; ++a) for(int b=0; b<2; ++b) if((s < 0 || s == a) && (c < 0 || c == b)) {
                    int v = region_inside(op,a,b);
                    if(r0 == -2) r0 = v; else if(r0 != v) return -1;
                }
                return r0;
            }
            return (int)region_inside(op,s,c);
        };
        bool bad = false;
        auto probe = [&](Pt q,i64 mul) {
            if(bad) return;
            int s = off_inside(S,q,mul,T), c = off_inside(C,q,mul,T), e = opv(s,c);
            if(e < 0) { st.inc("c12_probes_near_boundary"); return; }
            if(on_any_edge(o.loops,q,mul)) { if(e == 1) return; }
            long w = winding_of(o.loops,q,mul);
            st.inc(e ? "c12_probes_inside" : "c12_probes_outside");
            if(w != e) {
                // lines of the walk around the shapes that lie nowhere near the result are rounded too: a speck or
                // sliver they leave is not judged, only a wrong area that holds a disc with the tolerance as radius
                for(int k=0; k<24; ++k) {
                    long double t = (long double)(k%12)*std::numbers::pi_v<long double>/6, R = k < 12 ? T : T/2;
                    Pt g{q.first + (i64)std::llround(R*mul*std::cos(t)),q.second + (i64)std::llround(R*mul*std::sin(t))};
                    if(on_any_edge(o.loops,g,mul)) continue;
                    if(opv(off_inside(S,g,mul,T),off_inside(C,g,mul,T)) != e || winding_of(o.loops,g,mul) == e) { st.inc("c12_specks_not_judged"); return; }
                }
                bad = true;
                std::ostringstream t;
                t << op_name(op) << " of offsets";
                for(auto p : parts) t << ' ' << p->mag << '/' << p->arc;
                t << ": point (" << (double)q.first/mul << ',' << (double)q.second/mul << ") should be " << (e ? "inside" : "outside") << " (tolerance " << (double)T << ") but has output winding " << w << ": " << o.brief();
                V("C12","distance",t.str());
            }
        };
        for(int i=0; i<20; ++i) probe({r.range((x0-ext)*mul,(x1+ext)*mul),r.range((y0-ext)*mul,(y1+ext)*mul)},mul);
        for(int i=0; i<8; ++i) probe({r.range(x0*mul,x1*mul),r.range(y0*mul,y1*mul)},mul);
        // just inside and just outside the requested distance along lines and around vertices
        for(auto p : parts) {
            for(int k=0; k<28; ++k) {
                auto &l = p->loops[r.below(p->loops.size())];
                size_t i = r.below(l.size()), j = (i+1)%l.size();
                long double ax = l[i].first, ay = l[i].second, ux, uy;
                if(l.size() > 1 && r.chance(3,5) && (p->region || j)) {
                    long double f = (long double)r.below(1001)/1000, dx = l[j].first-ax, dy = l[j].second-ay, L = std::hypot(dx,dy);
                    ax += f*dx; ay += f*dy; ux = -dy/L; uy = dx/L;
                } else { long double t = (long double)r.below(6284)/1000; ux = std::cos(t); uy = std::sin(t); }
                for(int side : {-1,1}) {
                    long double m = std::fabs((long double)p->mag);
                    long double ds[3] = {m - p->A - T - 0.5L, m + T + 0.5L, m + p->A + T + 0.5L};
                    for(auto d : ds) if(d >= 0) probe({(i64)std::llround((ax + side*ux*d)*mul),(i64)std::llround((ay + side*uy*d)*mul)},mul);
                }
            }
        }
        // something inside, and something beside each line of, the output
        for(size_t i=0; i<o.loops.size() && i<24; ++i) {
            Pt ip;
            if(interior_point(o.loops[i],ip)) probe(ip,6);
        }
        auto os = segs_of(o.loops);
        for(size_t k=0; k<std::min<size_t>(16,os.size()); ++k) {
            auto &e = os[r.below(os.size())];
            long double mx2 = (long double)(e.a.first+e.b.first)/2, my = (long double)(e.a.second+e.b.second)/2, dx = e.b.first-e.a.first, dy = e.b.second-e.a.second, L = std::hypot(dx,dy);
            if(L == 0) continue;
            for(int sd : {-1,1}) for(long double d : {1.0L,T+0.5L,2*T+1}) probe({(i64)std::llround((mx2 - dy/L*d*sd)*mul),(i64)std::llround((my + dx/L*d*sd)*mul)},mul);
        }
        st.inc("c12_judged"); if(S.neg || C.neg) st.inc("c12_judged_negative");
        st.mx("c12_max_tolerance_milli_of_magnitude",mx > 0 ? (u64)(T/mx*1000) : 0);
    }
    void check_c03(const Out &o,bool tree) {
        if(!wants("C03")) return;
        if(!o.size_ok) V("C03","size","a loop or result misreports its size");
        for(size_t i=0; i<o.loops.size(); ++i) {
            auto &l = o.loops[i];
            if(l.size() < 2) { V("C03","short_loop","loop with fewer than two points"); continue; }
            if(l.size() < 3 || area2(l) == 0) st.inc("c03_zero_area_loops");
            for(size_t j=0; j<l.size(); ++j) if(l[j] == l[(j+1)%l.size()]) V("C03","zero_line","loop contains a zero-length line");
        }
        if(!tree) return;
        size_t n = o.loops.size();
        std::vector<Pt> ip(n); std::vector<char> okp(n); std::vector<i128> ar(n);
        for(size_t i=0; i<n; ++i) { ar[i] = area2(o.loops[i]); okp[i] = interior_point(o.loops[i],ip[i]); }
        auto absv = [](i128 v){ return v < 0 ? -v : v; };
        // loops with lines that coincide with other output lines enclose zero-width parts; where
        // they are involved "inside" has no geometric meaning and nesting is not judged
        std::vector<char> degen(n,0);
        {
            std::map<std::pair<Pt,Pt>,size_t> seen;
            for(size_t i=0; i<n; ++i) for(size_t j=0; j<o.loops[i].size(); ++j) {
                Pt a = o.loops[i][j], b = o.loops[i][(j+1)%o.loops[i].size()];
                if(b < a) std::swap(a,b);
                auto [it,ins] = seen.emplace(std::make_pair(a,b),i);
                if(!ins) degen[i] = degen[it->second] = 1;
            }
        }
        for(size_t i=0; i<n; ++i) {
            if(degen[i]) { st.inc("c03_nesting_skipped_coincident"); continue; }
            int want_sign = (o.depth[i] % 2) ? -1 : 1;
            if(!okp[i]) continue;
            int depth = 0; bool unsure = false;
            int par = -1; 
            for(size_t j=0; j<n; ++j) if(j != i && absv(ar[j]) > absv(ar[i])) {
                if(on_any_edge({o.loops[j]},ip[i],6)) { unsure = true; continue; }
                if(winding_of(o.loops[j],ip[i],6) != 0) { if(degen[j]) { unsure = true; break; } ++depth; if(par < 0 || absv(ar[j]) < absv(ar[(size_t)par])) par = (int)j; }
            }
            if(unsure) { st.inc("c03_nesting_skipped_coincident"); continue; }
            st.inc("c03_nesting_judged");
            if(depth > 0) st.inc("c03_nesting_judged_inner");
            if(sgn(ar[i]) != want_sign && sgn(ar[i]) != 0) V("C03","orientation","loop at depth " + std::to_string(o.depth[i]) + " has the wrong orientation: " + o.brief());
            if(depth != o.depth[i]) V("C03","nesting","loop reported at depth " + std::to_string(o.depth[i]) + " lies inside " + std::to_string(depth) + " loops: " + o.brief());
            else if(par != o.parent[i]) V("C03","parent","loop attached to a parent that is not the innermost loop around it: " + o.brief());
        }
    }
    // same region, judged far from lines of either
    void check_same_region(const Out &a,const Out &b,u64 salt,const char *tag,const char *kind) {
        std::vector<Loop> all = a.loops;
        all.insert(all.end(),b.loops.begin(),b.loops.end());
        if(all.empty()) return;
        i64 x0=INT64_MAX,x1=INT64_MIN,y0=INT64_MAX,y1=INT64_MIN;
        for(auto &l : all) for(auto &p : l) { x0=std::min(x0,p.first); x1=std::max(x1,p.first); y0=std::min(y0,p.second); y1=std::max(y1,p.second); }
        Rng r(mix(plan_seed,salt^77));
        for(int i=0; i<48; ++i) {
            Pt q{r.range(x0*4,x1*4),r.range(y0*4,y1*4)};
            if(on_any_edge(all,q,4)) continue;
            if(winding_of(a.loops,q,4) != winding_of(b.loops,q,4)) { V(tag,kind,"hierarchical and flat output enclose different regions"); return; }
        }
    }

    // A result given back to the library: nothing is left to cut, so nothing may move, whatever the rounding coins do
    void check_c18(const Out &o,u64 salt) {
        if(!wants("C18")) return;
        size_t np = 0;
        for(auto &l : o.loops) np += l.size();
        if(np > 400) { st.inc("c18_too_large"); return; }
        Rng r(mix(plan_seed,salt^1801));
        std::set<Pt> cuts;
        for(auto &l : o.loops) cuts.insert(l.begin(),l.end());
        // op, copies as subject, copies as clip, what is left of the outline
        struct V4 { int op, s, c, left; };
        static const V4 vs4[] = {{0,1,0,1},{4,1,0,1},{0,1,1,1},{1,1,1,1},{2,1,1,0},{3,1,1,0},{3,1,0,1},{2,1,0,1},{0,2,0,1},{2,0,1,1},{0,0,1,1},{0,2,1,1},{1,2,1,1},{3,2,1,0},{1,1,0,0},{3,0,1,0}};
        for(int rnd=0; rnd<2; ++rnd) {
            const V4 &v = vs4[r.below(std::size(vs4))];
            bool tree = r.chance(1,2);
            RndCtl rc;
            rc.start((int)r.below(RM_COUNT),r.next(),r.below(200));
            if(rc.mode == RM_REAL) rc.start(RM_FAIR,1,0);
            std::vector<std::pair<int,Loop>> in;
            for(int q=0; q<v.s+v.c; ++q) for(auto l : o.loops) {
                std::rotate(l.begin(),l.begin() + (std::ptrdiff_t)r.below(l.size()),l.end());
                in.push_back({q >= v.s,std::move(l)});
            }
            for(size_t i=in.size(); i>1; --i) std::swap(in[i-1],in[r.below(i)]);
            Heap h;
            TaskCtx *me = tls;
            Scheduler *sc = me->sched; Fault f = me->fault; RndCtl rs = me->rnd; u64 steps = me->steps, cap = me->step_cap;
            me->sched = nullptr; me->fault = Fault{}; me->rnd = rc; me->steps = 0; me->step_cap = 200000 + np*np*200;
            Out g; bool ok = true;
            {
                Inst m; m.trk = (int)r.below(2);
                make(m,h);
                if(m.t) m.t->quiet = true;
                try {
                    for(auto &[set,l] : in) {
                        AddRec a; a.set = set; a.raw = l;
                        std::vector<const AddRec*> one{&a};
                        feed(m,one,(int)r.below(3));
                    }
                    std::vector<AddRec> none;
                    g = run_exec_t(m,v.op,tree,EM_LVALUE,none,h,false);
                } catch(StepCap&) { ok = false; }
                destroy(m);
            }
            u64 drew = me->rnd.k;
            (void)drew;
            me->sched = sc; me->fault = f; me->rnd = rs; me->steps = steps; me->step_cap = cap;
            if(!ok) { V("C18","no_progress","giving a result back does not end"); return; }
            st.inc("c18_fed_back");
            g.hash(hist);
            for(auto &l : g.loops) for(auto &p : l) if(!cuts.count(p)) {
                V("C18","new_vertex",std::string("giving a result back to ") + op_name(v.op) + " makes a point that was not there: (" + std::to_string(p.first) + "," + std::to_string(p.second) + ")");
                return;
            }
            Chain want4 = v.left ? net_chain(o.loops,cuts) : Chain{}, got = net_chain(g.loops,cuts);
            if(want4 != got) {
                std::ostringstream m;
                m << op_name(v.op) << " of " << v.s << " copies of a result and " << v.c << " as clip gives " << g.brief() << " instead of " << (v.left ? o.brief() : std::string("nothing"));
                V("C18","not_fixed",m.str());
                return;
            }
        }
    }

    void check_tracker(Inst &n,const Out &o,bool tree) {
        (void)tree;
        if(!n.t) return;
        ST &t = *n.t;
        if(t.quiet) return;
        std::set<i64> known;
        for(auto &a : n.model) known.insert(a.og.begin(),a.og.end());
        // expected additions, from the model alone
        if(!n.offs()) {
            size_t k = 0; bool bad = false; i64 np = 0;
            std::vector<Pt> rawpt;
            for(auto &a : n.model) {
                for(auto &p : a.raw) { (void)p; }
                auto c = clean_loop(a.raw);
                i64 last = -1;
                for(size_t j=0; j<c.size(); ++j,++k) {
                    if(k >= t.added.size()) { bad = true; break; }
                    i64 oi = last + 1;
                    while(oi < (i64)a.raw.size() && (a.og[(size_t)oi] != t.added[k] || a.raw[(size_t)oi] != c[j])) ++oi;
                    if(oi >= (i64)a.raw.size()) { bad = true; break; }
                    last = oi;
                }
                np += (i64)a.raw.size();
                if(bad) break;
            }
            if(bad || k != t.added.size()) V("C10","additions","point_added calls do not match the retained input points");
        } else {
            for(auto v : t.added) if(!known.count(v)) { V("C10","additions","point_added with an original index outside the input"); break; }
        }
        std::set<std::pair<i64,Pt>> rawat;
        if(n.offs() && wants("C11")) {
            std::multimap<i64,std::pair<Pt,const AddRec*>> at;
            for(auto &a : n.model) for(size_t j=0; j<a.raw.size(); ++j) at.insert({a.og[j],{a.raw[j],&a}});
            for(size_t i=0; i<o.loops.size(); ++i) for(size_t j=0; j<o.loops[i].size(); ++j) {
                i64 ix = o.idx[i][j];
                if(ix < 0 || (size_t)ix >= t.added.size()) continue;
                auto it = at.find(t.added[(size_t)ix]);
                if(it == at.end()) continue;                    // reported below and by C10
                if(at.count(t.added[(size_t)ix]) > 1) continue; // the caller gave one index to several points
                const Pt &q = o.loops[i][j], &b = it->second.first;
                if(!t.sets[(size_t)ix].count(t.added[(size_t)ix])) V("C11","own_origin","an original point in the output does not report its own origin");
                if(!it->second.second->off) { if(q != b) V("C11","untouched_vertex","an original point in the output does not have the coordinates of its original"); continue; }
                long double d = std::hypot((long double)(q.first-b.first),(long double)(q.second-b.second)), m = std::fabs((long double)it->second.second->mag);
                // generated around its input vertex: on the vertex or at the requested distance
                st.inc("c11_offset_points_judged");
                if(d != 0 && std::fabs(d-m) > 1.0L + m*1e-9L) {
                    std::ostringstream s;
                    s << "point (" << q.first << ',' << q.second << ") generated by an offset of " << (double)m << " reports input vertex (" << b.first << ',' << b.second << ") at distance " << (double)d;
                    V("C11","offset_origin",s.str());
                }
            }
        }
        if(!n.offs()) for(auto &a : n.model) for(size_t j=0; j<a.raw.size(); ++j) rawat.insert({a.og[j],a.raw[j]});
        for(size_t i=0; i<o.loops.size(); ++i) for(size_t j=0; j<o.loops[i].size(); ++j) {
            i64 ix = o.idx[i][j];
            if(ix < 0 || (size_t)ix >= t.count()) { V("C10","output_index","output point index has no slot in the external array"); return; }
            if(t.discarded[(size_t)ix]) V("C10","output_discarded","output point index was reported as discarded");
            if(!n.offs() && (size_t)ix < t.added.size()) {
                if(!rawat.count({t.added[(size_t)ix],o.loops[i][j]})) V("C11","untouched_vertex","an original point in the output does not have the coordinates of its original");
                if(!t.sets[(size_t)ix].count(t.added[(size_t)ix])) V("C11","own_origin","an original point in the output does not report its own origin");
            }
        }
        std::set<i64> seen;
        for(auto &l : o.idx) for(auto v : l) if(!seen.insert(v).second) V("C10","output_twice","two output points share one index");
        if(t.real && wants("C11")) {
            for(size_t i=0; i<o.loops.size(); ++i) for(size_t j=0; j<o.loops[i].size(); ++j) {
                Index ix = (Index)o.idx[i][j];
                Sut s;
                auto v = t.real->get_value(ix,P{(Coord)0,(Coord)0});
                User u;
                std::vector<i64> got;
                for(auto q : v.original_points) got.push_back((i64)q);
                std::vector<i64> exp(t.sets[(size_t)ix].begin(),t.sets[(size_t)ix].end());
                if(got != exp) {
                    std::ostringstream m;
                    m << "origins of an output point differ from the reference model: got {";
                    for(auto q : got) m << q << ' ';
                    m << "} expected {";
                    for(auto q : exp) m << q << ' ';
                    m << "}";
                    V("C11","origin_set",m.str());
                }
                for(auto q : got) if(!known.count(q)) V("C11","origin_range","origin outside the input");
            }
        }
        st.mx("max_origin_set",t.max_set);
        st.inc("tracker_merges",t.merges); st.inc("tracker_splits",t.splits);
        t.merges = t.splits = 0;
    }

    // canonical fresh run of the same model; returns false if it could not be produced
    bool fresh_run(const Inst &n,int op,bool tree,const RndCtl &rc,bool cleaned,Out &out,int trk,bool subject_first=false) {
        Heap h;
        h.rng = Rng(mix(plan_seed,4242));
        TaskCtx *me = tls;
        Scheduler *sc = me->sched;
        Fault f = me->fault;
        RndCtl rsave = me->rnd;
        u64 steps = me->steps;
        me->sched = nullptr; me->fault = Fault{};
        me->rnd.start(rc.mode,rc.seed,rc.k);
        me->steps = 0;
        bool ok = true;
        {
            Inst m;
            m.trk = trk;
            make(m,h);
            if(m.t) m.t->quiet = true;
            try {
                for(int pass=0; pass<(subject_first?2:1); ++pass) for(auto &a : n.model) {
                    if(subject_first && a.set != pass) continue; // the order boolean_op adds them in
                    AddRec b = a;
                    if(cleaned && !a.off) { b.raw = clean_loop(a.raw); if(b.raw.empty()) continue; }
                    if(cleaned && a.off) b.raw = dedup_path(a.raw,a.closed);
                    std::vector<const AddRec*> v{&b};
                    if(a.off) feed_off(m,v,0); else feed(m,v,0);
                }
                std::vector<AddRec> none;
                out = run_exec_t(m,op,tree,EM_LVALUE,none,h,false);
            } catch(StepCap&) { ok = false; }
            destroy(m);
        }
        me->sched = sc; me->fault = f; me->rnd = rsave; me->steps = steps;
        return ok;
    }

    // ------------------------------------------------------------ applying one plan operation
    void arm(const Op &op) {
        tls->fault = Fault{};
        tls->fault.kind = (int)op.get("fk",0);
        tls->fault.at = op.get("fa",0);
        tls->fault.count = op.get("fc",1);
        tls->fault.rng = Rng(mix(plan_seed,(u64)op.get("fs",5)));
        if(tls->fault.kind == F_QUOTA) tls->fault.at += (i64)heap.live_bytes;
        tls->op_allocs = 0;
    }
    void disarm(const Op &op) {
        if(tls->fault.kind) {
            st.inc(std::string("fault_armed_") + fault_name(tls->fault.kind));
            if(tls->fault.fired) { ++nontrivial; st.inc(std::string("fault_fired_") + fault_name(tls->fault.kind)); st.inc("fault_fired_in_" + op.kind); }
        }
        tls->fault = Fault{};
    }
    enum Outcome { OC_OK, OC_OOM, OC_USER, OC_CAP, OC_OTHER };
    template<typename F> Outcome guarded(const Op &op,F &&f) {
        arm(op);
        Outcome oc = OC_OK;
        bool bad_user = false;
        std::string other, okind = "unexpected_exception";
        i64 fired; int kind = tls->fault.kind; i64 at = tls->fault.at;
        try { f(); }
        catch(const Injected &e) { oc = OC_USER; bad_user = !(kind == F_ITER || kind == F_TRK || kind == F_FILL) || e.id != (u64)at; }
        catch(const std::bad_alloc &) { oc = OC_OOM; }
        catch(const StepCap &) { oc = OC_CAP; }
        catch(const AssertFailed &e) { oc = OC_OTHER; other = "internal consistency check failed: " + e.what; okind = "assertion"; }
        catch(const std::exception &e) { oc = OC_OTHER; other = e.what(); }
        tls->in_sut = 0;
        fired = tls->fault.fired;
        disarm(op);
        if(oc == OC_USER && bad_user) V("C06","wrong_exception","the exception that arrived is not the one thrown");
        if(oc == OC_OOM && !(kind == F_ALLOC || kind == F_QUOTA || kind == F_ALLOCP)) { other = "std::bad_alloc without an allocation failure"; oc = OC_OTHER; }
        if(oc == OC_OTHER) {
            for(const char *p : {"C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C15","C18"}) V(p,okind,op.kind + ": " + other);
        }
        if(oc == OC_OK && fired) {
            if(kind == F_ITER || kind == F_TRK) V("C06","swallowed","an exception thrown by caller code did not reach the caller");
            else st.inc("alloc_failure_absorbed");
        }
        if(oc == OC_CAP) for(const char *p : {"C01","C02","C03","C04","C10","C12"}) V(p,"no_progress",op.kind + ": step bound exceeded (" + std::to_string(tls->steps) + " steps)");
        hist.add((u64)oc); hist.add((u64)fired); hist.add(tls->steps);
        if(oc == OC_USER || oc == OC_OOM) st.inc("exceptions_delivered");
        return oc;
    }
    void note_failure(Inst &n,Outcome oc) {
        n.tainted = true;
        if(oc == OC_OOM) n.had_alloc = true; else n.had_user = true;
        if(n.t) n.t->quiet = true;
    }
    void model_restart(Inst &n) {
        if(n.ran) { n.model.clear(); n.ran = false; n.next_orig = 0; n.tainted = false; if(n.t) { n.expected_resets++; } }
    }

    void apply_add(const std::vector<const Op*> &ops) {
        const Op &op = *ops[0];
        Inst &n = get((int)op.get("i",0));
        bool off = op.kind == "off";
        bool was_ran = n.ran;
        bool any_call = false;
        std::vector<AddRec> recs;
        ++n.calls;
        for(auto o : ops) {
            AddRec a;
            a.off = off; a.set = (int)o->get("s",0); a.raw = o->pts;
            a.closed = op.get("closed",1); a.mag = (double)op.get("mag",16)/16.0; a.arc = std::max<i64>(1,op.get("arc",4));
            a.call = n.calls;
            if(recs.empty() && !n.tainted) {
                a.oi = (int)o->get("oi",0); a.ob = o->get("ob",0); a.om = o->get("om",0);
                if((a.oi == 1 && (off || ops.size() > 1)) || (a.oi == 2 && was_ran)) a.oi = 0;
            }
            recs.push_back(std::move(a));
            any_call = true;
        }
        (void)any_call;
        std::vector<const AddRec*> rp;
        for(auto &a : recs) rp.push_back(&a);
        // a closed/open offset of an empty path starts nothing and so does not restart the object
        bool starts = !off;
        for(auto &a : recs) if(!a.raw.empty()) starts = true;
        if(starts) model_restart(n);
        if(was_ran && !starts) { /* nothing happens */ }
        tls->rnd.start(RM_REAL,1,0);
        Outcome oc = guarded(op,[&]{
            if(off) feed_off(n,rp,(int)op.get("r",0)); else feed(n,rp,(int)op.get("r",0));
        });
        if(oc != OC_OK) { note_failure(n,oc); return; }
        if(!starts && was_ran) return;
        for(auto &a : recs) {
            if(a.oi == 1) { a.og = given_origins(a); if(!a.og.empty()) n.next_orig = a.og.back()+1; }
            else {
                if(a.oi == 2) n.next_orig = a.ob;
                for(size_t j=0; j<a.raw.size(); ++j) a.og.push_back(n.next_orig++);
            }
            if(a.oi) st.inc(a.oi == 1 ? "origins_given" : "origin_start_given");
            n.model.push_back(a);
        }
        if(!n.tainted && wants("C10") && n.t && n.t->resets != n.expected_resets) {
            V("C10","reset_signal","reset callbacks: " + std::to_string(n.t->resets) + ", expected " + std::to_string(n.expected_resets));
            n.expected_resets = n.t->resets;
        }
    }

    void apply_exec(const Op &op) {
        Inst &n = get((int)op.get("i",0));
        int bop = (int)op.get("op",0); bool tree = op.get("tree",0); int mode = (int)op.get("mode",0);
        if(mode == EM_FREE && (n.tainted || n.ran || (n.offs() && !one_offset_call(n.model,bop)))) mode = EM_LVALUE;
        RndCtl rc;
        rc.start((int)op.get("rm",RM_FAIR),(u64)op.get("rs",1),(u64)op.get("rk",0));
        if(n.ran && mode != EM_FREE) { // a second execute without input starts over with nothing
            n.model.clear(); n.next_orig = 0; n.tainted = false; n.ran = false; n.expected_resets++;
            if(n.t) n.t->quiet = false;
        }
        std::vector<AddRec> recs = n.model;
        tls->rnd = rc;
        tls->steps = 0;
        tls->step_cap = cap_for(recs,rc.k);
        u64 coins0 = tls->coins;
        Out o;
        bool keep = mode != EM_LVALUE;
        Outcome oc = guarded(op,[&]{ o = run_exec_t(n,bop,tree,mode,recs,heap,keep); });
        ++nexec;
        u64 coins = tls->coins - coins0;
        st.inc("execs"); st.inc("coins",coins); st.inc("sweep_steps",tls->steps);
        if(coins) ++nontrivial;
        {
            u64 q = tls->steps*1000/(work_nk+rc.k+50);
            st.mx(rc.mode == RM_FAIR || rc.mode == RM_REAL ? "max_steps_per_unit_milli_fair" : "max_steps_per_unit_milli_adverse",q);
            if(st.n["worst_ratio_milli"] < q) { st.n["worst_ratio_milli"] = q; if(verbose) std::cerr << "ratio " << q << " steps " << tls->steps << " nk " << work_nk << " k " << rc.k << " coins " << coins << "\n"; }
        }
        tls->step_cap = ~0ull;
        u64 used_steps = tls->steps;
        if(mode != EM_FREE) n.ran = true;
        if(oc == OC_OK) {
            o.hash(hist);
            if(n.t) hist.add(n.t->log.h);
            if(verbose) { std::ostringstream s; s << "exec " << op_name(bop) << (tree?" tree":"") << " -> " << o.brief(); log.push_back(s.str()); }
            const char *faultprop = n.had_alloc ? "C05" : n.had_user ? "C06" : nullptr;
            if(!o.size_ok) V("C03","size","a loop or result misreports its size");
            check_c01(o);
            if(n.tainted) {
                st.inc("tainted_execs");
                check_c01(o,"C05"); check_c01(o,"C06");
            } else {
                check_c03(o,tree);
                check_c18(o,nexec);
                check_c12(o,n.model,bop,mix(nexec,12),rc.mode == RM_FAIR || rc.mode == RM_REAL ? 0 : std::min<u64>(rc.k,coins));
                if(!n.offs()) check_c02(o,n.model,bop,mix(nexec,9),rc.mode == RM_FAIR || rc.mode == RM_REAL ? 0 : std::min<u64>(rc.k,coins));
                if(mode != EM_FREE) check_tracker(n,o,tree);
                if(n.tc && mode != EM_FREE && wants("C11")) {
                    Out f;
                    if(fresh_run(n,bop,tree,rc,false,f,3)) {
                        if(f.same_points(o) && f.orig != o.orig) V("C11","origin_reuse","origins differ from those of a new object");
                        // and against the reference model
                        check_against_model(n,bop,tree,rc,o);
                    }
                }
                bool judge = wants("C07") || (wants("C12") && n.offs()) || (faultprop && wants(faultprop));
                if(judge) {
                    Out f;
                    if(fresh_run(n,bop,tree,rc,true,f,0,mode == EM_FREE)) {
                        if(!f.same_points(o)) {
                            std::string m = "output differs from a new object's: " + o.brief() + "  expected  " + f.brief();
                            V("C07","reuse",m);
                            if(n.offs()) V("C12","equal_input",m);
                            if(faultprop) V(faultprop,"reuse_after_failure",m);
                        }
                        st.inc("fresh_comparisons");
                        if(faultprop) st.inc("fresh_comparisons_after_failure");
                    }
                }
                if(wants("C03") && !n.offs()) {
                    Out f;
                    if(fresh_run(n,bop,!tree,rc,true,f,0)) {
                        check_same_region(o,f,nexec,"C03","flat_vs_tree");
                        if(f.loops.size() != o.loops.size()) st.inc("flat_tree_loopcount_differs");
                    }
                }
            }
        } else note_failure(n,oc);
        hist.add(used_steps);
        if(mode == EM_RVALUE) { destroy(n); }
    }
    void check_against_model(Inst &n,int bop,bool tree,const RndCtl &rc,const Out &o) {
        // replay with the model tracker to obtain reference origins
        Heap h;
        TaskCtx *me = tls;
        Scheduler *sc = me->sched; Fault f = me->fault; RndCtl rs = me->rnd; u64 steps = me->steps;
        me->sched = nullptr; me->fault = Fault{}; me->rnd.start(rc.mode,rc.seed,rc.k); me->steps = 0;
        {
            Inst m; m.trk = 1;
            make(m,h);
            m.t->quiet = true;
            try {
                for(auto &a : n.model) { std::vector<const AddRec*> v{&a}; if(a.off) feed_off(m,v,0); else feed(m,v,0); }
                std::vector<AddRec> none;
                Out g = run_exec_t(m,bop,tree,EM_LVALUE,none,h,false);
                if(g.same_points(o)) {
                    for(size_t i=0; i<o.loops.size(); ++i) for(size_t j=0; j<o.loops[i].size(); ++j) {
                        auto &s = m.t->sets[(size_t)g.idx[i][j]];
                        if(o.orig[i][j] != std::vector<i64>(s.begin(),s.end())) { V("C11","origin_set","origins of an output point differ from the reference model"); i = o.loops.size()-1; break; }
                    }
                }
            } catch(StepCap&) {}
            destroy(m);
        }
        me->sched = sc; me->fault = f; me->rnd = rs; me->steps = steps;
    }

    // rasterize the loops added so far; the spans are part of the history that is compared
    void apply_draw(const Op &op) {
        Inst &n = get((int)op.get("i",0));
        using R = poly_ops::draw::rasterizer<Coord>;
        tls->step_cap = ~0ull;
        struct NF { NF() { tls->new_faults = true; } ~NF() { tls->new_faults = false; } } nf;
        guarded(op,[&]{
            std::vector<std::vector<P>> v;
            for(auto &a : n.model) v.push_back(conv(a.raw));
            for(auto &l : v) for(auto &q : l) q.y() = std::clamp<Coord>(q.y(),-300,300);
            std::unique_ptr<R> r;
            { Sut g; r = std::make_unique<R>(); r->add_loops(v); }
            int rounds = 1 + (int)op.get("again",0);
            u64 spans = 0;
            for(int k=0; k<rounds; ++k) {
                Sut g;
                r->draw((unsigned)op.get("w",20),(unsigned)op.get("h",20),[&](unsigned a,unsigned b,unsigned y) {
                    User u;
                    yield_point();
                    hist.add(a); hist.add(b); hist.add(y);
                    ++spans;
                },(poly_ops::draw::fill_rule_t)op.get("rule",0));
            }
            st.inc("drawn_spans",spans);
            Sut g;
            r.reset();
        });
    }

    void check_held(bool move) {
        for(auto &h : held) {
            if(move) h.h = h.h->move_out();
            Out o = h.h->read();
            if(!o.same_points(h.ref) || o.orig != h.ref.orig) V("C15","held_changed","a result obtained by value changed after its producer was destroyed or it was moved");
            st.inc("held_rereads");
        }
    }
    void check_heaps(const char *when) {
        for(Heap *h : {&heap,&dheap}) {
            for(auto &e : h->errors) for(const char *p : {"C05","C06","C15"}) V(p,"memory_protocol",h->name + " resource: " + e);
            h->errors.clear();
        }
        (void)when;
    }
    // A merge history given straight to an origin tracker: (-1,i) adds a point with original index i, (-2,k) a point
    // between two others, (-3,k) starts over (rarely) or moves the tracker, (f,t) merges f into t
    void apply_hist(const Op &op) {
        std::optional<OT> t;
        { Sut s; t.emplace(&heap); }
        std::vector<std::set<i64>> ref; std::vector<char> gone;
        size_t merges = 0, busy_f = ~(size_t)0, busy_t = ~(size_t)0;
        const char *kind = "merge_history";
        auto check = [&](size_t i) {
            Sut s;
            auto v = t->get_value((Index)i,P{(Coord)i,(Coord)1});
            User u;
            std::vector<i64> got, exp(ref[i].begin(),ref[i].end());
            for(auto q : v.original_points) got.push_back((i64)q);
            if(v.p != P{(Coord)i,(Coord)1}) V("C11","origin_point","the value of a point does not carry the point it was asked for");
            if(got != exp) {
                std::ostringstream m;
                m << "after " << merges << " merges the origins of a point are {";
                for(auto q : got) m << q << ' ';
                m << "} expected {";
                for(auto q : exp) m << q << ' ';
                m << "}";
                V("C11",kind,m.str());
                if(kind[0] == 'a') V("C05",kind,m.str());
            }
        };
        Outcome oc = guarded(op,[&]{
            for(auto &p : op.pts) {
                poly_ops::i_point_tracker<Index> *c = t->callbacks();
                size_t n = ref.size();
                if(p.first == -1) {
                    { Sut s; c->point_added((Index)p.second); }
                    ref.push_back({p.second}); gone.push_back(0);
                } else if(p.first == -2) {
                    if(n < 2) continue;
                    { Sut s; c->new_point_between((Index)((size_t)p.second % n),(Index)((size_t)p.second / n % n)); }
                    ref.emplace_back(); gone.push_back(0);
                } else if(p.first == -3) {
                    if(p.second % 4 == 0) { Sut s; c->reset(); User u; ref.clear(); gone.clear(); }
                    else { Sut s; OT m(std::move(*t)); t.emplace(std::move(m)); }
                } else if(n) {
                    size_t f = (size_t)p.first % n, to = (size_t)p.second % n;
                    if(f == to || gone[f] || gone[to]) continue;
                    busy_f = f; busy_t = to;
                    { Sut s; c->point_merge((Index)f,(Index)to); }
                    busy_f = busy_t = ~(size_t)0;
                    gone[f] = 1; ++merges;
                    ref[to].insert(ref[f].begin(),ref[f].end());
                    check(to);
                    st.mx("max_origin_set",ref[to].size());
                }
            }
            for(size_t i=0; i<ref.size(); ++i) if(!gone[i]) check(i);
        });
        if(oc == OC_OOM) {
            // everything the failed call was not about is as it was, and the tracker can be used again
            kind = "after_failure";
            for(size_t i=0; i<ref.size(); ++i) if(!gone[i] && i != busy_f && i != busy_t) check(i);
            { Sut s; t->reset(); }
            ref.clear(); gone.clear();
            for(i64 k=0; k<4; ++k) { { Sut s; t->point_added((Index)(7-k)); } ref.push_back({7-k}); gone.push_back(0); }
            for(size_t k=1; k<4; ++k) { { Sut s; t->point_merge((Index)k,0); } ref[0].insert(ref[k].begin(),ref[k].end()); }
            check(0);
            st.inc("direct_failures");
        }
        if(oc == OC_OK) { st.inc("direct_histories"); st.inc("direct_merges",merges); }
        for(auto &r : ref) for(auto q : r) hist.add((u64)q);
        Sut s;
        t.reset();
    }
    void apply(const std::vector<const Op*> &grp) {
        const Op &op = *grp[0];
        hist.add(op.kind);
        st.inc("op_" + op.kind);
        if(op.kind == "add" || op.kind == "off") apply_add(grp);
        else if(op.kind == "exec") apply_exec(op);
        else if(op.kind == "reset") {
            Inst &n = get((int)op.get("i",0));
            Outcome oc = guarded(op,[&]{ Sut s; if(n.tc) n.tc->reset(); else { n.c->reset(); if(n.t) n.t->reset(); } });
            if(oc == OC_OK) {
                n.model.clear(); n.ran = false; n.tainted = false; n.next_orig = 0;
                if(n.t) n.expected_resets = n.t->resets;
            } else note_failure(n,oc);
        } else if(op.kind == "new") {
            Inst &n = get((int)op.get("i",0));
            destroy(n);
            if(op.a.count("trk")) n.trk = (int)op.get("trk");
        } else if(op.kind == "churn") {
            std::vector<std::pair<void*,size_t>> v;
            Rng r(mix(plan_seed,(u64)op.get("rs",1)));
            for(int i=0; i<20; ++i) { size_t b = 16u << r.below(8); v.emplace_back(heap.allocate(b,8),b); }
            for(auto &x : v) heap.deallocate(x.first,x.second,8);
            check_held(false);
        } else if(op.kind == "held") check_held(op.get("move",0));
        else if(op.kind == "drop") held.clear();
        else if(op.kind == "hist") apply_hist(op);
        else if(op.kind == "draw") apply_draw(op);
        check_heaps(op.kind.c_str());
    }
    void finish() {
        check_held(true);
        for(auto &[i,n] : inst) destroy(n);
        check_held(false);
        held.clear();
        inst.clear();
        check_heaps("end");
        for(Heap *h : {&heap,&dheap}) {
            if(h->live_blocks()) {
                std::string m = h->name + " resource: " + std::to_string(h->live_blocks()) + " blocks never returned";
                for(const char *p : {"C05","C06","C15"}) V(p,"leak",m);
            }
            st.inc("heap_allocs",h->n_alloc);
            hist.add(h->n_alloc);
            h->release_all();
        }
    }
    // run all ops belonging to task t
    void run_ops(int t) {
        size_t i = 0;
        while(i < plan.ops.size()) {
            const Op &op = plan.ops[i];
            if(op.get("t",0) != t) { ++i; continue; }
            std::vector<const Op*> g{&op};
            size_t j = i+1;
            if(op.kind == "add" || op.kind == "off") {
                while(j < plan.ops.size() && plan.ops[j].kind == op.kind && plan.ops[j].get("t",0) == t && plan.ops[j].get("join",0)
                    && plan.ops[j].get("i",0) == op.get("i",0) && plan.ops[j].get("s",0) == op.get("s",0)) g.push_back(&plan.ops[j++]);
            }
            i = j;
            apply(g);
        }
    }
};

} // namespace sim
