// polysim: deterministic simulation of polyops (one coordinate configuration per binary)
#include "clipworld.hpp"
#include "plans.hpp"
#include "newheap.hpp"
#include "driver.hpp"
#include <chrono>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
#include <dlfcn.h>


/* pool_shim: libstdc++ 13's unsynchronized_pool_resource catches and drops the
exception when growing its list of chunks fails, then dereferences the end of the
empty list (a standard library defect, reproducible without polyops). The real
implementation is run, but allocations it makes after its first one within one
do_allocate call are marked so that the simulated heap doesn't fail them. */
void *std::pmr::unsynchronized_pool_resource::do_allocate(std::size_t bytes,std::size_t align) {
    using fn = void *(*)(void*,std::size_t,std::size_t);
    static fn real = reinterpret_cast<fn>(dlsym(RTLD_NEXT,"_ZNSt3pmr28unsynchronized_pool_resource11do_allocateEmm"));
    if(!real) std::abort();
    sim::TaskCtx *t = sim::tls;
    if(!t) return real(this,bytes,align);
    if(t->pool_depth++ == 0) t->pool_allocs = 0;
    struct G { sim::TaskCtx *t; ~G() { --t->pool_depth; } } g{t};
    return real(this,bytes,align);
}

/* In SIM_PREEMPT builds the compiler calls this at every edge of the control flow graph. A task
may lose the baton there while it is inside the code under test, so threads interleave at the
granularity of basic blocks, not only at allocations, callbacks and sweep steps. */
#ifdef SIM_PREEMPT
#define NOCOV __attribute__((no_sanitize("coverage")))
namespace { std::uint32_t n_guards = 0; }
NOCOV void sim::arm_preemption(TaskCtx &c,u64 seed,u64 mean,int rare) {
    c.prng = Rng(mix(seed,(u64)c.id));
    c.preempt_mean = mean;
    c.preempt_left = mean ? (i64)c.prng.below(mean*2)+1 : -1;
    c.rare = rare;
    if(rare) c.seen_blocks.assign(n_guards+1,0);
}
extern "C" NOCOV void __sanitizer_cov_trace_pc_guard_init(std::uint32_t *a,std::uint32_t *b) { for(; a<b; ++a) if(!*a) *a = ++n_guards; }
extern "C" NOCOV void __sanitizer_cov_trace_pc_guard(std::uint32_t *g) {
    sim::TaskCtx *t = sim::tls;
    if(!t || !t->sched || !t->in_sut || t->no_preempt || t->preempt_left < 0) return;
    bool go = --t->preempt_left <= 0;
    if(t->rare) {
        unsigned char &n = t->seen_blocks[*g];
        if(n < 2) { ++n; if(t->prng.below((sim::u64)t->rare) == 0) go = true; }
    }
    if(!go) return;
    t->preempt_left = (sim::i64)t->prng.below(t->preempt_mean*2)+1;
    ++t->preempts;
    int saved = t->in_sut;
    t->in_sut = 0;
    sim::yield_point();
    t->in_sut = saved;
}

/* Locks and one-time initialisation inside the code under test: a task that has to wait for
another one hands the baton over instead of blocking the whole simulation, and no task is
preempted while it runs a one-time initialisation. */
namespace {
template<class F> F next_sym(const char *n) { F f = reinterpret_cast<F>(dlsym(RTLD_NEXT,n)); if(!f) std::abort(); return f; }
bool simulated() { return sim::tls && sim::tls->sched && sim::tls->in_sut && !sim::tls->no_preempt; }
}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    static int (*real)(pthread_mutex_t*) = nullptr;   // no guard: this may be running inside one
    if(!real) real = next_sym<int(*)(pthread_mutex_t*)>("pthread_mutex_lock");
    if(!simulated()) return real(m);
    for(;;) {
        int r = pthread_mutex_trylock(m);
        if(r != EBUSY) return r;
        sim::User u; ++sim::tls->no_preempt; sim::tls->sched->yield_blocked(sim::tls->id); --sim::tls->no_preempt;
    }
}
extern "C" int __cxa_guard_acquire(std::uint64_t *g) {
    static int (*real)(std::uint64_t*) = nullptr;   // no guard: this may be running inside one
    if(!real) real = next_sym<int(*)(std::uint64_t*)>("__cxa_guard_acquire");
    int r = real(g);
    if(r && sim::tls) ++sim::tls->no_preempt;
    return r;
}
extern "C" void __cxa_guard_release(std::uint64_t *g) noexcept {
    static void (*real)(std::uint64_t*) = nullptr;   // no guard: this may be running inside one
    if(!real) real = next_sym<void(*)(std::uint64_t*)>("__cxa_guard_release");
    if(sim::tls) --sim::tls->no_preempt;
    real(g);
}
extern "C" void __cxa_guard_abort(std::uint64_t *g) noexcept {
    static void (*real)(std::uint64_t*) = nullptr;   // no guard: this may be running inside one
    if(!real) real = next_sym<void(*)(std::uint64_t*)>("__cxa_guard_abort");
    if(sim::tls) --sim::tls->no_preempt;
    real(g);
}
#else
void sim::arm_preemption(TaskCtx&,u64,u64,int) {}
#endif

namespace {
// default memory resource: per-task ledgered heap while a run is going
struct DispatchHeap : std::pmr::memory_resource {
    void *do_allocate(size_t b,size_t a) override;
    void do_deallocate(void *p,size_t b,size_t a) override;
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
} dispatch;
thread_local Heap *tl_default = nullptr;
void *DispatchHeap::do_allocate(size_t b,size_t a) { return tl_default ? tl_default->allocate(b,a) : std::pmr::new_delete_resource()->allocate(b,a); }
void DispatchHeap::do_deallocate(void *p,size_t b,size_t a) { if(tl_default) tl_default->deallocate(p,b,a); else std::pmr::new_delete_resource()->deallocate(p,b,a); }

using World = ClipWorld<Coord,Index>;

// 64-bit coordinates are kept where double (real_coord_t) is exact to a unit
Limits limits() { return {(i64)1 << std::min<int>(sizeof(Coord)*8-3,51)}; }

// one task's whole life; the same code whether it runs alone or interleaved
__attribute__((noinline)) void run_world(World &w,int t) {
    i64 live0 = new_live;
    w.run_ops(t); w.finish();
    // blocks taken with operator new by the library must be gone with its objects
    if(new_live != live0) for(const char *p : {"C05","C06","C15"}) w.V(p,"new_leak",std::to_string(new_live-live0) + " blocks from operator new never freed");
    new_live = live0;
}

Result run_clip_once(const Plan &p,std::set<std::string> *want,Stats &st,bool verbose,i64 override_fill=-1) {
    Plan pl = p;
    if(override_fill >= 0) { pl.cfg["heapfill"] = override_fill % 4; pl.cfg["heapseed"] = override_fill*17+3; pl.cfg["heapreuse"] = override_fill & 1; }
    Collector col;
    Result r;
    int tasks = (int)pl.get("tasks",1);
    if(tasks <= 1) {
        TaskCtx ctx;
        tls = &ctx;
        new_fill = (int)pl.get("heapfill") % 4; new_fill_state = (u64)pl.get("seed",1);
        World w(col,st,pl);
        w.want = want; w.verbose = verbose;
        tl_default = &w.dheap;
        run_world(w,0);
        tl_default = nullptr;
        r.hash = w.hist.h; r.nontrivial = w.nontrivial;
        if(verbose) for(auto &l : w.log) std::cerr << l << '\n';
        tls = nullptr;
    } else {
        // solo reference runs
        Hash tot;
        std::vector<u64> solo(tasks), inter(tasks);
        for(int t=0; t<tasks; ++t) {
            TaskCtx ctx; ctx.id = t; tls = &ctx;
            Stats dummy;
            new_fill = (int)pl.get("heapfill") % 4; new_fill_state = (u64)pl.get("seed",1);
            World w(col,dummy,pl);
            w.want = want;
            tl_default = &w.dheap;
            run_world(w,t);
            tl_default = nullptr; tls = nullptr;
            solo[t] = w.hist.h;
        }
        Scheduler sc;
        sc.init(tasks,(u64)pl.get("sched_seed",1),(int)pl.get("sched_mode",0),(int)pl.get("sched_sticky",4));
        std::vector<Stats> sts(tasks);
        std::vector<std::thread> th;
        std::vector<u64> nt(tasks);
        for(int t=0; t<tasks; ++t) th.emplace_back([&,t]{
            TaskCtx ctx; ctx.id = t; ctx.sched = &sc; tls = &ctx;
            arm_preemption(ctx,(u64)pl.get("sched_seed",1),(u64)pl.get("sched_mean",0),(int)pl.get("sched_rare",0));
            sc.wait_turn(t);
            {
                new_fill = (int)pl.get("heapfill") % 4; new_fill_state = (u64)pl.get("seed",1);
                World w(col,sts[t],pl);
                w.want = want;
                tl_default = &w.dheap;
                run_world(w,t);
                tl_default = nullptr;
                inter[t] = w.hist.h; nt[t] = w.nontrivial;
                sts[t].inc("sched_preemptions",ctx.preempts);
            }
            tls = nullptr;
            sc.done(t);
        });
        sc.start();
        for(auto &t : th) t.join();
        for(int t=0; t<tasks; ++t) {
            tot.add(inter[t]); r.nontrivial += nt[t];
            for(auto &[k,v] : sts[t].n) { if(k.rfind("max_",0) == 0) st.mx(k,v); else st.inc(k,v); }
            if(solo[t] != inter[t] && (!want || want->count("C08"))) col.viol("C08","interference","task " + std::to_string(t) + " behaved differently when interleaved with the others than alone");
        }
        st.inc("sched_switches",sc.switches); st.inc("sched_yields",sc.yields);
        if(sc.switches > (u64)tasks) ++r.nontrivial;
        r.sched = sc.trace.h;
        tot.add(sc.trace.h);
        r.hash = tot.h;
    }
    r.v = col.v;
    return r;
}

} // namespace

Result run_plan(const Plan &p,std::set<std::string> *want,Stats &st,bool verbose) {
    arm_cpu(20);
    Result r = run_clip_once(p,want,st,verbose);
    if(r.v.empty() && want && want->count("C09")) {
        for(int f=0; f<3; ++f) {
            Stats d;
            Result q = run_clip_once(p,want,d,false,f*7+1);
            if(q.hash != r.hash) { r.v.push_back({"C09","content_dependent","the same calls behaved differently under different memory contents"}); break; }
        }
        st.inc("c09_refills",3);
    }
    arm_cpu(0);
    return r;
}

Plan plan_for(const std::string &prop,u64 seed,u64 index) {
    Planner pl(prop,mix(mix(seed,index),(u64)prop[1]*256+(u64)prop[2]+65536*sizeof(Coord)),limits());
    Plan p = pl.make();
    p.cfg["prop"] = std::stoi(prop.substr(1));
    p.cfg["coord"] = sizeof(Coord)*8;
    p.cfg["index"] = sizeof(Index)*8;
    return p;
}

int main(int argc,char **argv) {
    std::pmr::set_default_resource(&dispatch);
    return driver_main(argc,argv);
}
