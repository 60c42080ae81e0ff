// Simulation core: one seed/plan decides everything.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <memory>
#include <memory_resource>
#include <new>
#include <random>
#include <algorithm>
#include <functional>
#include <optional>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <exception>
#include <sstream>
#include <iostream>
#include <fstream>
#include <numeric>
#include <cmath>
#include <csignal>
#include <list>
#include <deque>
#include <ranges>
#include <span>
#include <compare>
#include <concepts>
#include <numbers>
#include <tuple>
#include <utility>
#include <limits>
#include <iterator>
#include <type_traits>
#include <bit>
#include <cassert>
#include <unistd.h>
#include <sys/time.h>
#include <sys/mman.h>
#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define SIM_ASAN 1
# endif
#endif
#if defined(__SANITIZE_ADDRESS__)
# define SIM_ASAN 1
#endif
#ifdef SIM_ASAN
# include <sanitizer/asan_interface.h>
#endif

namespace sim {

using i64 = std::int64_t;
using u64 = std::uint64_t;
using i128 = __int128;

struct Rng {
    u64 s;
    explicit Rng(u64 seed=0) : s(seed) {}
    u64 next() {
        u64 z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 lo,i64 hi) { return lo + (i64)below((u64)(hi-lo+1)); }
    bool chance(int num,int den) { return (int)below((u64)den) < num; }
    template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
inline u64 mix(u64 a,u64 b) { Rng r(a ^ (b*0x9e3779b97f4a7c15ull + 0x1234567)); r.next(); return r.next(); }

struct Hash {
    u64 h = 1469598103934665603ull;
    void add(u64 v) { h = mix(h,v); }
    void add(const std::string &s) { for(char c : s) { h ^= (unsigned char)c; h *= 1099511628211ull; } }
};

using Pt = std::pair<i64,i64>;
using Loop = std::vector<Pt>;

// ---------------------------------------------------------------- plan
struct Op {
    std::string kind;
    std::map<std::string,i64> a;
    Loop pts;
    i64 get(const std::string &k,i64 d=0) const { auto i=a.find(k); return i==a.end() ? d : i->second; }
};
struct Plan {
    std::map<std::string,i64> cfg;
    std::vector<Op> ops;
    i64 get(const std::string &k,i64 d=0) const { auto i=cfg.find(k); return i==cfg.end() ? d : i->second; }

    std::string text() const {
        std::ostringstream o;
        o << "polysim-plan 1\ncfg";
        for(auto &[k,v] : cfg) o << ' ' << k << '=' << v;
        o << '\n';
        for(auto &op : ops) {
            o << "op " << op.kind;
            for(auto &[k,v] : op.a) o << ' ' << k << '=' << v;
            if(!op.pts.empty()) {
                o << " :";
                for(auto &p : op.pts) o << ' ' << p.first << ',' << p.second;
            }
            o << '\n';
        }
        return o.str();
    }
    static bool parse(std::istream &in,Plan &p) {
        std::string line;
        if(!std::getline(in,line) || line.rfind("polysim-plan",0) != 0) return false;
        while(std::getline(in,line)) {
            if(line.empty() || line[0] == '#') continue;
            std::istringstream s(line);
            std::string w;
            s >> w;
            if(w == "cfg") {
                while(s >> w) { auto e = w.find('='); p.cfg[w.substr(0,e)] = std::stoll(w.substr(e+1)); }
            } else if(w == "op") {
                Op op;
                s >> op.kind;
                bool pts = false;
                while(s >> w) {
                    if(w == ":") { pts = true; continue; }
                    if(pts) { auto e = w.find(','); op.pts.emplace_back(std::stoll(w.substr(0,e)),std::stoll(w.substr(e+1))); }
                    else { auto e = w.find('='); op.a[w.substr(0,e)] = std::stoll(w.substr(e+1)); }
                }
                p.ops.push_back(std::move(op));
            } else return false;
        }
        return true;
    }
};

// ---------------------------------------------------------------- statistics shared by runs of one process
struct Stats {
    std::map<std::string,u64> n;
    void inc(const std::string &k,u64 by=1) { n[k] += by; }
    void mx(const std::string &k,u64 v) { auto &r = n[k]; if(v > r) r = v; }
};

struct Violation { std::string prop, kind, msg; };
struct VSink {
    virtual void viol(const char *prop,const std::string &kind,const std::string &msg) = 0;
    virtual ~VSink() = default;
};


// ---------------------------------------------------------------- rounding coins
enum RndMode { RM_REAL=0, RM_FAIR=1, RM_LOW=2, RM_HIGH=3, RM_ALT=4, RM_XYOPP=5, RM_BIAS=6, RM_BURST=7, RM_BITS=8, RM_COUNT=9 };
struct RndCtl {
    int mode = RM_REAL;
    Rng rng{1};
    u64 seed = 1;
    u64 k = 0;         // burst length before becoming fair
    u64 calls = 0;
    bool low_high(u64 n,int m) {
        switch(m) {
        case RM_LOW: return false;
        case RM_HIGH: return true;
        case RM_ALT: return n & 1;
        case RM_XYOPP: return ((n >> 1) ^ n) & 1;
        case RM_BIAS: return rng.below(16) == 0;
        case RM_BITS: return (seed >> (n % 61)) & 1;
        default: return rng.next() & 1;
        }
    }
    bool coin() {
        u64 n = calls++;
        // every mode except FAIR is adverse for at most k coins, then fair
        if(mode != RM_FAIR && n < k) return low_high(n,mode);
        return rng.next() & 1;
    }
    void start(int m,u64 s,u64 burst) { mode = m; seed = s; rng = Rng(s); k = burst; calls = 0; }
};

// ---------------------------------------------------------------- faults
struct Injected { u64 id; };                 // thrown by simulated caller code
struct StepCap { };                          // thrown when a run exceeds its step bound

enum FaultKind { F_NONE=0, F_ALLOC=1, F_QUOTA=2, F_ITER=3, F_TRK=4, F_FILL=5, F_ALLOCP=6 };
inline const char *fault_name(int k) {
    static const char *n[] = {"none","alloc","alloc_quota","iterator_throw","tracker_throw","callback_throw","alloc_probabilistic"};
    return n[k];
}
struct Fault {
    int kind = F_NONE;
    i64 at = 0;      // index (0-based) within this operation
    i64 count = 1;   // how many consecutive hits fail; 0 = all later ones
    i64 seen = 0;
    i64 fired = 0;
    Rng rng{1};
    bool hit(int k) {
        if(kind != k) return false;
        i64 n = seen++;
        bool f = n >= at && (count == 0 || n < at + count);
        if(f) ++fired;
        return f;
    }
};

// ---------------------------------------------------------------- scheduler (baton over parked threads)
struct Scheduler {
    std::mutex m;
    std::condition_variable cv;
    int current = -1;
    std::vector<char> alive;
    Rng rng{1};
    int mode = 0;           // 0 uniform, 1 sticky, 2 priority with change points
    std::vector<u64> prio;
    u64 switches = 0, yields = 0;
    Hash trace;
    int sticky = 4;

    void init(int n,u64 seed,int md,int st) {
        alive.assign(n,1); rng = Rng(seed); mode = md; sticky = st < 1 ? 1 : st; current = -1; switches = yields = 0; trace = Hash{};
        prio.clear();
        for(int i=0; i<n; ++i) prio.push_back(rng.next());
    }
    int choose(int from) {
        std::vector<int> c;
        for(int i=0; i<(int)alive.size(); ++i) if(alive[i]) c.push_back(i);
        if(c.empty()) return -1;
        if(mode == 1 && from >= 0 && alive[from] && rng.below((u64)sticky) != 0) return from;
        if(mode == 2) {
            if(from >= 0 && rng.below((u64)sticky*4) == 0) prio[from] = rng.next() >> 1;
            return *std::max_element(c.begin(),c.end(),[&](int a,int b){ return prio[a] < prio[b]; });
        }
        return c[rng.below(c.size())];
    }
    void yield(int me) {
        std::unique_lock<std::mutex> l(m);
        ++yields;
        int nx = choose(me);
        trace.add((u64)nx);
        if(nx == me) return;
        ++switches;
        current = nx;
        cv.notify_all();
        cv.wait(l,[&]{ return current == me; });
    }
    // the caller cannot go on (it waits for a lock another task holds): hand over to anyone else
    void yield_blocked(int me) {
        std::unique_lock<std::mutex> l(m);
        ++yields;
        std::vector<int> c;
        for(int i=0; i<(int)alive.size(); ++i) if(alive[i] && i != me) c.push_back(i);
        if(c.empty()) return;
        int nx = c[rng.below(c.size())];
        trace.add((u64)nx + 100);
        ++switches;
        current = nx;
        cv.notify_all();
        cv.wait(l,[&]{ return current == me; });
    }
    void wait_turn(int me) {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l,[&]{ return current == me; });
    }
    void done(int me) {
        std::unique_lock<std::mutex> l(m);
        alive[me] = 0;
        current = choose(-1);
        trace.add(1000u + (u64)me);
        cv.notify_all();
    }
    void start() {
        std::unique_lock<std::mutex> l(m);
        current = choose(-1);
        cv.notify_all();
    }
};

// ---------------------------------------------------------------- per-task context
struct TaskCtx {
    int id = 0;
    Scheduler *sched = nullptr;
    int in_sut = 0;
    Fault fault;
    RndCtl rnd;
    u64 steps = 0, step_cap = ~0ull;
    u64 allocs = 0, op_allocs = 0;
    int pool_depth = 0; u64 pool_allocs = 0;
    u64 coins = 0;
    bool new_faults = false;     // allocation faults also reach global operator new

    // preemption between any two basic blocks of the code under test (SIM_PREEMPT builds)
    int no_preempt = 0;
    i64 preempt_left = -1;       // blocks until the next preemption; < 0: off
    u64 preempt_mean = 0;
    u64 preempts = 0;
    Rng prng{1};
    std::vector<unsigned char> seen_blocks;   // how often each block was entered, up to 2
    int rare = 0;                // 1 in this many early entries of a block preempts, 0: off
};
inline thread_local TaskCtx *tls = nullptr;

struct Sut { Sut() { if(tls) ++tls->in_sut; } ~Sut() { if(tls) --tls->in_sut; } };
struct User { int saved; User() : saved(tls ? tls->in_sut : 0) { if(tls) tls->in_sut = 0; } ~User() { if(tls) tls->in_sut = saved; } };

inline void yield_point() {
    if(!tls || !tls->sched || tls->no_preempt) return;
    ++tls->no_preempt;
    tls->sched->yield(tls->id);
    --tls->no_preempt;
}
void arm_preemption(TaskCtx &c,u64 seed,u64 mean,int rare);   // does nothing unless built with SIM_PREEMPT
inline void on_step() {
    if(!tls) return;
    ++tls->steps;
    if(tls->steps > tls->step_cap) throw StepCap{};
    yield_point();
}

// fatal conditions that cannot unwind: print a stable line and leave
[[noreturn]] inline void fatal(int code,const char *kind,const char *msg) {
    char buf[768];
    int n = std::snprintf(buf,sizeof buf,"FATAL kind=%s msg=%s\n",kind,msg);
    if(n > (int)sizeof buf) n = sizeof buf;
    (void)!write(2,buf,(size_t)n);
    _exit(code);
}

struct AssertFailed { std::string what; };   // an internal consistency check of the library failed
[[noreturn]] inline void assertion_failed(const char *x,const char *fn) { throw AssertFailed{std::string(x) + " in " + fn}; }

// ---------------------------------------------------------------- simulated heap
struct HeapErr { std::string what; };
class Heap : public std::pmr::memory_resource {
    struct Block { size_t bytes, align, total; char *base; };
    std::unordered_map<void*,Block> live;
    std::vector<std::pair<size_t,char*>> recycle;
public:
    std::string name;
    u64 fill_seed = 0;
    int fill_mode = 0;    // 0 pattern bytes from rng, 1 zero, 2 0xff, 3 0x80.., 4 stale: leave recycled content
    int reuse_mode = 0;   // 0 never reuse, 1 LIFO reuse of equal-size blocks
    size_t quota = 0;
    size_t live_bytes = 0, peak = 0;
    u64 n_alloc = 0, n_free = 0;
    std::vector<std::string> errors;
    Rng rng{7};

    ~Heap() { release_all(); }
    size_t live_blocks() const { return live.size(); }
    void release_all() {
        for(auto &[p,b] : live) raw_free(b);
        live.clear();
        for(auto &[t,b] : recycle) { (void)t; unpoison(b,t); std::free(b); }
        recycle.clear();
        live_bytes = 0;
    }
private:
    static void poison(void *p,size_t n) {
#ifdef SIM_ASAN
        ASAN_POISON_MEMORY_REGION(p,n);
#else
        (void)p; (void)n;
#endif
    }
    static void unpoison(void *p,size_t n) {
#ifdef SIM_ASAN
        ASAN_UNPOISON_MEMORY_REGION(p,n);
#else
        (void)p; (void)n;
#endif
    }
    static void raw_free(Block &b) { unpoison(b.base,b.total); std::free(b.base); }
    void fill(char *p,size_t n) {
        switch(fill_mode) {
        case 1: std::memset(p,0,n); break;
        case 2: std::memset(p,0xff,n); break;
        case 3: std::memset(p,0x80,n); break;
        default: for(size_t i=0; i<n; i+=8) { u64 v = rng.next(); std::memcpy(p+i,&v,std::min<size_t>(8,n-i)); }
        }
    }
    void *do_allocate(size_t bytes,size_t align) override {
        User u;
        yield_point();
        ++n_alloc;
        if(tls && u.saved) {
            ++tls->allocs; ++tls->op_allocs;
            // libstdc++'s pool resource swallows a failure of its chunk-list growth and then
            // crashes (see pool_shim in main.cpp): that one allocation is never failed
            bool immune = tls->pool_depth && tls->pool_allocs++ > 0;
            if(immune) {}
            else if(tls->fault.hit(F_ALLOC)) throw std::bad_alloc();
            else if(tls->fault.kind == F_ALLOCP) { if(tls->fault.rng.below((u64)tls->fault.at+2) == 0) { ++tls->fault.fired; throw std::bad_alloc(); } }
            else if(tls->fault.kind == F_QUOTA && live_bytes + bytes > (size_t)tls->fault.at) { ++tls->fault.fired; throw std::bad_alloc(); }
        }
        if(bytes > (size_t(1) << 28)) throw std::bad_alloc();
        if(align < 1) align = 1;
        size_t pad = align < 16 ? 32 : align*2;
        size_t total = bytes + 2*pad + 2*align;
        char *base = nullptr;
        if(reuse_mode == 1) {
            for(size_t i=recycle.size(); i-- > 0;) if(recycle[i].first == total) {
                base = recycle[i].second; recycle.erase(recycle.begin()+(std::ptrdiff_t)i); unpoison(base,total); break;
            }
        }
        bool fresh = !base;
        if(!base) base = (char*)std::malloc(total);
        // the block starts at an address aligned to exactly 'align' and not to twice that
        std::uintptr_t p = (std::uintptr_t)base + pad;
        p = (p + align - 1) / align * align;
        if(align < 64 && p % (align*2) == 0) p += align;
        char *r = (char*)p;
        if(fresh || fill_mode != 4) fill(r,bytes);
        poison(base,total);
        unpoison(r,bytes);
        live[r] = Block{bytes,align,total,base};
        live_bytes += bytes;
        peak = std::max(peak,live_bytes);
        return r;
    }
    void do_deallocate(void *p,size_t bytes,size_t align) override {
        User u;
        ++n_free;
        auto i = live.find(p);
        if(i == live.end()) { errors.push_back("deallocate of a block this resource does not have outstanding"); return; }
        Block b = i->second;
        if(b.bytes != bytes || b.align != align) {
            std::ostringstream o;
            o << "block allocated with size " << b.bytes << " align " << b.align << " returned with size " << bytes << " align " << align;
            errors.push_back(o.str());
        }
        live_bytes -= b.bytes;
        live.erase(i);
        if(fill_mode != 4) std::memset(p,0xdd,b.bytes);
        if(reuse_mode == 1 && recycle.size() < 256) { poison(b.base,b.total); recycle.emplace_back(b.total,b.base); }
        else raw_free(b);
    }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
};

} // namespace sim

// The library's rounding generator (std::minstd_rand) is the seam for rounding
// nondeterminism: this engine keeps real per-object minstd state in RM_REAL mode
// and otherwise takes each coin from the simulator.
namespace std {
struct sim_minstd_rand {
    using result_type = std::uint_fast32_t;
    std::uint64_t state = 1;
    sim_minstd_rand() = default;
    explicit sim_minstd_rand(result_type s) : state(s % 2147483647 ? s % 2147483647 : 1) {}
    static constexpr result_type min() { return 1; }
    static constexpr result_type max() { return 2147483646; }
    void seed(result_type s = 1) { state = s % 2147483647 ? s % 2147483647 : 1; }
    void discard(unsigned long long n) { while(n--) (void)(*this)(); }
    result_type operator()() {
        state = state * 48271 % 2147483647;
        if(sim::tls) {
            ++sim::tls->coins;
            if(sim::tls->rnd.mode != sim::RM_REAL) return sim::tls->rnd.coin() ? 2147483600u : 17u;
        }
        return static_cast<result_type>(state);
    }
};
}
