// Global operator new/delete under the simulator: what the code under test allocates this way is
// filled, counted and may be failed like an allocation from a memory resource.
#pragma once
#include "core.hpp"
namespace sim {
inline thread_local i64 new_live = 0;      // blocks the code under test has outstanding
inline thread_local int new_fill = 0;      // content of fresh blocks: 0 pseudo-random, 1 zero, 2 0xff, 3 0x80
inline thread_local u64 new_fill_state = 1;
}
__attribute__((noinline,no_sanitize("undefined"))) void *operator new(std::size_t n) {
    using namespace sim;
    bool sut = tls && tls->in_sut;
    if(sut) {
        int saved = tls->in_sut;
        tls->in_sut = 0;
        bool fail = false;
        if(!tls->new_faults) {}
        else if(tls->fault.kind == F_ALLOC) fail = tls->fault.hit(F_ALLOC);
        else if(tls->fault.kind == F_ALLOCP) { fail = tls->fault.rng.below((u64)tls->fault.at+2) == 0; if(fail) ++tls->fault.fired; }
        tls->in_sut = saved;
        if(fail) throw std::bad_alloc();
        if(tls->new_faults) { ++tls->allocs; ++tls->op_allocs; }
    }
    char *b = n > (std::size_t(1) << 30) ? nullptr : (char*)std::malloc(n + 16);
    if(!b) throw std::bad_alloc();
    *(u64*)b = sut ? 0x5157 : 0;
    if(sut) {
        ++new_live;
        switch(new_fill) {
        case 1: std::memset(b+16,0,n); break;
        case 2: std::memset(b+16,0xff,n); break;
        case 3: std::memset(b+16,0x80,n); break;
        default: for(std::size_t i=0; i<n; i+=8) { u64 v = mix(new_fill_state++,7); std::memcpy(b+16+i,&v,std::min<std::size_t>(8,n-i)); }
        }
    }
#ifdef SIM_ASAN
    ASAN_POISON_MEMORY_REGION(b+8,8);
#endif
    return b + 16;
}
__attribute__((noinline,no_sanitize("undefined"))) void operator delete(void *p) noexcept {
    if(!p) return;
    char *b = (char*)p - 16;
    if(*(sim::u64*)b == 0x5157) --sim::new_live;
    std::free(b);
}
void operator delete(void *p,std::size_t) noexcept { operator delete(p); }
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p,std::size_t) noexcept { operator delete(p); }
void *operator new(std::size_t n,const std::nothrow_t&) noexcept { try { return operator new(n); } catch(...) { return nullptr; } }
void *operator new[](std::size_t n,const std::nothrow_t&) noexcept { try { return operator new(n); } catch(...) { return nullptr; } }
void operator delete(void *p,const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void *p,const std::nothrow_t&) noexcept { operator delete(p); }
