// operator new that fails on request: fail_at(n) makes the n-th allocation from now on fail (0: the next one, -1: none)
#include <cstdlib>
#include <new>
static thread_local long left = -1;
extern "C" __attribute__((visibility("default"))) void fail_at(long n) { left = n; }
extern "C" __attribute__((visibility("default"))) long not_reached() { return left >= 0; }
void *operator new(std::size_t n) {
    if(left >= 0 && left-- == 0) throw std::bad_alloc();
    void *p = std::malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    return p;
}
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p,std::size_t) noexcept { std::free(p); }
void operator delete[](void *p,std::size_t) noexcept { std::free(p); }
void *operator new(std::size_t n,std::align_val_t a) {
    if(left >= 0 && left-- == 0) throw std::bad_alloc();
    void *p = std::aligned_alloc(std::size_t(a),(n + std::size_t(a) - 1) / std::size_t(a) * std::size_t(a));
    if(!p) throw std::bad_alloc();
    return p;
}
void operator delete(void *p,std::align_val_t) noexcept { std::free(p); }
void operator delete(void *p,std::size_t,std::align_val_t) noexcept { std::free(p); }
