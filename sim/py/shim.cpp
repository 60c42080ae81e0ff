/* Simulator core for the Python binding. One shared object that is preloaded into the interpreter (so that it owns
operator new, semaphores and the standard pool resource) and imported as the module "polyshim".

- The extension under test is compiled with PyEval_SaveThread/RestoreThread renamed to the functions here and with
  -fsanitize-coverage=trace-pc-guard: a task may lose the baton whenever it does not hold the interpreter lock, at every
  basic block of the code under test, and whenever the lock is released or taken.
- Only the task that has the baton runs. Tasks waiting for it never hold the interpreter lock.
- The n-th C++ or Python allocation made inside a call can be failed. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory_resource>
#include <mutex>
#include <new>
#include <vector>

#define NOCOV __attribute__((no_sanitize("coverage")))
#define EXPORT __attribute__((visibility("default")))
typedef std::uint64_t u64; typedef std::int64_t i64;

namespace {
u64 mix(u64 z) { z = (z ^ (z>>30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z>>27)) * 0x94d049bb133111ebull; return z ^ (z>>31); }
struct Rng { u64 s = 1; u64 next() { return mix(s += 0x9e3779b97f4a7c15ull); } u64 below(u64 n) { return n ? next() % n : 0; } };

struct Task {
    int id = -1;
    bool gil = true;
    int quiet = 0;                 // no preemption
    int in_call = 0;
    i64 left = -1; u64 mean = 0; int rare = 0;
    Rng rng;
    std::vector<unsigned char> seen;
    // faults of the current call
    i64 cxx_n = -1, py_n = -1; bool cxx_sticky = false, py_sticky = false;
    i64 cxx_count = 0, py_count = 0, fired = 0;
    int pool_depth = 0, pool_allocs = 0;
};
thread_local Task *tls = nullptr;

struct Sched {
    // plain pthread primitives: this must not go through anything interposed below
    pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
    pthread_cond_t c = PTHREAD_COND_INITIALIZER;
    std::vector<int> alive, blocked;
    int current = -1;              // -1: nobody, the main thread decides
    Rng rng;
    u64 yields = 0, switches = 0, trace = 0xcbf29ce484222325ull, preempts = 0, mode = 0;
    int sticky = 1;
    bool active = false, stop = false;
    i64 clock = 0, stuck = 0;
    std::vector<char> order;       // tasks in the order they took a C++ lock: where a search for a sequential order starts
} S;
int gil_owner = -1;                // task that holds the interpreter lock, -1: none of the tasks
std::uint32_t n_guards = 0;
u64 ungilled = 0;

[[noreturn]] void fatal(const char *kind,const char *msg) {
    char b[256]; int n = std::snprintf(b,sizeof b,"FATAL kind=%s msg=%s\n",kind,msg);
    (void)!write(2,b,n);
    _exit(96);
}

void note(int to) { S.trace = (S.trace ^ (u64)(to+1)) * 0x100000001b3ull; }

void hand_over(int me,int to) {    // with S.m held
    ++S.switches; note(to);
    S.current = to;
    pthread_cond_broadcast(&S.c);
    while(S.current != me) pthread_cond_wait(&S.c,&S.m);
}

// give the baton away (perhaps); must be called without the interpreter lock
void yield_now(bool must) {
    Task *t = tls;
    if(!t || !S.active) return;
    pthread_mutex_lock(&S.m);
    ++S.yields; ++S.clock;
    if(must) {
        S.blocked[t->id] = 1;
        std::vector<int> o;
        for(int i=0; i<(int)S.alive.size(); ++i) if(S.alive[i] && !S.blocked[i]) o.push_back(i);
        if(o.empty()) {
            // everybody waits: let each look again a few times; without progress it is a deadlock
            for(int i=0; i<(int)S.alive.size(); ++i) if(S.alive[i] && i != t->id) o.push_back(i);
            if(o.empty() || ++S.stuck > 200*(i64)S.alive.size()) fatal("deadlock","every thread waits for a lock another one holds");
        }
        hand_over(t->id,o[S.rng.below(o.size())]);
        S.blocked[t->id] = 0;
    } else {
        for(auto &b : S.blocked) b = 0;
        S.stuck = 0;
        bool go = S.mode == 2 ? true : S.rng.below((u64)S.sticky) == 0;
        if(go) {
            std::vector<int> o;
            for(int i=0; i<(int)S.alive.size(); ++i) if(S.alive[i]) o.push_back(i);
            int nx = o[S.rng.below(o.size())];
            if(nx != t->id) hand_over(t->id,nx);
        }
    }
    pthread_mutex_unlock(&S.m);
}
void maybe_yield(bool must) { Task *t = tls; if(!t || t->quiet) return; ++t->quiet; yield_now(must); --t->quiet; }
}

extern "C" EXPORT PyThreadState *polysim_SaveThread() {
    // quiet: the locks inside the interpreter are not scheduling points (threads that have not started yet use them too)
    if(tls) ++tls->quiet;
    PyThreadState *s = PyEval_SaveThread();
    if(tls) --tls->quiet;
    if(tls) tls->gil = false;
    if(tls && S.active) { gil_owner = -1; maybe_yield(false); }
    return s;
}
extern "C" EXPORT void polysim_RestoreThread(PyThreadState *s) {
    if(tls && S.active) {
        maybe_yield(false);
        while(gil_owner != -1) maybe_yield(true);
        gil_owner = tls->id;
        ++tls->quiet;
        PyEval_RestoreThread(s);
        --tls->quiet;
        tls->gil = true;
        return;
    }
    if(tls) ++tls->quiet;
    PyEval_RestoreThread(s);
    if(tls) { --tls->quiet; tls->gil = true; }
}

extern "C" EXPORT NOCOV void polysim_need_gil() {
    if(tls && tls->in_call && !tls->gil) fatal("no_gil","the interpreter is used without holding its lock");
}

// ---------------------------------------------------------------- preemption between basic blocks
extern "C" EXPORT NOCOV void __sanitizer_cov_trace_pc_guard_init(std::uint32_t *a,std::uint32_t *b) { for(; a<b; ++a) if(!*a) *a = ++n_guards; }
extern "C" EXPORT NOCOV void __sanitizer_cov_trace_pc_guard(std::uint32_t *g) {
    Task *t = tls;
    if(!t || t->gil || t->quiet || t->left < 0) return;
    bool go = --t->left <= 0;
    if(t->rare) {
        if(t->seen.size() <= n_guards) t->seen.resize(n_guards+1);
        unsigned char &n = t->seen[*g];
        if(n < 2) { ++n; if(t->rng.below((u64)t->rare) == 0) go = true; }
    }
    if(!go) return;
    t->left = (i64)t->rng.below(t->mean*2) + 1;
    ++S.preempts;
    ++t->quiet; yield_now(false); --t->quiet;
}

// ---------------------------------------------------------------- locks
template<class F> static F next_sym(const char *n) { F f = reinterpret_cast<F>(dlsym(RTLD_NEXT,n)); if(!f) std::abort(); return f; }
static bool simulated() { return tls && S.active && !tls->quiet; }
static void wait_turn_for_lock() {
    if(tls->gil && tls->in_call) {
        // waiting for a lock while holding the interpreter lock: nobody else can run Python meanwhile
    } else if(gil_owner == tls->id) gil_owner = -1;
    maybe_yield(true);
}
extern "C" EXPORT int sem_wait(sem_t *s) {
    static int (*real)(sem_t*) = nullptr;
    if(!real) real = next_sym<int(*)(sem_t*)>("sem_wait");
    if(!simulated()) return real(s);
    // the interpreter has released its lock before it blocks here
    int owner = gil_owner; bool g = tls->gil;
    if(owner == tls->id) gil_owner = -1;
    tls->gil = false;
    for(;;) { if(sem_trywait(s) == 0) break; if(errno != EAGAIN) { int e = errno; tls->gil = g; gil_owner = owner; errno = e; return -1; } maybe_yield(true); }
    while(gil_owner != -1) maybe_yield(true);
    if(owner == tls->id) gil_owner = owner;
    tls->gil = g;
    return 0;
}
extern "C" EXPORT int sem_clockwait(sem_t *s,clockid_t c,const struct timespec *t) {
    static int (*real)(sem_t*,clockid_t,const struct timespec*) = nullptr;
    if(!real) real = next_sym<int(*)(sem_t*,clockid_t,const struct timespec*)>("sem_clockwait");
    if(!simulated()) return real(s,c,t);
    return sem_wait(s);
}
extern "C" EXPORT int sem_timedwait(sem_t *s,const struct timespec *t) {
    static int (*real)(sem_t*,const struct timespec*) = nullptr;
    if(!real) real = next_sym<int(*)(sem_t*,const struct timespec*)>("sem_timedwait");
    if(!simulated()) return real(s,t);
    return sem_wait(s);
}
static int counted_trylock(pthread_mutex_t *m) {
    static int (*real)(pthread_mutex_t*) = nullptr;
    if(!real) real = next_sym<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    int r = real(m);
    if(r == 0 && simulated() && tls->in_call && !tls->quiet && S.order.size() < 4096) {
        int q = tls->quiet; tls->quiet = 1;
        S.order.push_back(char(tls->id));
        tls->quiet = q;
    }
    return r;
}
extern "C" EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { return counted_trylock(m); }
extern "C" EXPORT int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    static int (*real)(pthread_mutex_t*) = nullptr;
    if(!real) real = next_sym<int(*)(pthread_mutex_t*)>("pthread_mutex_lock");
    if(!simulated() || !tls->in_call) return real(m);
    for(;;) {
        int r = counted_trylock(m);
        if(r != EBUSY) return r;
        wait_turn_for_lock();
    }
}

// ---------------------------------------------------------------- allocation
static i64 live_cxx = 0, live_py = 0;
static void *cxx_alloc(std::size_t n,std::size_t al,bool nothrow) {
    Task *t = tls;
    if(t && t->in_call && !t->quiet) {
        bool exempt = t->pool_depth && t->pool_allocs++;
        i64 k = t->cxx_count++;
        if(t->cxx_n >= 0 && !exempt && (k == t->cxx_n || (t->cxx_sticky && k > t->cxx_n))) {
            if(nothrow) return nullptr;         // the caller has another way (std::stable_sort)
            ++t->fired;
            throw std::bad_alloc();
        }
    }
    void *p = al > 16 ? aligned_alloc(al,(n+al-1)/al*al) : std::malloc(n ? n : 1);
    if(!p) { if(nothrow) return nullptr; throw std::bad_alloc(); }
    __atomic_add_fetch(&live_cxx,1,__ATOMIC_RELAXED);
    return p;
}
static void cxx_free(void *p) { if(p) { __atomic_sub_fetch(&live_cxx,1,__ATOMIC_RELAXED); std::free(p); } }
EXPORT void *operator new(std::size_t n) { return cxx_alloc(n,0,false); }
EXPORT void *operator new[](std::size_t n) { return cxx_alloc(n,0,false); }
EXPORT void *operator new(std::size_t n,const std::nothrow_t&) noexcept { return cxx_alloc(n,0,true); }
EXPORT void *operator new[](std::size_t n,const std::nothrow_t&) noexcept { return cxx_alloc(n,0,true); }
EXPORT void *operator new(std::size_t n,std::align_val_t a) { return cxx_alloc(n,(std::size_t)a,false); }
EXPORT void *operator new[](std::size_t n,std::align_val_t a) { return cxx_alloc(n,(std::size_t)a,false); }
EXPORT void *operator new(std::size_t n,std::align_val_t a,const std::nothrow_t&) noexcept { return cxx_alloc(n,(std::size_t)a,true); }
EXPORT void *operator new[](std::size_t n,std::align_val_t a,const std::nothrow_t&) noexcept { return cxx_alloc(n,(std::size_t)a,true); }
EXPORT void operator delete(void *p) noexcept { cxx_free(p); }
EXPORT void operator delete[](void *p) noexcept { cxx_free(p); }
EXPORT void operator delete(void *p,std::size_t) noexcept { cxx_free(p); }
EXPORT void operator delete[](void *p,std::size_t) noexcept { cxx_free(p); }
EXPORT void operator delete(void *p,std::align_val_t) noexcept { cxx_free(p); }
EXPORT void operator delete[](void *p,std::align_val_t) noexcept { cxx_free(p); }
EXPORT void operator delete(void *p,std::size_t,std::align_val_t) noexcept { cxx_free(p); }
EXPORT void operator delete[](void *p,std::size_t,std::align_val_t) noexcept { cxx_free(p); }

/* libstdc++ 13: when growing the chunk list of a pool fails, the exception is swallowed and the end of the empty list is
dereferenced. Only the first allocation made for one request to a pool is failed. */
EXPORT void *std::pmr::unsynchronized_pool_resource::do_allocate(std::size_t b,std::size_t a) {
    using fn = void*(*)(void*,std::size_t,std::size_t);
    static fn real = reinterpret_cast<fn>(dlsym(RTLD_NEXT,"_ZNSt3pmr28unsynchronized_pool_resource11do_allocateEmm"));
    Task *t = tls;
    if(!t) return real(this,b,a);
    if(t->pool_depth++ == 0) t->pool_allocs = 0;
    struct G { Task *t; ~G() { --t->pool_depth; } } g{t};
    return real(this,b,a);
}

// Python's allocators
static PyMemAllocatorEx base_mem, base_obj;
/* Allocations numpy makes for itself are not failed: NpyIter_New (numpy 2) returns NULL without an exception then. Objects
created through the interpreter on behalf of numpy (arrays, tuples, numbers) are. */
static bool by_numpy(void *ra) {
    static char *lo = nullptr, *hi = nullptr;
    if(!lo) {
        FILE *f = std::fopen("/proc/self/maps","r");
        char line[600];
        while(f && std::fgets(line,sizeof line,f)) {
            unsigned long a,b;
            if(std::sscanf(line,"%lx-%lx",&a,&b) != 2) continue;
            if(std::strstr(line,"_multiarray_umath")) { if(!lo) lo = (char*)a; hi = (char*)b; }
        }
        if(f) std::fclose(f);
        if(!lo) lo = (char*)1;
    }
    return (char*)ra >= lo && (char*)ra < hi;
}
static bool py_fail(void *ra) {
    Task *t = tls;
    if(!t || !t->in_call) return false;
    if(!t->gil) { if(!ungilled++) fatal("no_gil","Python memory is allocated without holding the interpreter lock"); }
    if(by_numpy(ra)) return false;
    i64 k = t->py_count++;
    if(t->py_n >= 0 && (k == t->py_n || (t->py_sticky && k > t->py_n))) { ++t->fired; return true; }
    return false;
}
static void *h_malloc(void *ctx,size_t n) { if(py_fail(__builtin_return_address(0))) return nullptr; auto *b = (PyMemAllocatorEx*)ctx; void *p = b->malloc(b->ctx,n); if(p) ++live_py; return p; }
static void *h_calloc(void *ctx,size_t k,size_t n) { if(py_fail(__builtin_return_address(0))) return nullptr; auto *b = (PyMemAllocatorEx*)ctx; void *p = b->calloc(b->ctx,k,n); if(p) ++live_py; return p; }
static void *h_realloc(void *ctx,void *p,size_t n) { if(py_fail(__builtin_return_address(0))) return nullptr; auto *b = (PyMemAllocatorEx*)ctx; void *q = b->realloc(b->ctx,p,n); if(q && !p) ++live_py; return q; }
static void h_free(void *ctx,void *p) {
    if(p) { --live_py; if(tls && tls->in_call && !tls->gil) fatal("no_gil","Python memory is freed without holding the interpreter lock"); }
    auto *b = (PyMemAllocatorEx*)ctx; b->free(b->ctx,p);
}

// ---------------------------------------------------------------- module
static PyObject *py_hook(PyObject*,PyObject*) {
    PyMem_GetAllocator(PYMEM_DOMAIN_MEM,&base_mem);
    PyMem_GetAllocator(PYMEM_DOMAIN_OBJ,&base_obj);
    PyMemAllocatorEx a{&base_mem,h_malloc,h_calloc,h_realloc,h_free}; PyMem_SetAllocator(PYMEM_DOMAIN_MEM,&a);
    PyMemAllocatorEx o{&base_obj,h_malloc,h_calloc,h_realloc,h_free}; PyMem_SetAllocator(PYMEM_DOMAIN_OBJ,&o);
    Py_RETURN_NONE;
}
// start(ntasks, seed, mode, sticky): call before the threads are started
static PyObject *py_start(PyObject*,PyObject *args) {
    int n; unsigned long long seed, mode; int sticky;
    if(!PyArg_ParseTuple(args,"iKKi",&n,&seed,&mode,&sticky)) return nullptr;
    S.alive.assign(n,1); S.blocked.assign(n,0); S.current = -1; S.rng.s = seed; S.mode = mode; S.sticky = sticky < 1 ? 1 : sticky; S.order.clear(); S.order.reserve(4096); S.active = true;
    Py_RETURN_NONE;
}
// enter(task, seed, mean, rare): in the thread of a task; waits for the baton
static PyObject *py_enter(PyObject*,PyObject *args) {
    int id, rare; unsigned long long seed, mean;
    if(!PyArg_ParseTuple(args,"iKKi",&id,&seed,&mean,&rare)) return nullptr;
    Task *t = new Task; t->id = id; t->rng.s = mix(seed + 77*(u64)id); t->mean = mean; t->left = mean ? (i64)t->rng.below(mean*2)+1 : -1; t->rare = mean ? rare : 0;
    if(t->rare) t->seen.assign(n_guards+1,0);
    t->quiet = 1;
    tls = t;
    PyThreadState *s = PyEval_SaveThread();
    pthread_mutex_lock(&S.m);
    while(S.current != id) pthread_cond_wait(&S.c,&S.m);
    pthread_mutex_unlock(&S.m);
    t->quiet = 0;
    while(gil_owner != -1) maybe_yield(true);
    gil_owner = id;
    PyEval_RestoreThread(s);
    Py_RETURN_NONE;
}
static PyObject *py_leave(PyObject*,PyObject*) {
    Task *t = tls;
    t->quiet = 1; t->gil = false; gil_owner = -1;
    pthread_mutex_lock(&S.m);
    S.alive[t->id] = 0;
    for(auto &b : S.blocked) b = 0;
    S.stuck = 0;
    std::vector<int> o;
    for(int i=0; i<(int)S.alive.size(); ++i) if(S.alive[i]) o.push_back(i);
    int nx = o.empty() ? -2 : o[S.rng.below(o.size())];
    note(nx);
    tls = nullptr;
    // the baton goes on only once this thread has given up the interpreter lock for good: the
    // remaining tasks take it with a blocking call, so holding it a little longer is harmless
    S.current = nx;
    pthread_cond_broadcast(&S.c);
    pthread_mutex_unlock(&S.m);
    delete t;
    Py_RETURN_NONE;
}
// main thread: hand the baton to the first task and wait until all are done
static PyObject *py_run(PyObject*,PyObject*) {
    PyThreadState *s = PyEval_SaveThread();
    pthread_mutex_lock(&S.m);
    std::vector<int> o;
    for(int i=0; i<(int)S.alive.size(); ++i) if(S.alive[i]) o.push_back(i);
    S.current = o[S.rng.below(o.size())]; note(S.current);
    pthread_cond_broadcast(&S.c);
    while(S.current != -2) pthread_cond_wait(&S.c,&S.m);
    S.active = false;
    pthread_mutex_unlock(&S.m);
    PyEval_RestoreThread(s);
    return Py_BuildValue("{s:y#,s:K,s:K,s:K,s:K}","order",S.order.data(),(Py_ssize_t)S.order.size(),"yields",(unsigned long long)S.yields,"switches",(unsigned long long)S.switches,"trace",(unsigned long long)S.trace,"preempts",(unsigned long long)S.preempts);
}
static PyObject *py_yield(PyObject*,PyObject*) {
    if(tls && S.active && tls->gil) { int c = tls->in_call; tls->in_call = 0; polysim_RestoreThread(polysim_SaveThread()); tls->in_call = c; }
    Py_RETURN_NONE;
}
static PyObject *py_clock(PyObject*,PyObject*) { return PyLong_FromLongLong(++S.clock); }
static PyObject *py_live(PyObject*,PyObject*) { return Py_BuildValue("(LL)",(long long)live_cxx,(long long)live_py); }
// live_to(array of int64, i): stores the numbers of live blocks without creating an object
static PyObject *py_live_to(PyObject*,PyObject *args) {
    Py_buffer b; Py_ssize_t i;
    if(!PyArg_ParseTuple(args,"w*n",&b,&i)) return nullptr;
    i64 *p = (i64*)b.buf; p[2*i] = live_cxx; p[2*i+1] = live_py;
    PyBuffer_Release(&b);
    Py_RETURN_NONE;
}
// call(fn, args, kwargs, cxx_n, cxx_sticky, py_n, py_sticky) -> (result, cxx allocations, py allocations, fired); exceptions pass through
static PyObject *py_call(PyObject*,PyObject *args) {
    PyObject *fn, *a, *kw; long long cn, pn; int cs, ps;
    if(!PyArg_ParseTuple(args,"OOOLpLp",&fn,&a,&kw,&cn,&cs,&pn,&ps)) return nullptr;
    Task solo; Task *t = tls; bool temp = !t;
    if(temp) { solo.quiet = 0; solo.id = 0; solo.left = -1; tls = t = &solo; }
    Task saved = *t;
    t->cxx_n = cn; t->cxx_sticky = cs; t->py_n = pn; t->py_sticky = ps; t->cxx_count = t->py_count = t->fired = 0;
    ++t->in_call;
    PyObject *r = PyObject_Call(fn,a,kw == Py_None ? nullptr : kw);
    --t->in_call;
    i64 fired = t->fired, cc = t->cxx_count, pc = t->py_count;
    t->cxx_n = saved.cxx_n; t->py_n = saved.py_n; t->cxx_sticky = saved.cxx_sticky; t->py_sticky = saved.py_sticky;
    t->cxx_count = saved.cxx_count; t->py_count = saved.py_count; t->fired = saved.fired;
    if(temp) tls = nullptr;
    bool err = PyErr_Occurred() != nullptr;
    if(r && err) fatal("exception_and_result","a call returned a result with an exception set");
    if(!r && !err) fatal("no_exception","a call failed without an exception set");
    PyObject *stats;
    PyObject *et,*ev,*tb;
    PyErr_Fetch(&et,&ev,&tb);
    stats = Py_BuildValue("(LLL)",(long long)cc,(long long)pc,(long long)fired);
    if(!r) {
        PyErr_NormalizeException(&et,&ev,&tb);
        PyObject *out = Py_BuildValue("(OOO)",Py_None,ev ? ev : Py_None,stats);
        Py_XDECREF(et); Py_XDECREF(ev); Py_XDECREF(tb); Py_XDECREF(stats);
        return out;
    }
    PyObject *out = Py_BuildValue("(OOO)",r,Py_None,stats);
    Py_DECREF(r); Py_DECREF(stats);
    return out;
}
static PyMethodDef methods[] = {
    {"hook",py_hook,METH_NOARGS,nullptr},{"start",py_start,METH_VARARGS,nullptr},{"enter",py_enter,METH_VARARGS,nullptr},{"leave",py_leave,METH_NOARGS,nullptr},
    {"run",py_run,METH_NOARGS,nullptr},{"yield_",py_yield,METH_NOARGS,nullptr},{"clock",py_clock,METH_NOARGS,nullptr},{"live",py_live,METH_NOARGS,nullptr},{"live_to",py_live_to,METH_VARARGS,nullptr},
    {"call",py_call,METH_VARARGS,nullptr},{nullptr,nullptr,0,nullptr}};
static PyModuleDef mod = {PyModuleDef_HEAD_INIT,"polyshim",nullptr,-1,methods,nullptr,nullptr,nullptr,nullptr};
PyMODINIT_FUNC PyInit_polyshim() { return PyModule_Create(&mod); }
