#include "sched.h"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <future>
#include <map>
#include <vector>
#include <new>

namespace sched {
int ompThreads = 2;
long patience = 20000;
namespace {
// containers of the scheduler's own: an instantiation shared with the
// instrumented code would call the scheduler from inside the scheduler
template <class X> struct Al {
    typedef X value_type;
    Al() = default;
    template <class Y> Al(const Al<Y>&) {}
    X* allocate(size_t n) { return (X*)malloc(n * sizeof(X)); }
    void deallocate(X* p, size_t) { free(p); }
    template <class Y> bool operator==(const Al<Y>&) const { return true; }
    template <class Y> bool operator!=(const Al<Y>&) const { return false; }
};
template <class X> using Vec = std::vector<X, Al<X>>;
template <class K> struct Less { bool operator()(const K& a, const K& b) const { return a < b; } };
template <class K, class X> using Map = std::map<K, X, Less<K>, Al<std::pair<const K, X>>>;
enum St { RUN, MUTEX, COND, TIMEDCOND, JOIN, BARRIER, DONE };
struct Thr {
    sem_t sem;
    St st = RUN;
    const void* on = nullptr;      // mutex / condition / thread it waits for
    bool timedOut = false;
    long prio = 0;
    pthread_t handle{};
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    int tag = 0;
};
bool on = false;
Vec<Thr*>* T;
Map<const void*, int>* owner;         // mutex -> holder
Map<const void*, int>* recs;
int cur = 0;
thread_local int me = -1;
thread_local int tag_ = 0;               // inherited by the threads a thread creates
uint64_t rs;
int strat, param;
long steps, maxSteps;
Vec<long>* changes;
struct Range { const char* a; const char* b; };
Range ranges[64];
int nranges = 0;
long lowPrio;

uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ULL; }
[[noreturn]] void die(int code) { _exit(code); }    // 70 deadlock, 71 livelock

Vec<int> runnable() {
    Vec<int> v;
    for (int i = 0; i < (int)T->size(); ++i) if ((*T)[i]->st == RUN) v.push_back(i);
    return v;
}
bool wakeTimed() {
    // nobody can run: a timed wait ends
    Vec<int> v;
    for (int i = 0; i < (int)T->size(); ++i) if ((*T)[i]->st == TIMEDCOND) v.push_back(i);
    if (v.empty()) return false;
    Thr* t = (*T)[v[rnd() % v.size()]];
    t->st = RUN; t->timedOut = true;
    return true;
}
void give(int to) {
    if (to == cur) return;
    // nothing shared may be read after the other thread has been let go
    sem_t* mine = &(*T)[cur]->sem;
    cur = to;
    sem_post(&(*T)[to]->sem);
    while (sem_wait(mine)) {}
}
int pick(bool mustLeave) {
    if (!mustLeave) {       // the common case, without a look at the others
        if (T->size() == 1) return cur;
        if (strat == 0 && rnd() % param) return cur;
        if (strat == 2 && steps % param) return cur;
    }
    auto v = runnable();
    while (v.empty()) { if (!wakeTimed()) die(70); v = runnable(); }
    if (strat == 0) return v[rnd() % v.size()];
    if (strat == 1) {
        int b = v[0];
        for (int x : v) if ((*T)[x]->prio > (*T)[b]->prio) b = x;
        return b;
    }
    for (int x : v) if (x > cur) return x;
    return v[0];
}
void step() {
    ++steps;
    if (steps > maxSteps) die(71);
    if (strat == 1) {
        for (long c : *changes) if (c == steps) (*T)[cur]->prio = --lowPrio;
        // a spinning thread must not starve the others forever
        if (steps % patience == 0) (*T)[cur]->prio = --lowPrio;
    }
    // a timed wait may end at any time
    if (rnd() % 512 == 0) wakeTimed();
    int n = pick(false);
    give(n);
}
void block(St st, const void* o) {
    Thr* t = (*T)[me];
    t->st = st; t->on = o; t->timedOut = false;
    int n = pick(true);
    give(n);
    t->on = nullptr;
}
void* entry(void* p) {
    int id = (int)(intptr_t)p;
    me = id;
    Thr* t = (*T)[id];
    tag_ = t->tag;
    while (sem_wait(&t->sem)) {}
    t->ret = t->fn(t->arg);
    // exit: wake joiners
    t->st = DONE;
    for (auto* x : *T) if (x->st == JOIN && x->on == t) x->st = RUN;
    int n = pick(true);
    me = -1;
    cur = n;
    void* ret = t->ret;
    sem_post(&(*T)[n]->sem);
    return ret;
}
typedef int (*PC)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
typedef int (*PJ)(pthread_t, void**);
template <class F> F real(const char* n) {
    return (F)dlsym(RTLD_NEXT, n);
}
int spawn(void* (*fn)(void*), void* arg, pthread_t* out) {
    static PC rc = real<PC>("pthread_create");
    Thr* t = new Thr;
    sem_init(&t->sem, 0, 0);
    t->tag = tag_; t->fn = fn; t->arg = arg; t->prio = 1000 + (long)(rnd() % 1000);
    int id = T->size();
    if (T->size() == T->capacity()) die(72);    // new threads read T unsynchronised: it must not move
    T->push_back(t);
    bool was = on;
    int r = rc(&t->handle, nullptr, entry, (void*)(intptr_t)id);
    on = was;
    if (out) *out = t->handle;
    return r ? -1 : id;
}
void joinThr(Thr* t, void** ret) {
    static PJ rj = real<PJ>("pthread_join");
    if (t->st != DONE) block(JOIN, t);
    rj(t->handle, ret);
}
}  // namespace

bool active() { return on && me >= 0; }
int self() { return me; }
long now() { return steps; }
int& tag() { return tag_; }
static bool held = false;
void hold(bool h) { held = h; }
// the thread has nothing to do for now: let the others go first
void relax() { if (on && me >= 0) { if (strat == 1) (*T)[cur]->prio = --lowPrio; step(); } }
void point() { if (on && me >= 0) step(); }
void begin(uint64_t seed, int strategy, int prm, long len, long mx) {
    rs = seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
    for (int i = 0; i < 8; ++i) rnd();
    strat = strategy; param = prm < 1 ? 1 : prm; steps = 0; maxSteps = mx; lowPrio = 100;
    T = new Vec<Thr*>; T->reserve(1 << 16); owner = new Map<const void*, int>; changes = new Vec<long>;
    recs = new Map<const void*, int>;
    if (strat == 1) for (int i = 0; i < param; ++i) changes->push_back(1 + rnd() % (len < 1 ? 1 : len));
    Thr* t = new Thr;
    sem_init(&t->sem, 0, 0);
    t->prio = 1000 + (long)(rnd() % 1000);
    T->push_back(t);
    me = 0; cur = 0; on = true; nranges = 0;
}
void watch(const void* p, unsigned long n) { if (nranges < 64 && n) ranges[nranges++] = {(const char*)p, (const char*)p + n}; }
// an access is a scheduling point
static inline void access(const volatile void* p) {
    if (!on || held || me < 0 || T->size() == 1) return;
    if (nranges) {
        int i = 0;
        while (i < nranges && ((const char*)p < ranges[i].a || (const char*)p >= ranges[i].b)) ++i;
        if (i == nranges) return;
    }
    step();
}
long end() { on = false; me = -1; return steps; }

// -------------------------------------------------------------- mutexes
static void lock(const void* m) {
    step();
    while (owner->count(m)) block(MUTEX, m);
    (*owner)[m] = me;
}
static bool tryLock(const void* m) {
    step();
    if (owner->count(m)) return false;
    (*owner)[m] = me;
    return true;
}
static void unlock(const void* m) {
    owner->erase(m);
    for (auto* x : *T) if (x->st == MUTEX && x->on == m) x->st = RUN;
    step();
}
static int condWait(const void* c, const void* m, bool timed) {
    owner->erase(m);
    ((pthread_mutex_t*)m)->__data.__lock = 0;
    for (auto* x : *T) if (x->st == MUTEX && x->on == m) x->st = RUN;
    block(timed ? TIMEDCOND : COND, c);
    bool to = (*T)[me]->timedOut;
    while (owner->count(m)) block(MUTEX, m);
    (*owner)[m] = me;
    ((pthread_mutex_t*)m)->__data.__lock = 1;
    return to ? ETIMEDOUT : 0;
}
static void notify(const void* c, bool all) {
    Vec<Thr*> v;
    for (auto* x : *T) if ((x->st == COND || x->st == TIMEDCOND) && x->on == c) v.push_back(x);
    if (!all && v.size() > 1) { Thr* p = v[rnd() % v.size()]; v.assign(1, p); }
    for (auto* x : v) x->st = RUN;
    step();
}
}  // namespace sched
using namespace sched;

// waiting for a future
#if defined(_GLIBCXX_HAVE_LINUX_FUTEX) && defined(_GLIBCXX_HAS_GTHREADS)
#include <sys/syscall.h>
#include <linux/futex.h>
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) {
    if (active()) { if (*a == v) block(MUTEX, a); else step(); return true; }
    syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr);
    return true;
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) {
    if (active()) { for (auto* x : *T) if (x->st == MUTEX && x->on == a) x->st = RUN; step(); return; }
    syscall(SYS_futex, a, FUTEX_WAKE, 0x7fffffff);
}
}
#endif

#define P sched::point()
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
    static PC rc = real<PC>("pthread_create");
    if (!active()) return rc(t, a, f, x);
    int id = spawn(f, x, t);
    P;
    return id < 0 ? EAGAIN : 0;
}
int pthread_join(pthread_t t, void** r) {
    static PJ rj = real<PJ>("pthread_join");
    if (active())       // a handle is used again once its thread has been joined
        for (auto* x : *T) if (x->handle == t && x->fn) { joinThr(x, r); x->fn = nullptr; return 0; }
    return rj(t, r);
}
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) { return 0; }
typedef int (*PM)(pthread_mutex_t*);
// a new mutex in the place of one that was never unlocked
static void fresh(pthread_mutex_t* m) { if (m->__data.__lock == 0) owner->erase(m); }
int pthread_mutex_lock(pthread_mutex_t* m) {
    static PM r = real<PM>("pthread_mutex_lock");
    if (!active()) return r(m);
    fresh(m); lock(m); m->__data.__lock = 1; return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    static PM r = real<PM>("pthread_mutex_trylock");
    if (!active()) return r(m);
    fresh(m);
    if (!tryLock(m)) return EBUSY;
    m->__data.__lock = 1;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    static PM r = real<PM>("pthread_mutex_unlock");
    if (!active()) return r(m);
    m->__data.__lock = 0;
    unlock(m); return 0;
}
typedef int (*PCW)(pthread_cond_t*, pthread_mutex_t*);
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static PCW r = real<PCW>("pthread_cond_wait");
    if (!active()) return r(c, m);
    return condWait(c, m, false);
}
typedef int (*PCT)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    static PCT r = real<PCT>("pthread_cond_timedwait");
    if (!active()) return r(c, m, t);
    return condWait(c, m, true);
}
typedef int (*PCC)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    static PCC r = real<PCC>("pthread_cond_clockwait");
    if (!active()) return r(c, m, k, t);
    return condWait(c, m, true);
}
typedef int (*PCS)(pthread_cond_t*);
int pthread_cond_signal(pthread_cond_t* c) {
    static PCS r = real<PCS>("pthread_cond_signal");
    if (!active()) return r(c);
    notify(c, false); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    static PCS r = real<PCS>("pthread_cond_broadcast");
    if (!active()) return r(c);
    notify(c, true); return 0;
}
int sched_yield() { P; return 0; }
int usleep(useconds_t) { P; return 0; }
int nanosleep(const struct timespec* a, struct timespec* b) {
    typedef int (*NS)(const struct timespec*, struct timespec*);
    static NS r = real<NS>("nanosleep");
    if (!active()) return r(a, b);
    P; return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) {
    typedef int (*NS)(clockid_t, int, const struct timespec*, struct timespec*);
    static NS r = real<NS>("clock_nanosleep");
    if (!active()) return r(c, f, a, b);
    P; return 0;
}

// ------------------------------------------------------- instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define A(p) sched::access(p)
#define RW(n) \
    void __tsan_read##n(void* p) { A(p); } void __tsan_write##n(void* p) { A(p); } \
    void __tsan_unaligned_read##n(void* p) { A(p); } void __tsan_unaligned_write##n(void* p) { A(p); } \
    void __tsan_volatile_read##n(void* p) { A(p); } void __tsan_volatile_write##n(void* p) { A(p); } \
    void __tsan_unaligned_volatile_read##n(void* p) { A(p); } void __tsan_unaligned_volatile_write##n(void* p) { A(p); } \
    void __tsan_read_write##n(void* p) { A(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long) { A(p); }
void __tsan_write_range(void* p, unsigned long) { A(p); }
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define AT(n, T_) \
    T_ __tsan_atomic##n##_load(const volatile T_* a, int) { A(a); return *a; } \
    void __tsan_atomic##n##_store(volatile T_* a, T_ v, int) { A(a); *a = v; } \
    T_ __tsan_atomic##n##_exchange(volatile T_* a, T_ v, int) { A(a); T_ o = *a; *a = v; return o; } \
    T_ __tsan_atomic##n##_fetch_add(volatile T_* a, T_ v, int) { A(a); T_ o = *a; *a = o + v; return o; } \
    T_ __tsan_atomic##n##_fetch_sub(volatile T_* a, T_ v, int) { A(a); T_ o = *a; *a = o - v; return o; } \
    T_ __tsan_atomic##n##_fetch_and(volatile T_* a, T_ v, int) { A(a); T_ o = *a; *a = o & v; return o; } \
    T_ __tsan_atomic##n##_fetch_or(volatile T_* a, T_ v, int) { A(a); T_ o = *a; *a = o | v; return o; } \
    T_ __tsan_atomic##n##_fetch_xor(volatile T_* a, T_ v, int) { A(a); T_ o = *a; *a = o ^ v; return o; } \
    T_ __tsan_atomic##n##_fetch_nand(volatile T_* a, T_ v, int) { A(a); T_ o = *a; *a = ~(o & v); return o; } \
    bool __tsan_atomic##n##_compare_exchange_strong(volatile T_* a, T_* c, T_ v, int, int) { A(a); if (*a == *c) { *a = v; return true; } *c = *a; return false; } \
    bool __tsan_atomic##n##_compare_exchange_weak(volatile T_* a, T_* c, T_ v, int, int) { A(a); if (*a == *c) { *a = v; return true; } *c = *a; return false; } \
    T_ __tsan_atomic##n##_compare_exchange_val(volatile T_* a, T_ c, T_ v, int, int) { A(a); T_ o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
AT(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) { P; }
void __tsan_atomic_signal_fence(int) {}
}
#include "omp.inc"
