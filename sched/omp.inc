// ------------------------------------------------------------------- OpenMP
// The constructs GCC compiles to calls of libgomp, on managed threads.  A
// region outside begin()/end(), or inside another region, has one thread.
namespace sched {
namespace {
struct Loop { long cur, end, incr, chunk; int left; };
struct Team {
    int n = 1, waiting = 0;
    long gen = 0;
    void (*fn)(void*) = nullptr;
    void* data = nullptr;
    Map<long, Loop> loops;
    Map<long, int> singles;
    Map<long, void*> copies;
};
struct Start { Team* first; int second; };
struct Member { Team* team; int num; long ws; Loop* loop; };
}
static thread_local Member mem{nullptr, 0, 0, nullptr};
static int ompWanted = 0;
static const void* const critical = &ompWanted;
static void barrier(Team* t) {
    step();
    if (t->n < 2) return;
    if (++t->waiting == t->n) {
        t->waiting = 0; ++t->gen;
        for (auto* x : *T) if (x->st == BARRIER && x->on == t) x->st = RUN;
        step();
    } else {
        long g = t->gen;
        while (t->gen == g) block(BARRIER, t);
    }
}
static void* member(void* p) {
    auto* x = (Start*)p;
    mem = Member{x->first, x->second, 0, nullptr};
    delete x;
    mem.team->fn(mem.team->data);
    barrier(mem.team);
    return nullptr;
}
static void region(void (*fn)(void*), void* data, unsigned nt) {
    if (!active() || mem.team) {
        Member old = mem;
        Team t;
        mem = Member{&t, 0, 0, nullptr};
        fn(data);
        mem = old;
        return;
    }
    Team t;
    t.n = nt ? (int)nt : ompWanted ? ompWanted : ompThreads;
    t.fn = fn; t.data = data;
    size_t base = T->size();
    Vec<Thr*> ws;
    for (int i = 1; i < t.n; ++i) ws.push_back((*T)[spawn(member, new Start{&t, i}, nullptr)]);
    mem = Member{&t, 0, 0, nullptr};
    step();
    fn(data);
    barrier(&t);
    for (auto* w : ws) joinThr(w, nullptr);
    mem = Member{nullptr, 0, 0, nullptr};
    if (T->size() == base + ws.size()) {        // nobody else was created meanwhile
        for (auto* w : ws) delete w;
        T->resize(base);
    }
}
static bool grab(long* s, long* e, bool guided) {
    Team* t = mem.team;
    Loop& l = *mem.loop;
    if (active()) step();
    long left = l.incr > 0 ? (l.end - l.cur + l.incr - 1) / l.incr : (l.cur - l.end - l.incr - 1) / -l.incr;
    if (left <= 0) return false;
    long c = guided ? std::max(l.chunk, (left + t->n - 1) / t->n) : l.chunk;
    if (c < 1) c = 1;
    // small iteration spaces: smaller chunks, so that the team shares the work
    if (c > 1 && c * t->n > left) c = 1 + rnd() % ((left + t->n - 1) / t->n);
    if (c > left) c = left;
    *s = l.cur; l.cur += c * l.incr; *e = l.cur;
    return true;
}
static bool loopStart(long a, long b, long incr, long chunk, long* s, long* e, bool guided) {
    if (!mem.team) { *s = a; *e = b; return incr > 0 ? a < b : a > b; }
    mem.loop = &mem.team->loops.insert({mem.ws, Loop{a, b, incr, chunk, 0}}).first->second;
    ++mem.ws;
    return grab(s, e, guided);
}
}  // namespace sched
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { sched::region(fn, data, nt); }
void GOMP_barrier() { if (mem.team && active()) sched::barrier(mem.team); }
bool GOMP_single_start() {
    if (!mem.team) return true;
    if (active()) sched::step();
    return mem.team->singles[mem.ws++]++ == 0;
}
void GOMP_critical_start() { if (active()) sched::lock(critical); }
void GOMP_critical_end() { if (active()) sched::unlock(critical); }
void GOMP_critical_name_start(void** n) { if (active()) sched::lock(n); }
void GOMP_critical_name_end(void** n) { if (active()) sched::unlock(n); }
void GOMP_atomic_start() { if (active()) sched::lock(critical); }
void GOMP_atomic_end() { if (active()) sched::unlock(critical); }
#define LOOP(name, g) \
    bool GOMP_loop_##name##_start(long a, long b, long i, long c, long* s, long* e) { return loopStart(a, b, i, c, s, e, g); } \
    bool GOMP_loop_##name##_next(long* s, long* e) { return mem.loop && grab(s, e, g); } \
    bool GOMP_loop_ull_##name##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long i, unsigned long long c, unsigned long long* s, unsigned long long* e) { return loopStart(a, b, (long)i, c, (long*)s, (long*)e, g); } \
    bool GOMP_loop_ull_##name##_next(unsigned long long* s, unsigned long long* e) { return mem.loop && grab((long*)s, (long*)e, g); }
LOOP(dynamic, false) LOOP(nonmonotonic_dynamic, false) LOOP(guided, true) LOOP(nonmonotonic_guided, true) LOOP(static, false)
LOOP(runtime, false) LOOP(nonmonotonic_runtime, false) LOOP(maybe_nonmonotonic_runtime, false)
#define PLOOP(name) \
    void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned nt, long a, long b, long i, long c, unsigned) { parLoop(fn, data, nt, a, b, i, c); }
struct PL { void (*fn)(void*); void* data; long a, b, i, c; };
static void parLoopBody(void* p) {
    auto* x = (PL*)p;
    mem.team->loops.insert({mem.ws, Loop{x->a, x->b, x->i, x->c, 0}});
    mem.loop = &mem.team->loops[mem.ws++];
    x->fn(x->data);
}
static void parLoop(void (*fn)(void*), void* data, unsigned nt, long a, long b, long i, long c) { PL x{fn, data, a, b, i, c}; sched::region(parLoopBody, &x, nt); }
PLOOP(dynamic) PLOOP(nonmonotonic_dynamic) PLOOP(guided) PLOOP(nonmonotonic_guided) PLOOP(static) PLOOP(runtime) PLOOP(nonmonotonic_runtime) PLOOP(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { mem.loop = nullptr; GOMP_barrier(); }
void GOMP_loop_end_nowait() { mem.loop = nullptr; }
int omp_get_thread_num() { return mem.team ? mem.num : 0; }
int omp_get_num_threads() { return mem.team ? mem.team->n : 1; }
int omp_get_max_threads() { return sched::ompWanted ? sched::ompWanted : sched::ompThreads; }
void omp_set_num_threads(int n) { sched::ompWanted = n; }
int omp_in_parallel() { return mem.team && mem.team->n > 1; }
int omp_get_num_procs() { return 8; }
double omp_get_wtime() { return (double)sched::now() * 1e-6; }
}
