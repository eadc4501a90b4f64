// In-process stand-in for the part of MPI that the multicut code calls.
// One process, one or more ranks (threads of one process); a message is a byte
// string in a mailbox. Messages from one rank to another with one tag arrive in
// order, all others in any order and any time later.
#pragma once
#include <algorithm>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <mutex>
#include <vector>
typedef int MPI_Comm;
typedef int MPI_Request;
typedef int MPI_Datatype;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };
#define MPI_COMM_WORLD 0
#define MPI_INT 4
#define MPI_LONG 8
#define MPI_ANY_SOURCE (-1)
#define MPI_STATUS_IGNORE (static_cast<MPI_Status*>(nullptr))
#define MPI_SUCCESS 0
#define MPI_MIN 1
#define MPI_MAX 2
#define MPI_SUM 3
typedef int MPI_Op;
#ifdef SCHED_RANKS
namespace sched { int& tag(); void relax(); }   // inherited by the threads of a rank
#endif
namespace mpi_shim {
struct Msg { int src, dst, tag, hold; std::vector<char> data; };
struct Coll { int in = 0, out = 0; bool ready = false; std::vector<char> data; };
inline std::mutex mtx;
inline std::condition_variable cv;
inline std::deque<Msg> box;
inline int size = 1;
inline int delay = 0;                            // messages out of 16 that are late
inline uint64_t seed = 88172645463325252ULL;
inline void (*event)(char, int, int, const std::vector<char>&) = nullptr;
inline std::map<int, Coll> colls;
inline std::vector<int> collNo(64, 0), barNo(64, 0);
#ifdef SCHED_RANKS
inline int rank() { return sched::tag(); }
inline void relax() { sched::relax(); }
#else
inline int rank() { return 0; }
inline void relax() {}
#endif
inline uint64_t rnd() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed * 2685821657736338717ULL >> 11; }
inline void reset(int n, int late, uint64_t s) {
    size = n; delay = late; seed = s | 1;
    box.clear(); colls.clear(); collNo.assign(64, 0); barNo.assign(64, 0);
}
// a message that has arrived, chosen among the senders; box.end() if none has
inline std::deque<Msg>::iterator find(int src, int tag) {
    std::vector<std::deque<Msg>::iterator> c;
    std::vector<bool> had(size, false);
    for (auto it = box.begin(); it != box.end(); ++it)
        if (it->dst == rank() && it->tag == tag && !had[it->src]) {
            had[it->src] = true;
            if (src != MPI_ANY_SOURCE && src != it->src) continue;
            if (it->hold > 0) { --it->hold; continue; }
            c.push_back(it);
        }
    return c.empty() ? box.end() : c[c.size() == 1 ? 0 : rnd() % c.size()];
}
inline bool underway(int src, int tag) {
    for (auto& m : box) if (m.dst == rank() && m.tag == tag && (src == MPI_ANY_SOURCE || src == m.src)) return true;
    return false;
}
template <class F> inline void collective(F add, void* out) {
    std::unique_lock<std::mutex> l(mtx);
    Coll& c = colls[collNo[rank()]++];
    add(c);
    ++c.in;
    cv.notify_all();
    while (!c.ready && c.in < size) cv.wait(l);
    if (out) std::memcpy(out, c.data.data(), c.data.size());
}
[[noreturn]] inline void fail(const char* what) { fprintf(stderr, "MPI error: %s\n", what); _Exit(77); }
} // namespace mpi_shim
static inline int MPI_Init(void*, void*) { return 0; }
static inline int MPI_Finalize() { return 0; }
static inline int MPI_Comm_size(MPI_Comm, int* s) { *s = mpi_shim::size; return 0; }
static inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = mpi_shim::rank(); return 0; }
static inline int MPI_Send(const void* p, size_t n, MPI_Datatype d, int dst,
                           int tag, MPI_Comm) {
    using namespace mpi_shim;
    if (dst < 0 || dst >= size) fail("invalid rank");
    std::lock_guard<std::mutex> l(mtx);
    const char* c = static_cast<const char*>(p);
    box.push_back(Msg { rank(), dst, tag,
                        delay && (int)(rnd() % 16) < delay ? (int)(rnd() % 40) : 0,
                        std::vector<char>(c, c + n * d) });
    if (event) event('s', dst, tag, box.back().data);
    cv.notify_all();
    return 0;
}
static inline int MPI_Isend(const void* p, size_t n, MPI_Datatype d, int dst,
                            int tag, MPI_Comm c, MPI_Request* r) {
    if (r) *r = 0;
    return MPI_Send(p, n, d, dst, tag, c);
}
static inline int MPI_Iprobe(int src, int tag, MPI_Comm, int* flag,
                             MPI_Status* st) {
    using namespace mpi_shim;
    std::lock_guard<std::mutex> l(mtx);
    auto it = find(src, tag);
    *flag = it != box.end();
    if (*flag && st) { st->MPI_SOURCE = it->src; st->MPI_TAG = tag; }
    return 0;
}
static inline int MPI_Recv(void* p, size_t n, MPI_Datatype d, int src, int tag,
                           MPI_Comm, MPI_Status* st) {
    using namespace mpi_shim;
    std::unique_lock<std::mutex> l(mtx);
    while (true) {
        auto it = find(src, tag);
        if (it != box.end()) {
            if (it->data.size() > n * d) fail("message truncated");
            std::memcpy(p, it->data.data(), it->data.size());
            if (st) { st->MPI_SOURCE = it->src; st->MPI_TAG = tag; }
            if (event) event('r', it->src, tag, it->data);
            box.erase(it);
            return 0;
        }
        if (!underway(src, tag)) cv.wait(l);
        else {
            for (auto& m : box) if (m.dst == rank() && m.tag == tag) m.hold /= 2;
            l.unlock(); relax(); l.lock();
        }
    }
}
static inline int MPI_Ibarrier(MPI_Comm, MPI_Request* r) {
    using namespace mpi_shim;
    std::lock_guard<std::mutex> l(mtx);
    *r = ++barNo[rank()];
    if (event) event('B', 0, 0, {});
    return 0;
}
static inline int MPI_Test(MPI_Request* r, int* flag, MPI_Status*) {
    using namespace mpi_shim;
    {
        std::lock_guard<std::mutex> l(mtx);
        *flag = 1;
        for (int i = 0; i < size; ++i) if (barNo[i] < *r) *flag = 0;
    }
    if (!*flag) relax();
    return 0;
}
static inline int MPI_Barrier(MPI_Comm) {
    mpi_shim::collective([](mpi_shim::Coll&) {}, nullptr);
    return 0;
}
static inline int MPI_Allreduce(const void* s, void* r, size_t n,
                                MPI_Datatype d, MPI_Op op, MPI_Comm) {
    using namespace mpi_shim;
    if (size == 1) { std::memcpy(r, s, n * d); return 0; }
    collective([&](Coll& c) {
        if (c.data.empty()) { c.data.resize(n * d); std::memcpy(c.data.data(), s, n * d); return; }
        for (size_t i = 0; i < n; ++i) {
            int64_t x = 0, y = 0;
            if (d == MPI_LONG) { x = ((const int64_t*)s)[i]; std::memcpy(&y, &c.data[i * d], 8); }
            else { int32_t z; x = ((const int32_t*)s)[i]; std::memcpy(&z, &c.data[i * d], 4); y = z; }
            y = op == MPI_MIN ? std::min(x, y) : op == MPI_MAX ? std::max(x, y) : x + y;
            if (d == MPI_LONG) std::memcpy(&c.data[i * d], &y, 8);
            else { int32_t z = (int32_t)y; std::memcpy(&c.data[i * d], &z, 4); }
        }
    }, r);
    return 0;
}
static inline int MPI_Bcast(void* p, size_t n, MPI_Datatype d, size_t root, MPI_Comm) {
    using namespace mpi_shim;
    if (root >= (size_t)size) fail("invalid root");
    if (size == 1) return 0;
    bool me = (size_t)rank() == root;
    std::unique_lock<std::mutex> l(mtx);
    Coll& c = colls[collNo[rank()]++];
    if (me) { c.data.assign((char*)p, (char*)p + n * d); c.ready = true; cv.notify_all(); return 0; }
    while (!c.ready) cv.wait(l);
    if (c.data.size() != n * d) fail("broadcast of different sizes");
    std::memcpy(p, c.data.data(), n * d);
    return 0;
}
