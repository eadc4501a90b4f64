// Stand-in for growt's concurrent growing hash table: the interface
// contract_graph.h uses (get_handle / insert_or_update / find), linearizable
// through sharded locks.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <mutex>
#include <unordered_map>
#include <utility>
namespace growt {
template <class Hash>
class uaGrow {
    struct shard {
        std::mutex m;
        std::unordered_map<uint64_t, size_t> t;
    };
    std::array<shard, 64> shards;
    shard& at(uint64_t k) { return shards[(k * 0x9E3779B97F4A7C15ull) >> 58]; }

 public:
    explicit uaGrow(size_t) { }
    struct iter {
        uint64_t first = 0;
        size_t second = 0;
        bool valid = false;
        std::pair<uint64_t, size_t> operator * () const {
            return { first, second };
        }
    };
    class Handle {
        uaGrow* g;

     public:
        explicit Handle(uaGrow* g) : g(g) { }
        template <class V, class F, class ... A>
        std::pair<iter, bool> insert_or_update(uint64_t k, V v, F f, A ... a) {
            shard& s = g->at(k);
            std::lock_guard<std::mutex> l(s.m);
            auto [it, fresh] = s.t.emplace(k, static_cast<size_t>(v));
            if (!fresh) f(it->second, static_cast<size_t>(a) ...);
            return { iter { k, it->second, true }, fresh };
        }
        iter find(uint64_t k) {
            shard& s = g->at(k);
            std::lock_guard<std::mutex> l(s.m);
            auto it = s.t.find(k);
            if (it == s.t.end()) return iter { };
            return iter { k, it->second, true };
        }
    };
    Handle get_handle() { return Handle(this); }
};
} // namespace growt
