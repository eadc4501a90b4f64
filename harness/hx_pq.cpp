// Histories of the addressable priority queues: every call, its answer and
// everything the interface shows afterwards.  Keys are written as indices into
// a strictly increasing table (heaps get 64-bit values, buckets small ones).
#include "data_structure/priority_queues/bucket_pq.h"
#include "data_structure/priority_queues/fifo_node_bucket_pq.h"
#include "data_structure/priority_queues/maxNodeHeap.h"
#include "data_structure/priority_queues/node_bucket_pq.h"
#include "data_structure/priority_queues/vecMaxNodeHeap.h"
#include <algorithm>
#include <chrono>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <vector>
#include "common.h"

// k: 0 insert 1 deleteMax 2 deleteNode 3 increaseKey 4 decreaseKey 5 changeKey
// 6 insert of a contained node (heaps) 7 the queue is copied, the copy used on
struct Op { int k, a, key; };
struct Case { int n, span; std::vector<Op> ops; uint64_t seed; };
static const char* NAME[] = {"fifo", "nodebucket", "bucket", "vecheap", "heap"};

// the calls of a random history; the abstract content decides what is legal
static Case gen(Rng& r) {
    Case c;
    c.n = coin(r, 50) ? ri(r, 2, 8) : ri(r, 5, 40);
    c.span = coin(r, 40) ? ri(r, 0, 4) : ri(r, 1, 60);
    c.seed = r();
    int m = ri(r, 5, 90), grow = ri(r, 15, 60), dm = ri(r, 5, 40), dn = coin(r, 30) ? 0 : ri(r, 5, 40);
    std::vector<int> key(c.n, -1);
    int cnt = 0;
    bool solver = coin(r, 25);      // as the solvers do it: all in, keys only grow, deleteMax
    if (solver) { grow = 5; dn = 0; for (int i = 0; i < c.n; ++i) if (coin(r, 80)) c.ops.push_back({0, i, solver && coin(r, 50) ? 0 : ri(r, 0, c.span)}), key[i] = c.ops.back().key, cnt++; }
    // deleteMax of equal keys may take different nodes in different queues, so
    // the calls after it are drawn while the history runs (see drive)
    for (int i = 0; i < m; ++i) {
        int x = r() % 100;
        int k = x < grow ? 0 : x < grow + dm ? 1 : (int)(x - grow - dm) < dn ? 2 : 3 + r() % 3;
        if (solver && k > 2) k = 3;
        if (coin(r, 4)) k = 6;
        if (coin(r, 2)) k = 7;
        c.ops.push_back({k, (int)(r() % c.n), ri(r, 0, c.span)});
    }
    return c;
}
struct Obs { int k, a, key, ret, size, empty, mv, me; std::vector<int> keys; };
static std::string jobs(const std::vector<Obs>& v) {
    std::string s = "[";
    for (auto& o : v) {
        if (s.size() > 1) s += ",";
        std::vector<int> h{o.k, o.a, o.key, o.ret, o.size, o.empty, o.mv, o.me};
        s += "[" + jarr(h) + "," + jarr(o.keys) + "]";
    }
    return s + "]";
}
template <class Q>
static std::vector<Obs> drive(const Case& c, int which, std::function<std::unique_ptr<Q>()> make, const std::vector<uint64_t>& tab, bool& sus) {
    auto q = make();
    std::vector<int> ab(c.n, -1);
    std::vector<Obs> out;
    auto back = [&](uint64_t v) { auto it = std::lower_bound(tab.begin(), tab.end(), v); return it != tab.end() && *it == v ? (int)(it - tab.begin()) : -2; };
    for (auto op : c.ops) {
        Op o = op;
        std::vector<int> in, notin;
        for (int i = 0; i < c.n; ++i) (ab[i] >= 0 ? in : notin).push_back(i);
        if ((o.k == 0) && notin.empty()) continue;
        if (o.k != 0 && o.k != 7 && in.empty()) continue;
        if (o.k == 6 && which < 3) continue;
        if (o.k == 0) { if (ab[o.a] >= 0) o.a = notin[o.a % notin.size()]; }
        else if (o.k == 1 || o.k == 7) o.a = 0;
        else if (ab[o.a] < 0) o.a = in[o.a % in.size()];
        int cur = o.k == 1 || o.k == 7 ? 0 : ab[o.a];
        if (o.k == 3) o.key = cur + o.key % (c.span - cur + 1);
        if (o.k == 4) o.key = o.key % (cur + 1);
        if (o.k == 1 || o.k == 2 || o.k == 7) o.key = 0;
        int ret = 0;
        switch (o.k) {
            case 0: case 6: q->insert(o.a, tab[o.key]); break;
            case 1: ret = (int)q->deleteMax(); break;
            case 2: q->deleteNode(o.a); break;
            case 3: q->increaseKey(o.a, tab[o.key]); break;
            case 4: q->decreaseKey(o.a, tab[o.key]); break;
            case 5: q->changeKey(o.a, tab[o.key]); break;
            case 7: { auto cp = std::make_unique<Q>(*q); q->insert(c.n, tab[c.span]); q = std::move(cp); break; }
        }
        if (o.k == 1) {
            int mx = *std::max_element(ab.begin(), ab.end());
            if (ret < 0 || ret >= c.n || ab[ret] != mx) sus = true; else ab[ret] = -1;
        } else if (o.k == 2) ab[o.a] = -1;
        else if (o.k != 6 && o.k != 7) ab[o.a] = o.key;
        Obs b{o.k, o.a, o.key, ret, (int)q->size(), (int)q->empty(), -1, -1, {}};
        if (b.size > 0) b.mv = back(q->maxValue()), b.me = (int)q->maxElement();
        for (int i = 0; i < c.n; ++i) b.keys.push_back(q->contains(i) ? back(q->getKey(i)) : -1);
        int mx = *std::max_element(ab.begin(), ab.end()), cnt = 0;
        for (int x : ab) cnt += x >= 0;
        if (b.keys != ab || b.size != cnt || (b.empty != 0) != (cnt == 0) || (cnt && (b.mv != mx || b.me < 0 || b.me >= c.n || ab[b.me] != mx))) sus = true;
        out.push_back(b);
        if (sus) break;
    }
    return out;
}

int main(int ac, char** av) {
    parseOpt(ac, av);
    std::vector<Case> given;
    if (!opt.in.empty()) {
        std::ifstream in(opt.in);
        std::string l;
        while (std::getline(in, l)) {
            std::vector<int> v;
            for (size_t i = 0; i < l.size(); ++i) if (isdigit((unsigned char)l[i])) { char* e; v.push_back(strtol(&l[i], &e, 10)); i = e - &l[0] - 1; }
            if (v.size() < 2) continue;
            Case c; c.n = v[0]; c.span = v[1]; c.seed = given.size();
            for (size_t i = 2; i + 2 < v.size(); i += 3) c.ops.push_back({v[i], v[i + 1], v[i + 2]});
            given.push_back(c);
        }
    }
    bool gv = !opt.in.empty();
    long total = gv ? (long)given.size() : std::max(opt.count, opt.only + 1);
    long it = std::max(0L, opt.only);
    while (it < total && !opt.timeUp()) {
        std::vector<long> ids;
        std::vector<Case> cs;
        for (; it < total && ids.size() < 64; ++it) if (opt.mine(it, gv)) { Rng r = rngFor(it); ids.push_back(it); cs.push_back(gv ? given[it] : gen(r)); }
        if (ids.empty()) break;
        auto res = isolated(ids.size(), [&](int ci) {
            const Case& c = cs[ci];
            Rng r(c.seed);
            std::vector<uint64_t> small, big;
            for (int i = 0; i <= c.span; ++i) small.push_back(i), big.push_back((big.empty() ? (coin(r, 50) ? 0 : r() % 1000000007ull << 20) : big.back()) + 1 + (coin(r, 50) ? 0 : coin(r, 50) ? r() % 100 : r() % (1ull << 52)));
            if (coin(r, 30)) for (int i = 0; i <= c.span; ++i) big[i] = i;
            // extra room for the element put into the abandoned original of a copy
            unsigned N = c.n + 1;
            EdgeWeight sp = c.span + r() % 3;
            bool sus = false;
            std::string s;
            for (int w = 0; w < 5; ++w) {
                std::vector<Obs> o;
                bool su = false;
                if (w == 0) o = drive<fifo_node_bucket_pq>(c, w, [&] { return std::make_unique<fifo_node_bucket_pq>(N, sp); }, small, su);
                if (w == 1) o = drive<node_bucket_pq>(c, w, [&] { return std::make_unique<node_bucket_pq>(N, sp); }, small, su);
                if (w == 2) o = drive<bucket_pq>(c, w, [&] { return std::make_unique<bucket_pq>(N, sp); }, small, su);
                if (w == 3) o = drive<vecMaxNodeHeap>(c, w, [&] { return std::make_unique<vecMaxNodeHeap>(N, sp); }, big, su);
                if (w == 4) o = drive<maxNodeHeap>(c, w, [&] { return std::make_unique<maxNodeHeap>(N, sp); }, big, su);
                sus |= su;
                s += std::string(w ? "," : "") + "{\"q\":\"" + NAME[w] + "\",\"ops\":" + jobs(o) + "}";
            }
            return std::string("\"sus\":") + (sus ? "1" : "0") + ",\"runs\":[" + s + "]";
        }, 10);
        for (size_t ci = 0; ci < ids.size(); ++ci) {
            bool ok = res[ci][0] != '!';
            if (!keep(!ok || res[ci].find("\"sus\":0") == std::string::npos)) continue;
            fprintf(OUT, "{\"id\":\"%d-%ld\",\"n\":%d,\"st\":\"%s\",%s}\n", opt.shard, ids[ci], cs[ci].n, ok ? "ok" : res[ci].c_str() + 1,
                    ok ? res[ci].c_str() : "\"sus\":1,\"runs\":[]");
        }
        fflush(OUT);
    }
    fclose(OUT);
}
