// The reductions the exact algorithms are made of, one call at a time: CAPFOREST,
// the Padberg-Rinaldi tests, and the contractions.  Built three times: sequential,
// PARALLEL with real threads, PARALLEL with controlled schedules (SCHED).
#include "algorithms/global_mincut/algorithms.h"
#include "algorithms/global_mincut/noi_minimum_cut.h"
#ifdef PARALLEL
#include "parallel/algorithm/exact_parallel_minimum_cut.h"
#endif
#include "common.h"

struct Run { std::string kind; char gt; uint32_t seed; std::string pq = "default"; bool nolimit = false, all = false, off = false; ull bound = 1, scale = 1; int th = 1; std::vector<NodeID> map; int num = 0;
    std::string name() const {
        return kind + "/" + gt + (kind == "noi" ? "/" + pq + (nolimit ? "/nolimit" : "") : "") + (all ? "/all" : "") + (scale > 1 ? "/big" : "") + (off ? "/off" : "") + "/t" + std::to_string(th);
    } };

template <class UF> static std::string partition(UF& uf, int n, bool& sus, std::vector<int>* out = nullptr) {
    std::vector<int> p(n);
    std::set<int> s;
    for (int i = 0; i < n; ++i) { p[i] = uf.Find(i); s.insert(p[i]); }
    if (uf.n() != s.size()) sus = true;
    if (out) *out = p;
    return "\"part\":" + jarr(p) + ",\"ufn\":" + std::to_string(uf.n());
}
template <class GP> static std::string halves(const GP& H, ull scale, std::map<std::pair<int, int>, ull>& got, int& cnt, int& badrev) {
    std::string he;
    cnt = 0; badrev = 0;
    for (NodeID u : H->nodes())
        for (EdgeID e : H->edges_of(u)) {
            auto [t, w] = H->getEdge(u, e);
            if constexpr (std::is_same<GP, mutableGraphPtr>::value) {
                EdgeID b = H->getReverseEdge(u, e);
                if (b >= H->getUnweightedNodeDegree(t) || H->getEdgeTarget(t, b) != u || H->getEdgeWeight(t, b) != w || H->getReverseEdge(t, b) != e) ++badrev;
            }
            got[{(int)u, (int)t}] += w;
            ++cnt;
            he += (he.empty() ? "[" : ",[") + std::to_string(u) + "," + std::to_string(t) + "," + std::to_string(unscale(w, scale)) + "]";
        }
    return "[" + he + "]";
}
// every cut lighter than the bound as a bit mask, lightest value
static void cuts(const Gr& g, std::vector<ull>& w) {
    w.assign(1u << (g.n - 1), 0);
    for (unsigned m = 1; m < w.size(); ++m)
        for (auto& e : g.e) { int a = e.u ? (m >> (e.u - 1)) & 1 : 0, b = e.v ? (m >> (e.v - 1)) & 1 : 0; if (a != b) w[m] += e.w; }
}
template <class GP> static std::string go(const Gr& g, GP G, const Run& c) {
    auto cfg = configuration::getConfig();
    cfg->save_cut = true; cfg->pq = c.pq; cfg->disable_limiting = c.nolimit; cfg->threads = c.th; cfg->verbose = false;
    omp_set_num_threads(c.th);
    random_functions::setSeed(c.seed);
    bool sus = false;
    std::string s;
    std::vector<int> p;
    if (c.kind == "noi") {
        noi_minimum_cut<GP> noi;
        auto uf = noi.modified_capforest(G, c.bound);
        s = partition(uf, g.n, sus, &p);
#ifdef PARALLEL
    } else if (c.kind == "capforest") {
        exact_parallel_minimum_cut<GP> mc;
        auto uf = mc.parallel_modified_capforest(G, c.bound, c.off);
        s = partition(uf, g.n, sus, &p);
#endif
    } else if (c.kind == "pr12") {
        auto uf = tests::prTests12(G, c.bound, c.all);
        s = partition(uf, g.n, sus, &p);
    } else if (c.kind == "pr34") {
        auto uf = tests::prTests34(G, c.bound, c.all);
        s = partition(uf, g.n, sus, &p);
    } else if (c.kind == "edges" || c.kind == "triangles") {
        if constexpr (std::is_same<GP, graphAccessPtr>::value) {
            union_find uf(g.n);
            if (c.kind == "edges") tests::findHeavyEdges(G, &uf, c.bound - c.scale);
            else tests::findHeavyTriangles(G, &uf, c.bound - c.scale);
            s = partition(uf, g.n, sus, &p);
        }
    }
    if (!p.empty()) {
        // what the specification will decide
        std::vector<ull> w;
        cuts(g, w);
        ull lam = ~0ull, q = ~0ull;
        for (unsigned m = 1; m < w.size(); ++m) lam = std::min(lam, w[m]);
        bool lost = false;
        for (unsigned m = 1; m < w.size(); ++m) {
            bool crossed = false;
            for (int v = 0; v < g.n; ++v) {
                int a = v ? (m >> (v - 1)) & 1 : 0, b = p[v] ? (m >> (p[v] - 1)) & 1 : 0;
                crossed |= a != b;
            }
            if (!crossed) q = std::min(q, w[m]);
            else if (c.kind[0] != 'p' ? w[m] < c.bound : c.all && w[m] == lam && lam < c.bound) lost = true;
        }
        if (c.kind[0] == 'p' && !c.all && lam < c.bound && q != lam) lost = true;
        sus |= lost;
        return s + ",\"pos\":[],\"num\":0,\"badrev\":0,\"he\":[],\"sus\":" + (sus ? "1" : "0");
    }
    // contractions
    std::vector<std::vector<NodeID>> rev(c.num);
    for (int v = 0; v < g.n; ++v) rev[c.map[v]].push_back(v);
    GP H;
    std::vector<int> pos(c.map.begin(), c.map.end());
    if (c.kind == "uf") {
        union_find uf(g.n);
        // a partition made by unions in an order of its own
        Rng r(c.seed);
        for (auto& b : rev) for (size_t i = 1; i < b.size(); ++i) uf.Union(b[r() % i], b[i]);
        H = contraction::fromUnionFind(G, &uf, true);
        for (int v = 0; v < g.n; ++v) pos[v] = G->getPartitionIndex(v);
    } else if (c.kind == "contract") {
        if constexpr (std::is_same<GP, mutableGraphPtr>::value) H = contraction::contractGraph(G, c.map, rev, true);
        else H = contraction::contractGraph(G, c.map, rev);
        if constexpr (std::is_same<GP, mutableGraphPtr>::value) {
            // only one of the two ways renumbers, and then the partition index tells
            bool told = false;
            for (int v = 0; v < g.n; ++v) told |= G->getPartitionIndex(v) != 0;
            if (told) for (int v = 0; v < g.n; ++v) pos[v] = G->getPartitionIndex(v);
        }
    } else if (c.kind == "trivial") {
        auto m = c.map;
        ull target = c.bound;
        contraction::findTrivialCuts(G, &m, &rev, target);
        std::vector<int> cnt(g.n, 0);
        for (size_t b = 0; b < rev.size(); ++b) for (auto v : rev[b]) { if (m[v] != b) sus = true; ++cnt[v]; }
        for (int x : cnt) if (x != 1) sus = true;
        std::string rv;
        for (auto& b : rev) rv += (rv.empty() ? "" : ",") + jarr(b);
        return "\"part\":" + jarr(m) + ",\"ufn\":0,\"pos\":" + jarr(c.map) + ",\"num\":" + std::to_string(rev.size()) + ",\"badrev\":0,\"he\":[" + rv + "],\"sus\":" + (sus ? "1" : "0");
    } else {
#ifdef PARALLEL
        if constexpr (std::is_same<GP, graphAccessPtr>::value) {
            if (c.kind == "mesh") H = contraction::contractGraphFullMesh(G, c.map, c.num);
        }
        if (c.kind == "sparse") H = contraction::contractGraphSparse(G, c.map, c.num);
#else
        if (c.kind == "sparse") H = contraction::contractGraphSparse(G, c.map, rev);
#endif
    }
    std::map<std::pair<int, int>, ull> got, want;
    int cnt, badrev;
    std::string he = halves(H, g.scale, got, cnt, badrev);
    std::map<int, int> to;
    for (int v = 0; v < g.n; ++v) { auto it = to.insert({c.map[v], pos[v]}).first; if (it->second != pos[v]) sus = true; }
    std::set<int> img;
    for (auto& x : to) { img.insert(x.second); if (x.second < 0 || x.second >= c.num) sus = true; }
    if (img.size() != to.size() || (int)H->number_of_nodes() != c.num) sus = true;
    for (auto& e : g.e) { int a = pos[e.u], b = pos[e.v]; if (a != b) { want[{a, b}] += e.w; want[{b, a}] += e.w; } }
    if (got != want || cnt != (int)want.size() || badrev) sus = true;
    s = "\"part\":" + jarr(c.map) + ",\"ufn\":" + std::to_string(H->number_of_nodes()) + ",\"pos\":" + jarr(pos) + ",\"num\":" + std::to_string(c.num);
    return s + ",\"badrev\":" + std::to_string(badrev) + ",\"he\":" + he + ",\"sus\":" + (sus ? "1" : "0");
}

int main(int ac, char** av) {
    parseOpt(ac, av);
    bool red = opt.mode != "contract";
    long total = std::max(opt.count, opt.only + 1);
    for (long it = std::max(0L, opt.only); it < total && !opt.timeUp(); ++it) {
        if (!opt.mine(it)) continue;
        Rng r = rngFor(it, 0);
        ull wm[] = {1, 2, 3, 4, 10, 50};
        bool wide = !red && coin(r, 12);           // the contested edge of two large blocks
        int n = wide ? ri(r, 101, 128) : ri(r, 2, red ? 8 : 14);
        Gr g = wide ? genGraph(r, 2, n, 5) : genGraph(r, r() % NCAT, n, wm[r() % 6]);
        if (g.n < 2 || (red && g.n > 9) || g.n > 140) continue;
        ull tot = 0, mind = ~0ull;
        std::vector<ull> deg(g.n, 0);
        for (auto& e : g.e) { tot += e.w; deg[e.u] += e.w; deg[e.v] += e.w; }
        for (auto d : deg) mind = std::min(mind, d);
        if (tot > 100000) continue;
        ull lam = mincutNative(g);
        std::vector<Run> rs;
        auto add = [&](const char* k, char gt) -> Run& {
            Run x; x.kind = k; x.gt = gt; x.seed = r(); x.th = ri(r, 2, 3);
            rs.push_back(x);
            return rs.back();
        };
        char A = "AM"[r() & 1];
        if (red) {
            // the bounds the algorithms use lie between the minimum cut and the least degree plus one
            auto bound = [&](bool plus) { ull b = lam + (mind > lam ? r() % (mind - lam + 1) : 0); return b + (plus ? 1 : 0); };
#ifdef PARALLEL
            for (int k = 0; k < 4; ++k) { auto& x = add("capforest", A); x.off = coin(r, 20); x.bound = std::max<ull>(1, bound(coin(r, 60))); if (coin(r, 15)) x.bound += ri(r, 1, 4); A = "AM"[r() & 1]; }
#else
            for (std::string pq : {"default", "bqueue", "heap", "bstack"}) { auto& x = add("noi", A); x.pq = pq; x.nolimit = coin(r, 30); x.bound = std::max<ull>(1, bound(coin(r, 50))); if (coin(r, 15)) x.bound += ri(r, 1, 4); A = "AM"[r() & 1]; }
#endif
            for (const char* k : {"pr12", "pr34"})
                for (int all = 0; all < 2; ++all) {
                    auto& x = add(k, "AM"[r() & 1]); x.all = all; x.bound = bound(all);
                    // a triangle rule needs its own bound of the sums to matter
                    if (coin(r, 50)) x.bound = mind + all;
                }
            // joins what no cut up to a limit (one less than this bound) separates
            for (const char* k : {"edges", "triangles"}) { auto& x = add(k, 'A'); x.bound = 1 + (coin(r, 50) ? lam : ri(r, 0, 2 * wm[5] / 25)); }
        } else {
            for (const char* k : {"uf", "uf", "sparse", "mesh", "contract", "trivial"}) {
                auto& x = add(k, std::string(k) == "mesh" ? 'A' : "AM"[r() & 1]);
#ifndef PARALLEL
                if (x.kind == "mesh") x.kind = "sparse";
#endif
                if (wide && (x.kind == "mesh" || x.kind == "trivial")) { x.kind = "sparse"; }
                int num = wide ? ri(r, 2, 6) : coin(r, 25) ? g.n - (int)(r() % 3) : ri(r, 1, g.n);
                num = std::max(1, std::min(num, g.n));
                if (x.kind == "trivial") num = ri(r, 1, std::max(1, g.n / 2));
                x.num = num; x.bound = mind + 1 + r() % 5;
                x.map.resize(g.n);
                std::vector<int> p(g.n);
                std::iota(p.begin(), p.end(), 0);
                std::shuffle(p.begin(), p.end(), r);
                for (int i = 0; i < g.n; ++i) x.map[p[i]] = i < num ? i : wide ? r() % 2 : coin(r, 40) ? r() % std::min(num, 2) : r() % num;
                // fromUnionFind numbers blocks by their first vertex; a clustering is numbered that way too
                std::map<int, int> re;
                for (int v = 0; v < g.n; ++v) { auto q = re.insert({(int)x.map[v], (int)re.size()}); x.map[v] = q.first->second; }
            }
        }
        // every rule is linear in the weights: what holds for small ones has to hold for large ones
        for (auto& x : rs) if ((x.kind != "capforest" && (x.kind != "noi" || x.pq == "heap" || x.pq == "default") && x.kind != "trivial") && coin(r, 25)) x.scale = 1ull << (r() % 2 ? ri(r, 27, 33) : ri(r, 20, 40));
        auto res = isolated(rs.size(), [&](int i) {
            Gr h = g;
            Run x = rs[i];
            if (x.scale > 1) { scaleBy(h, x.scale); x.bound *= x.scale; }
            return x.gt == 'A' ? go(h, toGA(h), x) : go(h, toMG(h), x);
        }, 30);
        for (size_t i = 0; i < rs.size(); ++i) {
            bool ok = res[i][0] != '!';
            if (!keep(!ok || res[i].rfind("\"sus\":0") == std::string::npos)) continue;
            fprintf(OUT, "{\"id\":\"%d-%ld.%zu\",\"n\":%d,\"e\":%s,\"how\":\"%s\",\"kind\":\"%s\",\"all\":%d,\"bound\":%lld,\"st\":\"%s\",%s}\n", opt.shard, it, i, g.n, jedges(g).c_str(), rs[i].name().c_str(), rs[i].kind.c_str(), rs[i].all ? 1 : 0, (long long)rs[i].bound, ok ? "ok" : res[i].c_str() + 1,
                    ok ? res[i].c_str() : "\"part\":[],\"ufn\":0,\"pos\":[],\"num\":0,\"badrev\":0,\"he\":[],\"sus\":1");
        }
        fflush(OUT);
    }
    fclose(OUT);
    return 0;
}
