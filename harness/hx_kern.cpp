// One step at a time of branch and reduce: reductions, flows, branching and
// local search, each with the problem before and after it.
#include <bits/stdc++.h>
#include <atomic>
#include <future>
#include <thread>
#include <mutex>
#include <condition_variable>
#include "tlx/logger.hpp"
#include "tlx/math.hpp"
#ifdef RULES
#define private public
#endif
#include "algorithms/multicut/multiterminal_cut.h"
#undef private
#include "common.h"

static ull optState(int n, const std::map<std::pair<int, int>, ull>& w, const std::vector<int>& lab0, int k) {
    std::vector<std::map<int, ull>> adj(n);
    for (auto& [p, x] : w) adj[p.first][p.second] += x, adj[p.second][p.first] += x;
    std::vector<int> lab = lab0, free;
    ull base = 0;
    for (int i = 0; i < n; ++i) if (lab[i] < 0) free.push_back(i);
    std::vector<ull> deg(n, 0);
    for (int i = 0; i < n; ++i) for (auto& [u, x] : adj[i]) deg[i] += x;
    std::sort(free.begin(), free.end(), [&](int a, int b) { return deg[a] > deg[b]; });
    for (auto& [p, x] : w) if (lab[p.first] >= 0 && lab[p.second] >= 0 && lab[p.first] != lab[p.second]) base += x;
    ull best = ~0ULL;
    std::function<void(size_t, ull)> go = [&](size_t i, ull c) {
        if (c >= best) return;
        if (i == free.size()) { best = c; return; }
        for (int t = 0; t < k; ++t) {
            ull d = 0;
            for (auto& [u, x] : adj[free[i]]) if (lab[u] >= 0 && lab[u] != t) d += x;
            lab[free[i]] = t; go(i + 1, c + d); lab[free[i]] = -1;
        }
    };
    go(0, base);
    return best;
}
struct State {
    int n = 0;
    std::vector<long> at;                         // original vertex -> vertex
    std::map<std::pair<int, int>, ull> w;
    ull del = 0, lo = 0, hi = 0;
    bool bad = false;                             // not symmetric, loops
    std::vector<long> part;                       // block of every original vertex
    long long opt = -1;
};
static State stateOf(problemPointer p, int n0) {
    State s;
    auto G = p->graph;
    s.n = G->n();
    std::map<std::pair<int, int>, ull> a, b;
    for (NodeID v : G->nodes()) for (EdgeID e : G->edges_of(v)) {
        int t = G->getEdgeTarget(v, e);
        if (t == (int)v) { s.bad = true; continue; }
        (t > (int)v ? a : b)[{std::min<int>(v, t), std::max<int>(v, t)}] += G->getEdgeWeight(v, e);
    }
    if (a != b) s.bad = true;
    s.w = a;
    for (int v = 0; v < n0; ++v) { s.at.push_back(G->getCurrentPosition(p->mapped(v))); s.part.push_back(s.at.back() < s.n ? G->getPartitionIndex(s.at.back()) : -1); }
    s.del = p->deleted_weight; s.lo = p->lower_bound; s.hi = p->upper_bound;
    return s;
}
static void solve(State& s, const std::vector<NodeID>& ot) {
    std::vector<int> lab(s.n, -1);
    for (auto x : s.at) if (x < 0 || x >= s.n) { s.bad = true; return; }
    for (size_t i = 0; i < ot.size(); ++i) { int& l = lab[s.at[ot[i]]]; if (l >= 0) { s.opt = 2000000000; return; } l = i; }
    s.opt = s.del + optState(s.n, s.w, lab, ot.size());
}
static std::string js(const State& s, const char* name, const std::string& extra = "") {
    std::string e = "[";
    for (auto& [p, x] : s.w) e += (e.size() > 1 ? "," : "") + std::string("[") + std::to_string(p.first) + "," + std::to_string(p.second) + "," + std::to_string(std::min<ull>(x, 2000000000)) + "]";
    auto cap = [](ull x) { return std::to_string(std::min<ull>(x, 2000000000)); };
    return std::string("{\"step\":") + jstr(name) + ",\"n\":" + std::to_string(s.n) + ",\"at\":" + jarr(s.at) + ",\"e\":" + e + "],\"del\":" + cap(s.del) + ",\"lo\":" + cap(s.lo) + ",\"hi\":" + cap(s.hi) + ",\"part\":" + jarr(s.part) + ",\"bad\":" + (s.bad ? "1" : "0") + extra + "}";
}
static std::string run(const Gr& g, const std::vector<int>& term, int k, Rng r) {
    auto cfg = configuration::getConfig();
    static const char* SEL[] = {"random", "heavy", "heavy_global", "connection", "distance", "heavy_vertex"};
    cfg->disable_cpu_affinity = true; cfg->seed = r(); cfg->threads = ri(r, 1, 3); cfg->queue_type = "lower_bound"; cfg->inexact = false;
    cfg->multibranch = coin(r, 50); cfg->edge_selection = SEL[r() % 6]; cfg->num_terminals = k; cfg->timeoutSeconds = 600; cfg->runLocalSearch = true;
    cfg->neighborhood_degrees = coin(r, 70) ? 5 : 30; cfg->random_flows = ri(r, 0, 5); cfg->high_distance_flows = ri(r, 0, 5); cfg->high_distance_factor = coin(r, 50) ? 0.9 : 0.2;
    random_functions::setSeed(cfg->seed);
    bool sus = false;
    std::vector<NodeID> ot;
    std::vector<std::vector<NodeID>> block(k);
    for (int v = 0; v < g.n; ++v) if (term[v] >= 0) block[term[v]].push_back(v);
    auto G = toMG(g);
    mutable_graph orig(*G);
    std::vector<terminal> ts;
    for (int i = 0; i < k; ++i) { ot.push_back(block[i][0]); ts.emplace_back(block[i][0], i); }
    auto p = std::make_shared<multicut_problem>(G, ts);
    // some pairs are contracted to begin with
    if (coin(r, 40)) {
        int c = ri(r, 1, std::max(1, g.n / 3));
        while (c--) {
            NodeID a = r() % G->n(), b = r() % G->n();
            std::set<int> tt;
            for (int v = 0; v < g.n; ++v) if (NodeID x = G->getCurrentPosition(v); term[v] >= 0 && (x == a || x == b)) tt.insert(term[v]);
            if (a != b && tt.size() < 2 && G->n() > 2) G->contractVertexSet({a, b});
        }
    }
    graph_contraction::setTerminals(p, ot);
    graph_contraction::deleteTermEdges(p, ot);
    std::vector<bool> fixed(g.n, false);
    for (int v = 0; v < g.n; ++v) fixed[v] = term[v] >= 0;
    // vertices of one terminal start in one vertex
    graph_contraction::contractIsolatingBlocks(p, [&] { std::vector<std::vector<NodeID>> b(k); for (int i = 0; i < k; ++i) { std::set<NodeID> s; for (auto v : block[i]) s.insert(p->graph->getCurrentPosition(v)); b[i].assign(s.begin(), s.end()); } return b; }());
    graph_contraction::setTerminals(p, ot);
    State s = stateOf(p, g.n);
    solve(s, ot);
    if (s.bad) sus = true;
    std::string out = js(s, "start");
    ull ub = s.opt + (coin(r, 45) ? 1 : coin(r, 50) ? ri(r, 2, 5) : 1000000);
    // (reductions may use that solutions of weight ub or more are not needed)
    std::vector<bool> act(p->graph->getOriginalNodes(), true), next(p->graph->getOriginalNodes(), false);
    for (size_t i = 0; i < act.size(); ++i) if (coin(r, 10)) act[i] = false;
    kernelization_criteria kc(ot);
    maximum_flow mf(ot);
    int steps = ri(r, 1, 4), last = -1;
    bool branch = coin(r, 60);
    auto check = [&](State& q, const State& before, bool isolating = false) {
        solve(q, ot);
        if (q.bad || (before.opt < (long long)ub ? q.opt != before.opt : q.opt < (long long)ub)) sus = true;
        if (before.opt < (long long)ub && (q.lo != ~0ull && (long long)q.lo > q.opt && q.opt >= 0)) sus = true;
        if (q.hi < (1ull << 60) && (long long)q.hi < q.opt) sus = true;
        if (isolating) {            // the partition belongs to the upper bound
            ull w = 0;
            for (auto& x : g.e) if (q.part[x.u] != q.part[x.v]) w += x.w;
            if (w > q.hi) sus = true;
            for (int v = 0; v < g.n; ++v) if (q.part[v] < 0 || q.part[v] >= k || (term[v] >= 0 && q.part[v] != term[v])) sus = true;
        }
    };
    for (int i = 0; i < steps + branch && p->graph->n() > 2; ++i) {
        const char* name = "";
        std::string extra;
        int c = i >= steps ? 9 : r() % 10;
        last = c;
        switch (c) {
#ifdef RULES
        case 0: { name = "low-degree"; auto uf = kc.lowDegreeContraction(p); kc.contractIfImproved(&uf, p, name, &next); break; }
        case 1: case 2: { name = "high-degree"; auto uf = kc.highDegreeContraction(p, act); kc.contractIfImproved(&uf, p, name, &next); break; }
        case 3: case 4: { name = "triangle"; auto uf = kc.triangleDetection(p, act); kc.contractIfImproved(&uf, p, name, &next); break; }
        case 5: { name = "neighbourhoods"; equal_neighborhood en; graph_contraction::setTerminals(p, ot); auto uf = en.findEqualNeighborhoods(p, act); kc.contractIfImproved(&uf, p, name, &next); break; }
        case 6: { name = "flow"; graph_contraction::setTerminals(p, ot); auto uf = mf.nonTerminalFlow(p, coin(r, 30), act); kc.contractIfImproved(&uf, p, name, &next); break; }
#endif
        case 7: {
            if (p->terminals.size() < 2) continue;
            name = "isolating"; mf.maximumIsolatingFlow(p, 0, coin(r, 40)); graph_contraction::deleteTermEdges(p, ot); break;
        }
        case 8: {
            if (p->graph->n() * 2 > p->graph->getOriginalNodes() && coin(r, 60)) continue;
            name = "simplify";
            auto map = std::make_shared<std::vector<NodeID>>();
            for (size_t j = 0; j < p->graph->getOriginalNodes(); ++j) map->emplace_back(p->graph->getCurrentPosition(j));
            p->mappings.emplace_back(map);
            p->graph = p->graph->simplify();
            act.assign(p->graph->getOriginalNodes(), true); next.assign(p->graph->getOriginalNodes(), false);
            graph_contraction::setTerminals(p, ot);
            break;
        }
        default:
            if (p->terminals.size() >= 2) {
                mf.maximumIsolatingFlow(p, 0, coin(r, 40)); graph_contraction::deleteTermEdges(p, ot);
                State q = stateOf(p, g.n);
                check(q, s, true);
                out += "," + js(q, "isolating", extra);
                s = q;
                if (q.bad || q.n < 2) continue;
            }
            name = "kernelization"; kc.kernelization(p, ub, coin(r, 30)); break;
        }
        State q = stateOf(p, g.n);
        check(q, s, c == 7);
        out += "," + js(q, name, extra);
        s = q;
        if (s.bad) break;
        bool merged = false;
        { std::set<long> x; for (auto t : ot) x.insert(s.at[t]); merged = (int)x.size() < k; }
        if (merged) { out += ",{\"step\":\"end\"}"; goto done; }
    }
    graph_contraction::setTerminals(p, ot);
    if (!s.bad && p->terminals.size() >= 2 && p->graph->number_of_edges() && branch && last == 9) {
        // branching: what is left must contain a solution as good
        graph_contraction::deleteTermEdges(p, ot);
        if (p->graph->number_of_edges()) {
            mpi_communication mpic;
            problem_management pm(orig, ot, fixed);
            pm.updateBound(ub);
            p->priority_edge = {UNDEFINED_NODE, UNDEFINED_EDGE};
            if (coin(r, 30)) p->upper_bound = p->deleted_weight + 1000000000;
            pm.branch(p, 0, &mpic);
            std::string ch;
            ull best = ub;
            for (size_t t = 0; t < (size_t)cfg->threads; ++t)
                while (auto x = pm.pullProblem(t, false)) {
                    State q = stateOf(*x, g.n);
                    solve(q, ot);
                    if (q.bad) sus = true;
                    else if (q.opt < s.opt) sus = true;
                    best = std::min<ull>(best, q.opt);
                    if ((ull)q.opt < std::min<ull>(ub, pm.bestCut()) && q.lo > (ull)q.opt) sus = true;
                    ch += (ch.empty() ? "" : ",") + js(q, "child");
                }
            std::vector<NodeID> sol;
            if (pm.isBestSolutionInitialized()) sol = pm.getBestSolution();
            if ((long long)pm.bestCut() < s.opt && s.del == stateOf(p, g.n).del) {}
            if (std::min<ull>(best, pm.bestCut()) > std::min<ull>(ub, s.opt)) sus = true;
            out += std::string(",{\"step\":\"branch\",\"how\":") + jstr(cfg->multibranch ? "multi" : "single-" + cfg->edge_selection) + ",\"best\":" + std::to_string((ull)pm.bestCut()) + ",\"sol\":" + jarr(sol) + ",\"child\":[" + ch + "]}";
        }
    } else if (!s.bad && coin(r, 80)) {
        // local search from a random valid solution
        std::vector<NodeID> sol(g.n);
        for (int v = 0; v < g.n; ++v) sol[v] = term[v] >= 0 ? term[v] : r() % k;
        if (coin(r, 50)) { std::vector<int> m(s.n, -1); for (int v = 0; v < g.n; ++v) { int& x = m[s.at[v]]; if (x < 0 || term[v] >= 0) x = sol[v]; } for (int v = 0; v < g.n; ++v) if (term[v] < 0) sol[v] = m[s.at[v]]; }
        auto before = sol;
        auto val = [&](std::vector<NodeID>& x) { ull c = 0; for (auto& e : g.e) if (x[e.u] != x[e.v]) c += e.w; return c; };
        local_search ls(orig, ot, fixed, &sol);
        timer t;
        long imp = (long)ls.improveSolution(t);
        if ((long)val(before) - (long)val(sol) != imp || imp < 0) sus = true;
        for (int v = 0; v < g.n; ++v) if (sol[v] >= (NodeID)k || (term[v] >= 0 && (int)sol[v] != term[v])) sus = true;
        out += ",{\"step\":\"search\",\"from\":" + jarr(before) + ",\"sol\":" + jarr(sol) + ",\"imp\":" + std::to_string(imp) + "}";
    }
done:
    return "\"ub\":" + std::to_string(ub) + ",\"steps\":[" + out + "],\"sus\":" + (sus ? "1" : "0");
}
int main(int ac, char** av) {
    parseOpt(ac, av);
    std::vector<Gr> given;
    if (!opt.in.empty()) given = readGraphs(opt.in);
    bool gv = !given.empty();
    long total = gv ? (long)given.size() : std::max(opt.count, opt.only + 1);
    long it = std::max(0L, opt.only);
    while (it < total && !opt.timeUp()) {
        std::vector<long> ids;
        std::vector<Gr> gs;
        std::vector<uint32_t> seeds;
        std::vector<std::vector<int>> terms;
        for (; it < total && ids.size() < 32; ++it) if (opt.mine(it, gv)) {
            Rng r = rngFor(it, gv ? 9 : 0);
            Gr g;
            if (gv) g = given[it];
            else { ull wm[] = {1, 2, 3, 5, 10, 100}; g = genGraph(r, r() % NCAT, coin(r, 60) ? ri(r, 3, 10) : ri(r, 9, 12), wm[r() % 6]); }
            if (g.n < 3 || g.n > 13) continue;
            int k = g.k = ri(r, 2, std::min(g.n, coin(r, 25) ? 5 : 4));
            std::vector<int> term(g.n, -1), p(g.n);
            for (int i = 0; i < g.n; ++i) p[i] = i;
            std::shuffle(p.begin(), p.end(), r);
            for (int i = 0; i < k; ++i) term[p[i]] = i;
            if (coin(r, 15)) for (int i = k; i < g.n; ++i) if (coin(r, 15)) term[p[i]] = r() % k;
            ids.push_back(it); gs.push_back(g); seeds.push_back(r()); terms.push_back(term);
        }
        if (ids.empty()) break;
        auto res = isolated(ids.size(), [&](int i) { return run(gs[i], terms[i], gs[i].k, Rng(seeds[i])); }, 30);
        for (size_t i = 0; i < ids.size(); ++i) {
            bool ok = res[i][0] != '!';
            // of the runs that look fine only the first ones are written
            if (!keep(!ok || res[i].rfind("\"sus\":0") == std::string::npos)) continue;
            fprintf(OUT, "{\"id\":\"%d-%ld\",\"n\":%d,\"k\":%d,\"e\":%s,\"term\":%s,\"st\":\"%s\",%s}\n", opt.shard, ids[i], gs[i].n, gs[i].k, jedges(gs[i]).c_str(), jarr(terms[i]).c_str(), ok ? "ok" : res[i].c_str() + 1, ok ? res[i].c_str() : "\"ub\":0,\"steps\":[],\"sus\":1");
        }
        fflush(OUT);
    }
    fclose(OUT);
    return 0;
}
