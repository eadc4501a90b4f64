// Histories of operations on mutable_graph; every vertex carries its label in
// its partition index, so that the specification can follow it when the
// implementation moves vertices around.
#include "common.h"

static std::string state(mutableGraphPtr G) {
    std::string l = "[", c = "[", d = "[", a = "[", f = "[";
    for (NodeID v : G->nodes()) {
        const char* s = v ? "," : "";
        l += s + std::to_string(G->getPartitionIndex(v));
        auto cv = G->containedVertices(v);
        c += s + jarr(cv);
        d += s + std::to_string(G->getWeightedNodeDegree(v));
        f += s + std::to_string(G->getNodeInCut(v));
        a += std::string(s) + "[";
        size_t deg = 0;
        for (EdgeID e : G->edges_of(v)) {
            NodeID t = G->getEdgeTarget(v, e);
            EdgeID r = G->getReverseEdge(v, e);
            bool ok = t < G->n() && t != v && r < G->get_first_invalid_edge(t) && G->getEdgeTarget(t, r) == v
                      && G->getReverseEdge(t, r) == e && G->getEdgeWeight(t, r) == G->getEdgeWeight(v, e)
                      && G->getEdgeSource(v, e) == v && G->getEdge(v, e) == std::make_pair(t, G->getEdgeWeight(v, e));
            a += std::string(e ? "," : "") + "[" + std::to_string(t < G->n() ? G->getPartitionIndex(t) : 9999) + "," + std::to_string(G->getEdgeWeight(v, e)) + "," + std::to_string(ok) + "]";
            ++deg;
        }
        if (deg != G->getUnweightedNodeDegree(v)) a += ",[9999,0,0]";
        a += "]";
    }
    std::string pos = "[";
    for (NodeID o = 0; o < G->getOriginalNodes(); ++o) {
        NodeID p = G->getCurrentPosition(o);
        pos += std::string(o ? "," : "") + std::to_string(p < G->n() ? (long)G->getPartitionIndex(p) : -1L);
    }
    return "{\"l\":" + l + "],\"c\":" + c + "],\"d\":" + d + "],\"f\":" + f + "],\"a\":" + a + "],\"pos\":" + pos + "],\"m\":" + std::to_string(G->m())
           + ",\"orig\":" + std::to_string(G->getOriginalNodes())
           + ",\"mx\":" + std::to_string(G->n() ? G->getMaxDegree() : 0) + ",\"mn\":" + std::to_string(G->n() ? G->getMinDegree() : 0)
           + ",\"sum\":" + std::to_string(G->sumOfEdgeWeights()) + "}";
}

static bool simple(mutableGraphPtr G) {
    for (NodeID v : G->nodes()) {
        std::set<NodeID> s;
        for (EdgeID e : G->edges_of(v)) if (!s.insert(G->getEdgeTarget(v, e)).second) return false;
    }
    return true;
}

// native triage: the same abstract graph as in MutableGraph
struct Ref {
    std::map<long, std::set<long>> C;
    std::map<std::pair<long, long>, long> W;
    std::map<long, int> F;
    static std::pair<long, long> key(long a, long b) { return {std::min(a, b), std::max(a, b)}; }
    void add(long a, long b, long w) { if (a != b) { long& x = W[key(a, b)]; if (!(x += w)) W.erase(key(a, b)); } }
    void apply(const std::string& k, const std::vector<long>& S, long w, mutableGraphPtr G) {
        if (k == "edge" || k == "addw") add(S[0], S[1], w);
        else if (k == "contract" && S.size() > 1) {
            long r = S[0];
            for (NodeID v : G->nodes()) for (long x : S) if (x == (long)G->getPartitionIndex(v)) r = x;
            std::set<long> s(S.begin(), S.end());
            auto old = W;
            W.clear();
            for (auto& [p, x] : old) add(s.count(p.first) ? r : p.first, s.count(p.second) ? r : p.second, x);
            for (long x : s) if (x != r) { C[r].insert(C[x].begin(), C[x].end()); C.erase(x); F.erase(x); }
            F.erase(r);
        } else if (k == "delv") {
            C.erase(S[0]); F.erase(S[0]);
            for (auto it = W.begin(); it != W.end();) it = it->first.first == S[0] || it->first.second == S[0] ? W.erase(it) : std::next(it);
        } else if (k == "newv") C[S[0]], F[S[0]] = 0;
        else if (k == "reset") { for (auto& c : C) c.second.clear(); for (NodeID v : G->nodes()) C[G->getPartitionIndex(v)] = {(long)v}; }
    }
    bool same(mutableGraphPtr G) {
        std::map<std::pair<long, long>, long> w;
        if (G->n() != C.size()) return false;
        ull sum = 0, m = 0, mx = 0, mn = ~0ull;
        for (NodeID v : G->nodes()) {
            long l = G->getPartitionIndex(v);
            auto c = G->containedVertices(v);
            if (!C.count(l) || c.size() != C[l].size()) return false;
            for (auto x : c) if (!C[l].count(x) || G->getCurrentPosition(x) != v) return false;
            if (F.count(l) && F[l] != (int)G->getNodeInCut(v)) return false;
            ull d = 0;
            for (EdgeID e : G->edges_of(v)) {
                NodeID t = G->getEdgeTarget(v, e);
                if (t >= G->n() || t == v) return false;
                EdgeID q = G->getReverseEdge(v, e);
                if (q >= G->get_first_invalid_edge(t) || G->getEdgeTarget(t, q) != v || G->getReverseEdge(t, q) != e || G->getEdgeWeight(t, q) != G->getEdgeWeight(v, e)) return false;
                long b = G->getPartitionIndex(t);
                if (l < b) w[{l, b}] += G->getEdgeWeight(v, e);
                d += G->getEdgeWeight(v, e); ++m;
            }
            if (d != G->getWeightedNodeDegree(v)) return false;
            sum += d; mx = std::max(mx, d); mn = std::min(mn, d);
        }
        return w == W && m == G->m() && (!G->n() || (mx == G->getMaxDegree() && mn == G->getMinDegree())) && sum == G->sumOfEdgeWeights();
    }
};
static std::string history(const Gr& g, uint64_t seed, int len, bool big) {
    Rng r(seed);
    auto G = toMG(g);
    int next = g.n;
    for (NodeID v : G->nodes()) G->setPartitionIndex(v, v), G->setNodeInCut(v, coin(r, 50));
    std::string out = "[{\"k\":\"init\",\"S\":[],\"w\":0,\"st\":" + state(G) + "}";
    bool deleted = false, grown = false, sus = false;
    Ref ref;
    for (NodeID v : G->nodes()) ref.C[v] = {(long)v}, ref.F[v] = G->getNodeInCut(v);
    for (auto& x : g.e) ref.add(x.u, x.v, x.w);
    auto emit = [&](const std::string& k, const std::vector<long>& S, long w) {
        ref.apply(k, S, w, G);
        if (!sus && !ref.same(G)) sus = true;
        out += ",{\"k\":\"" + k + "\",\"S\":" + jarr(S) + ",\"w\":" + std::to_string(w) + ",\"st\":" + state(G) + "}";
    };
    std::vector<mutableGraphPtr> old;
    auto L = [&](NodeID v) { return (long)G->getPartitionIndex(v); };
    for (int i = 0; i < len; ++i) {
        int n = G->n();
        int what = r() % 100;
        NodeID a = n ? r() % n : 0, b = n ? r() % n : 0;
        if (what < 14 && n > 0) {
            ull w = ri(r, 1, 6);
            std::vector<long> S = {L(a), L(b)};
            G->new_edge_order(a, b, w);
            emit("edge", S, w);
        } else if (what < 20 && n > 0 && G->getUnweightedNodeDegree(a)) {
            EdgeID e = r() % G->getUnweightedNodeDegree(a);
            // which of several parallel edges is meant is part of the operation
            long w0 = G->getEdgeWeight(a, e), w = ri(r, 1, 9);
            std::vector<long> S = {L(a), L(G->getEdgeTarget(a, e))};
            G->setEdgeWeight(a, e, w);
            emit("addw", S, w - w0);
        } else if (what < 30 && n > 0 && G->getUnweightedNodeDegree(a)) {
            EdgeID e = r() % G->getUnweightedNodeDegree(a);
            long w0 = G->getEdgeWeight(a, e);
            std::vector<long> S = {L(a), L(G->getEdgeTarget(a, e))};
            G->deleteEdge(a, e);
            emit("addw", S, -w0);
        } else if (what < 62 && n > 1 && G->getUnweightedNodeDegree(a) && simple(G)) {
            EdgeID e = r() % G->getUnweightedNodeDegree(a);
            b = G->getEdgeTarget(a, e);
            std::vector<long> S = {L(a), L(b)};
            if (coin(r, 50)) G->contractEdge(a, e);
            else G->contractEdgeSparseTarget(a, e);
            emit("contract", S, 0);
        } else if (what < 66 && n > 1 && a != b && simple(G)) {
            bool adj = false;
            for (EdgeID e : G->edges_of(a)) adj = adj || G->getEdgeTarget(a, e) == b;
            if (adj) continue;
            std::vector<long> S = {L(a), L(b)};
            G->contractSparseTargetNoEdge(a, b);
            emit("contract", S, 0);
        } else if (what < 80 && n > 0) {
            std::unordered_set<NodeID> s;
            std::vector<long> S;
            int k = ri(r, 1, big ? n : std::min(n, 4));
            for (int j = 0; j < k; ++j) s.insert(r() % n);
            for (auto v : s) S.push_back(L(v));
            G->contractVertexSet(s);
            emit("contract", S, 0);
        } else if (what < 84 && n > 1 && coin(r, 60)) {
            std::vector<long> S = {L(a)};
            G->deleteVertex(a);
            deleted = true;
            emit("delv", S, 0);
        } else if (what < 88 && next < 900) {
            NodeID v = G->new_empty_node();
            G->setPartitionIndex(v, next++);
            G->setNodeInCut(v, 0);
            grown = true;
            emit("newv", {L(v)}, 0);
        } else if (what < 91) {
            G = std::make_shared<mutable_graph>(*G);
            emit("same", {}, 0);
        } else if (what < 95 && !deleted) {
            std::vector<int> f;
            for (NodeID v : G->nodes()) f.push_back(G->getNodeInCut(v));
            G = mutable_graph::deserialize(G->serialize());
            for (NodeID v : G->nodes()) G->setNodeInCut(v, f[v]);   // not serialized
            emit("same", {}, 0);
        } else if (what < 97 && n > 0) {
            std::vector<int> f;
            for (NodeID v : G->nodes()) f.push_back(G->getNodeInCut(v));
            G = G->simplify();
            for (NodeID v : G->nodes()) G->setNodeInCut(v, f[v]);
            deleted = grown = false;
            emit("reset", {}, 0);
        } else if (what < 98 && n > 0 && !grown) {
            G->resetContainedvertices();
            deleted = false;
            emit("reset", {}, 0);
        } else if (n > 0) {
            bool simp = simple(G);
            std::vector<long> lab; std::vector<int> f;
            for (NodeID v : G->nodes()) lab.push_back(L(v)), f.push_back(G->getNodeInCut(v));
            auto A = G->to_graph_access();
            if (simp)
                for (EdgeID e : A->edges()) {
                    EdgeID rv = A->find_reverse_edge(e);
                    if (A->find_reverse_edge(rv) != e || A->getEdgeTarget(rv) != A->getEdgeSource(e) || A->getEdgeWeight(rv) != A->getEdgeWeight(e)) A->setEdgeWeight(e, 777777);
                }
            G = mutable_graph::from_graph_access(A);
            for (NodeID v : G->nodes()) G->setPartitionIndex(v, lab[v]), G->setNodeInCut(v, f[v]);
            deleted = grown = false;
            emit("reset", {}, 0);
        }
    }
    return (sus ? "@" : "") + out + "]";
}

int main(int ac, char** av) {
    parseOpt(ac, av);
    for (long it = std::max(0L, opt.only); it < std::max(opt.count, opt.only + 1) && !opt.timeUp(); ++it) {
        if (!opt.mine(it)) continue;
        Rng r = rngFor(it);
        int big = it % 8 == 7;
        Gr g = genGraph(r, r() % NCAT, big ? ri(r, 8, 24) : ri(r, 2, 9), 5);
        if (g.n > 40) continue;
        if (coin(r, 25)) {                       // very sparse
            Gr h = g; h.e.clear();
            for (auto& x : g.e) if (coin(r, 20)) h.e.push_back(x);
            g = h;
        }
        uint64_t seed = r();
        auto res = isolated(1, [&](int) { return history(g, seed, big ? 30 : 14, big); }, 20);
        bool ok = res[0][0] != '!', sus = !ok;
        if (res[0][0] == '@') sus = true, res[0].erase(0, 1);
        if (!keep(sus)) continue;
        fprintf(OUT, "{\"id\":\"%d-%ld\",\"n\":%d,\"e\":%s,\"st\":\"%s\",\"sus\":%d,\"ops\":%s}\n", opt.shard, it, g.n, jedges(g).c_str(), ok ? "ok" : res[0].c_str() + 1, (int)sus, ok ? res[0].c_str() : "[]");
        fflush(OUT);
    }
    fclose(OUT);
    return 0;
}
