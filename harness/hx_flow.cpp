// Maximum flows / minimum s-T cuts of push_relabel: values, source sets and
// the flow left on the edges.
#include "algorithms/flow/push_relabel.h"
#include "common.h"
#include "data_structure/flow_graph.h"

struct Q { std::vector<NodeID> src; int idx; char variant; bool set; long limit; };

// min cut by enumerating source sides, small graphs (triage)
static ull brute(const Gr& g, const Q& q, unsigned* largest) {
    ull best = ~0ull;
    unsigned all = 0;       // the union of all smallest cuts is one
    for (unsigned S = 0; S < (1u << g.n); ++S) {
        if (!((S >> q.src[q.idx]) & 1)) continue;
        bool ok = true;
        for (size_t i = 0; i < q.src.size(); ++i) if ((int)i != q.idx && ((S >> q.src[i]) & 1)) ok = false;
        if (!ok) continue;
        ull c = 0;
        for (auto& x : g.e) if (((S >> x.u) & 1) != ((S >> x.v) & 1)) c += x.w;
        if (c < best) all = 0;
        if (c <= best) best = c, all |= S;
    }
    unsigned around = 1u << q.src[q.idx], last = 0;
    while (around != last) {
        last = around;
        for (auto& x : g.e) if (x.u != x.v) { unsigned e = (1u << x.u) | (1u << x.v); if ((e & around) && (e & all) == e) around |= e; }
    }
    *largest = around;
    return best;
}

template <class PR> static std::string solve(PR& pr, mutableGraphPtr G, const Gr& g, const Q& q, ull* val, unsigned* side) {
    size_t pid = 1 + random_functions::next();
    auto [f, set] = q.limit ? pr.solve_max_flow_min_cut(G, q.src, q.idx, q.set, (FlowType)q.limit * (FlowType)g.scale, pid)
                            : pr.solve_max_flow_min_cut(G, q.src, q.idx, q.set, 0, pid);
    *val = f; *side = 0;
    for (auto v : set) *side |= 1u << (v & 31);
    std::string fl, ed;
    bool inGraph = q.variant != 'P' && !(q.limit && (ull)f >= (ull)q.limit * g.scale);
    for (NodeID v : G->nodes())
        for (EdgeID e : G->edges_of(v)) {
            NodeID t = G->getEdgeTarget(v, e);
            FlowType x = inGraph ? G->getEdgeFlow(v, e, pid) : 0;
            if (v < t) {
                ed += (ed.empty() ? "[" : ",[") + std::to_string(v) + "," + std::to_string(t) + "," + std::to_string(unscale(G->getEdgeWeight(v, e), g.scale)) + "]";
                FlowType y = inGraph ? G->getEdgeFlow(t, G->getReverseEdge(v, e), pid) : 0;
                if (inGraph && x != -y) x = 2000000000;      // not antisymmetric
                fl += (fl.empty() ? "" : ",") + std::to_string(x == 2000000000 ? 2000000000 : x < 0 ? -unscale(-x, g.scale) : unscale(x, g.scale));
            }
        }
    std::string e = "\"f\":" + std::to_string(unscale((ull)f, g.scale)) + ",\"set\":" + jarr(set) + ",\"hasflow\":" + (inGraph ? "1" : "0") + ",\"fl\":[" + (inGraph ? fl : "") + "],\"ge\":[" + ed + "]";
    return e;
}

int main(int ac, char** av) {
    parseOpt(ac, av);
    std::vector<Gr> given;
    if (!opt.in.empty()) given = readGraphs(opt.in);
    bool gv = !given.empty();
    long total = gv ? (long)given.size() : std::max(opt.count, opt.only + 1);
    for (long it = std::max(0L, opt.only); it < total && !opt.timeUp(); ++it) {
        if (!opt.mine(it, gv)) continue;
        Rng r = rngFor(it, gv ? 9 : 0);
        Gr g;
        if (gv) g = given[it];
        else {
            int n = coin(r, 60) ? ri(r, 2, 9) : coin(r, 80) ? ri(r, 8, 25) : ri(r, 20, 60);
            ull wm[] = {1, 2, 3, 8, 40};
            g = genGraph(r, r() % NCAT, n, wm[r() % 5]);
            if (g.n < 2) continue;
            if (coin(r, 15)) scaleBy(g, (const ull[]){1000003, 1ull << 31, 1ull << 33}[r() % 3]);
        }
        // several problems on the same graph with the same objects
        std::vector<Q> qs;
        int k = ri(r, 1, 3);
        for (int i = 0; i < k; ++i) {
            Q q;
            std::vector<int> p(g.n);
            std::iota(p.begin(), p.end(), 0);
            std::shuffle(p.begin(), p.end(), r);
            int s = coin(r, 55) ? 2 : ri(r, 2, std::min(g.n, 5));
            for (int j = 0; j < s; ++j) q.src.push_back(p[j]);
            q.idx = r() % s; q.variant = 'N'; q.set = true; q.limit = 0;
            qs.push_back(q);
            q.variant = 'P'; qs.push_back(q);
            if (s == 2) {
                ull d = 0;
                for (auto& x : g.e) if ((NodeID)x.u == q.src[q.idx] || (NodeID)x.v == q.src[q.idx]) d += x.w / g.scale;
                q.variant = 'L'; q.set = coin(r, 50); q.limit = coin(r, 50) ? 1 + r() % (d + 3) : std::max<long>(1, (long)d - (long)(r() % 3));
                qs.push_back(q);
            }
        }
        bool reuse = coin(r, 40);
        int depth = coin(r, 50) ? 1 : ri(r, 0, 12);
        uint64_t seed = r();
        Gr other = genGraph(r, r() % NCAT, ri(r, 2, 14), 4);
        auto res = isolated((int)qs.size(), [&](int i) {
            static auto G = toMG(g);
            static push_relabel<false, false>* N = nullptr;
            static push_relabel<true, false>* L = nullptr;
            static push_relabel<false, true>* P = nullptr;
            random_functions::setSeed(seed + i);
            configuration::getConfig()->depthOfPartialRelabeling = depth;
            if (!N || !reuse) { N = new push_relabel<false, false>; L = new push_relabel<true, false>; P = new push_relabel<false, true>; }
            if (reuse && i == 1 && other.n >= 2) {       // the objects were used on another graph in between
                auto H = toMG(other);
                std::vector<NodeID> s{0, (NodeID)other.n - 1};
                N->solve_max_flow_min_cut(H, s, 0, true); P->solve_max_flow_min_cut(H, s, 1, true); L->solve_max_flow_min_cut(H, s, 0, true, 3, 17);
            }
            ull v = 0; unsigned side = 0, large = 0;
            std::string s = qs[i].variant == 'N' ? solve(*N, G, g, qs[i], &v, &side) : qs[i].variant == 'L' ? solve(*L, G, g, qs[i], &v, &side) : solve(*P, G, g, qs[i], &v, &side);
            bool sus = false;
            if (g.n <= 9) {
                ull b = brute(g, qs[i], &large);
                ull want = qs[i].limit && b >= (ull)qs[i].limit * g.scale ? qs[i].limit * g.scale : b;
                sus = want == b ? v != b : v < want || v > b;
                if (v == b && qs[i].set && !(qs[i].limit && b >= (ull)qs[i].limit * g.scale)) sus |= side != large;
            }
            return s + (sus ? ",\"sus\":1" : "");
        }, 20);
        std::string o;
        bool sus = false;
        for (size_t i = 0; i < qs.size(); ++i) {
            bool ok = res[i][0] != '!';
            if (!ok || res[i].find("\"sus\":1") != std::string::npos) sus = true;
            auto& q = qs[i];
            o += std::string(i ? "," : "") + "{\"c\":\"" + q.variant + (reuse ? "-reused" : "") + "/d" + std::to_string(depth) + "\",\"var\":\"" + q.variant + "\",\"q\":" + std::to_string(i) + ",\"src\":" + jarr(q.src) + ",\"idx\":" + std::to_string(q.idx) +
                 ",\"limit\":" + std::to_string(q.limit) + ",\"wantset\":" + (q.set ? "1" : "0") + ",\"st\":\"" + (ok ? "ok" : res[i].substr(1)) + "\"," +
                 (ok ? res[i] : "\"f\":0,\"set\":[],\"hasflow\":0,\"fl\":[],\"ge\":[]") + "}";
        }
        if (!keep(sus)) continue;
        fprintf(OUT, "{\"id\":\"%d-%ld\",\"n\":%d,\"sus\":%d,\"e\":%s,\"runs\":[%s]}\n", opt.shard, it, g.n, (int)sus, jedges(g).c_str(), o.c_str());
        fflush(OUT);
    }
    fclose(OUT);
    return 0;
}
