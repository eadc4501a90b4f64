// Structure of graphs.  --mode core: k-core decomposition and core graphs.
// --mode conn: strong components of residual graphs, components, largest
// component, articulation reduction, block extraction, breadth first search.
#include "common.h"
#include "algorithms/flow/push_relabel.h"
#include "algorithms/misc/core_decomposition.h"
#include "algorithms/misc/find_articulation_points.h"
#include "algorithms/misc/graph_algorithms.h"
#include "algorithms/misc/strongly_connected_components.h"
#include "tools/graph_extractor.h"

static std::string mode;
static std::string medges(const mutableGraphPtr& G, ull scale, std::string* fl = nullptr, size_t pid = 0) {
    std::string s, f;
    for (NodeID v : G->nodes()) for (EdgeID e : G->edges_of(v)) {
        NodeID t = G->getEdgeTarget(v, e);
        if (v < t) {
            s += (s.empty() ? "[" : ",[") + std::to_string(v) + "," + std::to_string(t) + "," + std::to_string(unscale(G->getEdgeWeight(v, e), scale)) + "]";
            if (fl) { FlowType x = G->getEdgeFlow(v, e, pid); f += (f.empty() ? "" : ",") + std::to_string(x < 0 ? -unscale(-x, scale) : unscale(x, scale)); }
        }
    }
    if (fl) *fl = "[" + f + "]";
    return "[" + s + "]";
}
// every arc of a graph_access, both directions
static std::string aedges(const graphAccessPtr& G, ull scale) {
    std::string s;
    for (NodeID v : G->nodes()) for (EdgeID e : G->edges_of(v))
        s += (s.empty() ? "[" : ",[") + std::to_string(v) + "," + std::to_string(G->getEdgeTarget(e)) + "," + std::to_string(unscale(G->getEdgeWeight(e), scale)) + "]";
    return "[" + s + "]";
}
// ------------------------------------------------------------ triage
static std::vector<std::set<int>> adjOf(const Gr& g) {
    std::vector<std::set<int>> a(g.n);
    for (auto& x : g.e) a[x.u].insert(x.v), a[x.v].insert(x.u);
    return a;
}
static std::vector<char> peel(const Gr& g, int k) {
    auto a = adjOf(g);
    std::vector<char> in(g.n, 1);
    for (bool ch = true; ch;) {
        ch = false;
        for (int v = 0; v < g.n; ++v) if (in[v]) { int d = 0; for (int u : a[v]) d += in[u]; if (d < k) in[v] = 0, ch = true; }
    }
    return in;
}
static std::vector<int> compsOf(const Gr& g, const std::vector<char>& in, int removed = -1) {
    auto a = adjOf(g);
    std::vector<int> c(g.n, -1);
    int k = 0;
    for (int v = 0; v < g.n; ++v) if (in[v] && v != removed && c[v] < 0) {
        std::vector<int> st{v}; c[v] = k;
        while (st.size()) { int x = st.back(); st.pop_back(); for (int u : a[x]) if (in[u] && u != removed && c[u] < 0) c[u] = k, st.push_back(u); }
        ++k;
    }
    return c;
}
static std::string coreRecord(const Gr& g) {
    auto G = toGA(g);
    auto kc = core_decomposition::batagelj_zaversnik(G);
    bool sus = false;
    int mx = g.n ? (int)kc.degrees[kc.vertices[g.n - 1]] : 0;
    std::string s = "\"deg\":" + jarr(kc.degrees) + ",\"vert\":" + jarr(kc.vertices) + ",\"pos\":" + jarr(kc.position) + ",\"bin\":" + jarr(kc.buckets) + ",\"cores\":[";
    for (int k = 0; k <= mx; ++k) {
        auto C = core_decomposition::createCoreGraph(kc, k, G);
        s += std::string(k ? "," : "") + "{\"k\":" + std::to_string(k) + ",\"n\":" + std::to_string(C->number_of_nodes()) + ",\"arcs\":" + aedges(C, g.scale) + "}";
        auto in = peel(g, k);
        auto c = compsOf(g, in);
        std::vector<int> sz(g.n + 1);
        for (int v = 0; v < g.n; ++v) if (c[v] >= 0) ++sz[c[v]];
        if ((int)C->number_of_nodes() != *std::max_element(sz.begin(), sz.end())) sus = true;
        for (int v = 0; v < g.n; ++v) if (in[v] != (kc.degrees[v] >= (NodeID)k)) sus = true;
        bool some = false;
        for (int x = 0; x < g.n && !some; ++x) if (sz[x] == (int)C->number_of_nodes()) {
            std::vector<int> id(g.n, -1);
            int q = 0;
            for (int v = 0; v < g.n; ++v) if (c[v] == x) id[v] = q++;
            std::multiset<std::tuple<int, int, ull>> A, B;
            for (auto& w : g.e) if (id[w.u] >= 0 && id[w.v] >= 0) A.insert({id[w.u], id[w.v], w.w}), A.insert({id[w.v], id[w.u], w.w});
            for (NodeID v : C->nodes()) for (EdgeID e : C->edges_of(v)) B.insert({(int)v, (int)C->getEdgeTarget(e), C->getEdgeWeight(e)});
            some = A == B;
        }
        if (!some) sus = true;
    }
    for (size_t d = 0; d < kc.buckets.size(); ++d) {
        size_t c = 0;
        for (NodeID x : kc.degrees) c += x < d;
        if (c != kc.buckets[d]) sus = true;
    }
    return s + "]" + (sus ? ",\"sus\":1" : ",\"sus\":0");
}
static std::vector<int> strong(const mutableGraphPtr& G, size_t pid) {
    int n = G->n();
    std::vector<std::vector<char>> R(n, std::vector<char>(n));
    for (int v = 0; v < n; ++v) {
        std::vector<int> st{v}; R[v][v] = 1;
        while (st.size()) { int x = st.back(); st.pop_back(); for (EdgeID e : G->edges_of(x)) if (G->getEdgeFlow(x, e, pid) != (FlowType)G->getEdgeWeight(x, e)) { int t = G->getEdgeTarget(x, e); if (!R[v][t]) R[v][t] = 1, st.push_back(t); } }
    }
    std::vector<int> c(n, -1);
    for (int v = 0; v < n; ++v) for (int u = 0; u <= v; ++u) if (R[v][u] && R[u][v]) { c[v] = u; break; }
    return c;
}
static bool samePart(const std::vector<int>& a, const std::vector<int>& b) {
    std::map<int, int> x, y;
    for (size_t i = 0; i < a.size(); ++i) { if (!x.emplace(a[i], b[i]).second && x[a[i]] != b[i]) return false; if (!y.emplace(b[i], a[i]).second && y[b[i]] != a[i]) return false; }
    return a.size() == b.size();
}
static std::string connRecord(const Gr& g, Rng r) {
    bool sus = false;
    random_functions::setSeed(r());
    auto A = toGA(g);
    strongly_connected_components sc;
    std::vector<int> cn(g.n);
    int reuse = coin(r, 30);
    if (reuse && coin(r, 50)) { std::vector<int> d(g.n); sc.strong_components(A, &d); }
    size_t cc = sc.strong_components(A, &cn);
    auto full = compsOf(g, std::vector<char>(g.n, 1));
    if (!samePart(cn, full)) sus = true;
    std::string s = "\"cn\":" + jarr(cn) + ",\"cc\":" + std::to_string(cc);
    auto L = sc.largest_scc(A);
    s += ",\"ln\":" + std::to_string(L->number_of_nodes()) + ",\"larcs\":" + aedges(L, g.scale);
    // blocks of a graph_access
    std::vector<int> lab(g.n);
    int nb = ri(r, 1, 3), want = r() % nb;
    for (int& x : lab) x = r() % nb;
    for (int v = 0; v < g.n; ++v) A->setPartitionIndex(v, lab[v]);
    graph_extractor ge;
    auto [X, rev] = ge.extract_block(A, want);
    s += ",\"lab\":" + jarr(lab) + ",\"want\":" + std::to_string(want) + ",\"xn\":" + std::to_string(X->number_of_nodes()) + ",\"xarcs\":" + aedges(X, g.scale);
    std::vector<int> rv; for (auto x : rev) rv.push_back(x < X->number_of_nodes() ? (int)x : -1);
    s += ",\"xrev\":" + jarr(rv);
    auto M = toMG(g);
    auto [Y, map, mrev] = ge.extract_block(M, want, lab);
    rv.clear(); for (auto x : mrev) rv.push_back(x < Y->n() ? (int)x : -1);
    s += ",\"yn\":" + std::to_string(Y->n()) + ",\"ye\":" + medges(Y, g.scale) + ",\"ymap\":" + jarr(map) + ",\"yrev\":" + jarr(rv);
    // residual graphs
    s += ",\"res\":[";
    strongly_connected_components sm;
    int k = ri(r, 1, 3);
    for (int i = 0; i < k; ++i) {
        size_t pid = UNDEFINED_NODE;
        if (g.n >= 2 && coin(r, 85)) {
            pid = 1 + r() % 1000;
            std::vector<NodeID> st{(NodeID)(r() % g.n), 0};
            do st[1] = r() % g.n; while (st[1] == st[0]);
            if (coin(r, 50)) { push_relabel<false, false> p; p.solve_max_flow_min_cut(M, st, 0, false, 0, pid); }
            else { push_relabel<true, false> p; p.solve_max_flow_min_cut(M, st, 0, false, 0, pid); }
        }
        if (pid == UNDEFINED_NODE && i) pid = 5000;
        if (pid == UNDEFINED_NODE) M = toMG(g);
        strongly_connected_components fresh;
        auto [comp, num, sizes] = (reuse ? sm : fresh).strong_components(M, pid);
        std::string fl, ed = medges(M, g.scale, &fl, pid == UNDEFINED_NODE ? 0 : pid);
        s += std::string(i ? "," : "") + "{\"e\":" + ed + ",\"fl\":" + fl + ",\"comp\":" + jarr(comp) + ",\"num\":" + std::to_string(num) + ",\"sizes\":" + jarr(sizes) + "}";
        if (!samePart(std::vector<int>(comp.begin(), comp.end()), strong(M, pid == UNDEFINED_NODE ? 0 : pid)) || sizes.size() != num) sus = true;
        else for (size_t c = 0; c < num; ++c) if ((long)sizes[c] != std::count(comp.begin(), comp.end(), (int)c)) sus = true;
    }
    s += "]";
    // articulation points
    M = toMG(g);
    std::vector<int> p(g.n);
    std::iota(p.begin(), p.end(), 0);
    std::shuffle(p.begin(), p.end(), r);
    std::vector<int> T(p.begin(), p.begin() + std::min(g.n, ri(r, 1, 4)));
    std::vector<terminal> terms;
    for (size_t i = 0; i < T.size(); ++i) terms.push_back(terminal(T[i], i));
    find_articulation_points ap(M);
    bool any = ap.findAllArticulationPoints();
    auto uf = ap.terminalsOnBothSides(terms);
    std::vector<int> blk;
    if (uf.has_value()) for (int v = 0; v < g.n; ++v) blk.push_back(uf->Find(v));
    s += ",\"T\":" + jarr(T) + ",\"ap\":" + std::to_string((int)any) + ",\"apb\":" + jarr(blk);
    bool cut = false, nonfirst = false;
    for (int v = 0; v < g.n; ++v) {
        auto c = compsOf(g, std::vector<char>(g.n, 1), v);
        std::set<int> nb;
        for (auto& x : g.e) if (x.u == v) nb.insert(c[x.v]); else if (x.v == v) nb.insert(c[x.u]);
        if (nb.size() > 1) { cut = true; bool first = true; for (int u = 0; u < v; ++u) if (full[u] == full[v]) first = false; if (!first) nonfirst = true; }
    }
    if (any ? !cut : nonfirst) sus = true;
    if (blk.size()) {
        std::map<int, std::vector<int>> B;
        for (int v = 0; v < g.n; ++v) B[blk[v]].push_back(v);
        for (auto& [x, m] : B) if (m.size() > 1) {
            std::vector<char> ok(g.n);
            int nt = 0;
            for (int t : T) nt += blk[t] == x;
            if (nt > 1) sus = true;
            for (int a : m) {
                auto c = compsOf(g, std::vector<char>(g.n, 1), a);
                std::set<int> tc;
                for (int t : T) if (t != a) tc.insert(c[t]);
                for (int y : m) if (y == a || !tc.count(c[y])) ok[y] = 1;
            }
            // the vertex the others hang on is allowed to be anything
            for (int y : m) if (!ok[y]) sus = true;
        }
    }
    // breadth first search
    int st = r() % g.n;
    auto [par, dist, last] = graph_algorithms::bfsDistances(toMG(g), st);
    std::vector<int> pa; for (auto x : par) pa.push_back(x == UNDEFINED_NODE ? -1 : (int)x);
    s += ",\"bs\":" + std::to_string(st) + ",\"bpar\":" + jarr(pa) + ",\"bdist\":" + jarr(dist) + ",\"blast\":" + std::to_string(last);
    auto a = adjOf(g);
    std::vector<int> d(g.n, -1), q{st};
    d[st] = 0;
    for (size_t i = 0; i < q.size(); ++i) for (int u : a[q[i]]) if (d[u] < 0) d[u] = d[q[i]] + 1, q.push_back(u);
    for (int v = 0; v < g.n; ++v) if ((d[v] > 0) != (pa[v] >= 0) || (d[v] > 0 && ((int)dist[v] != d[v] || !a[v].count(pa[v]) || d[pa[v]] != d[v] - 1))) sus = true;
    if (d[last] != *std::max_element(d.begin(), d.end())) sus = true;
    return s + (sus ? ",\"sus\":1" : ",\"sus\":0");
}

int main(int ac, char** av) {
    parseOpt(ac, av);
    mode = opt.mode.empty() ? "conn" : opt.mode;
    std::vector<Gr> given;
    if (!opt.in.empty()) given = readGraphs(opt.in);
    bool gv = !given.empty();
    long total = gv ? (long)given.size() : std::max(opt.count, opt.only + 1);
    long it = std::max(0L, opt.only);
    while (it < total && !opt.timeUp()) {
        std::vector<long> ids;
        std::vector<Gr> gs;
        std::vector<uint32_t> seeds;
        for (; it < total && ids.size() < 32; ++it) if (opt.mine(it, gv)) {
            Rng r = rngFor(it, gv ? 9 : 0);
            Gr g;
            if (gv) g = given[it];
            else {
                int n = coin(r, 60) ? ri(r, 2, 9) : coin(r, 80) ? ri(r, 8, 25) : ri(r, 20, 60);
                ull wm[] = {1, 1, 2, 3, 8, 40};
                g = genGraph(r, r() % NCAT, n, wm[r() % 6]);
                if (g.n < 1) continue;
                // something hanging off, more components, isolated vertices
                if (coin(r, 40)) {
                    int h = ri(r, 1, 3);
                    for (int i = 0; i < h; ++i) {
                        int b = g.n, sz = ri(r, 1, 4);
                        g.n += sz;
                        if (coin(r, 75)) g.e.push_back({(int)(r() % b), b, g.scale * (1 + r() % 3)});
                        for (int j = 1; j < sz; ++j) g.e.push_back({b + (int)(r() % j), b + j, g.scale * (1 + r() % 3)});
                        if (sz > 2 && coin(r, 60)) { bool dup = false; for (auto& x : g.e) if ((x.u == b && x.v == b + sz - 1) || (x.v == b && x.u == b + sz - 1)) dup = true; if (!dup) g.e.push_back({b, b + sz - 1, g.scale}); }
                    }
                    std::vector<int> p(g.n);
                    std::iota(p.begin(), p.end(), 0);
                    std::shuffle(p.begin(), p.end(), r);
                    for (auto& x : g.e) x.u = p[x.u], x.v = p[x.v];
                }
                if (coin(r, 10)) scaleBy(g, (const ull[]){1000003, 1ull << 31, 1ull << 33}[r() % 3]);
            }
            ids.push_back(it); gs.push_back(g); seeds.push_back(r());
        }
        if (ids.empty()) break;
        auto res = isolated(ids.size(), [&](int i) { return mode == "core" ? coreRecord(gs[i]) : connRecord(gs[i], Rng(seeds[i])); }, 20);
        for (size_t i = 0; i < ids.size(); ++i) {
            bool ok = res[i][0] != '!';
            if (!keep(!ok || res[i].find("\"sus\":0") == std::string::npos)) continue;
            fprintf(OUT, "{\"id\":\"%d-%ld\",\"n\":%d,\"st\":\"%s\",\"e\":%s,%s}\n", opt.shard, ids[i], gs[i].n, ok ? "ok" : res[i].c_str() + 1, jedges(gs[i]).c_str(), ok ? res[i].c_str() : "\"sus\":1");
        }
        fflush(OUT);
    }
    fclose(OUT);
    return 0;
}
