// Graph and vector files: what the readers make of a file, what the writers
// write, and round trips.  A file is recorded as its lines of numbers.
#include "common.h"
#include "io/graph_io.h"
#include "algorithms/multicut/multicut_problem.h"
#include <unistd.h>

static std::string tmpdir;
typedef std::vector<long long> Row;      // -1 alone: a comment line
static std::string jrows(const std::vector<Row>& v) {
    std::string s = "[";
    for (auto& r : v) s += (s.size() > 1 ? "," : "") + jarr(r);
    return s + "]";
}
static std::string blanks(Rng& r, bool wild) { if (!wild) return " "; std::string s; int k = coin(r, 70) ? 1 : ri(r, 2, 3); while (k--) s += coin(r, 80) ? ' ' : '\t'; return s; }
static std::string arcs(const graphAccessPtr& G, ull sc) {
    std::string s;
    for (NodeID v : G->nodes()) for (EdgeID e : G->edges_of(v)) s += (s.empty() ? "[" : ",[") + std::to_string(v) + "," + std::to_string(G->getEdgeTarget(e)) + "," + std::to_string(unscale(G->getEdgeWeight(e), sc)) + "]";
    return "{\"n\":" + std::to_string(G->number_of_nodes()) + ",\"arcs\":[" + s + "]}";
}
static std::string arcs(const mutableGraphPtr& G, ull sc) {
    std::string s;
    for (NodeID v : G->nodes()) for (EdgeID e : G->edges_of(v)) s += (s.empty() ? "[" : ",[") + std::to_string(v) + "," + std::to_string(G->getEdgeTarget(v, e)) + "," + std::to_string(unscale(G->getEdgeWeight(v, e), sc)) + "]";
    return "{\"n\":" + std::to_string(G->n()) + ",\"arcs\":[" + s + "]}";
}
typedef std::multiset<std::tuple<int, int, ull>> Arcs;
static Arcs setOf(const Gr& g, bool weights) {
    Arcs a;
    for (auto& x : g.e) { ull w = weights ? x.w : 1; a.insert({x.u, x.v, w}); a.insert({x.v, x.u, w}); }
    return a;
}
static Arcs setOf(const graphAccessPtr& G) { Arcs a; for (NodeID v : G->nodes()) for (EdgeID e : G->edges_of(v)) a.insert({(int)v, (int)G->getEdgeTarget(e), G->getEdgeWeight(e)}); return a; }
static Arcs setOf(const mutableGraphPtr& G) { Arcs a; for (NodeID v : G->nodes()) for (EdgeID e : G->edges_of(v)) a.insert({(int)v, (int)G->getEdgeTarget(v, e), G->getEdgeWeight(v, e)}); return a; }

// lines of numbers of a file the library wrote
static std::vector<Row> rowsOf(const std::string& file, ull sc, bool weighted) {
    std::ifstream in(file);
    std::string l;
    std::vector<Row> out;
    while (std::getline(in, l)) {
        Row r;
        std::istringstream ss(l);
        ull x;
        while (ss >> x) { bool w = weighted && !out.empty() && r.size() % 2 == 1; r.push_back(w ? unscale(x, sc) : (long long)x); }
        if (!ss.eof()) r.push_back(-7);      // not a number
        out.push_back(r);
    }
    return out;
}
static std::string record(const Gr& g, Rng r) {
    bool sus = false;
    std::string f = tmpdir + "/io" + std::to_string(getpid());
    // ---- a METIS file
    int fmts[] = {-1, 0, 1, 1, 1, 10, 11};
    int fmt = fmts[r() % 7];
    bool ew = fmt == 1 || fmt == 11, vw = fmt >= 10, wild = coin(r, 50), loops = coin(r, 25), comm = coin(r, 40);
    const char* nl = wild && coin(r, 25) ? "\r\n" : "\n";
    std::vector<std::vector<std::pair<int, ull>>> a(g.n);
    for (auto& x : g.e) a[x.u].push_back({x.v, x.w}), a[x.v].push_back({x.u, x.w});
    std::vector<Row> rows;
    std::string text;
    auto comment = [&] { if (comm && coin(r, 25)) { rows.push_back({-1}); text += std::string("%") + (coin(r, 50) ? " 3 4 5" : "") + nl; } };
    comment(); comment();
    Row h{g.n, (long long)g.e.size()};
    if (fmt >= 0) h.push_back(fmt);
    rows.push_back(h);
    for (size_t i = 0; i < h.size(); ++i) text += (i ? " " : "") + (i == 2 && fmt == 1 && coin(r, 30) ? std::string("001") : std::to_string(h[i]));
    text += nl;
    for (int v = 0; v < g.n; ++v) {
        comment();
        std::shuffle(a[v].begin(), a[v].end(), r);
        auto nb = a[v];
        if (loops && coin(r, 30)) nb.insert(nb.begin() + r() % (nb.size() + 1), {v, g.scale * (1 + r() % (g.n + 1))});
        Row row;
        std::string l = wild && coin(r, 30) ? blanks(r, true) : "";
        auto put = [&](ull shown, long long rec) { if (row.size()) l += blanks(r, wild); l += std::to_string(shown); row.push_back(rec); };
        if (vw) { ull w = 1 + r() % (g.n + 1); put(w, w); }
        for (auto& [u, w] : nb) { put(u + 1, u + 1); if (ew) put(w, unscale(w, g.scale)); }
        bool last = v == g.n - 1;
        if ((wild && coin(r, 40)) || (!wild && coin(r, 50))) l += " ";
        if (last && wild && row.size() && coin(r, 40)) { text += l; rows.push_back(row); break; }
        text += l + nl;
        rows.push_back(row);
    }
    { std::ofstream o(f); o << text; }
    auto A = graph_io::readGraphWeighted<graph_access>(f);
    auto M = graph_io::readGraphWeighted<mutable_graph>(f);
    std::string s = "\"fmt\":" + std::to_string(fmt) + ",\"sc\":" + (g.scale == 1 ? "1" : "0") + ",\"rows\":" + jrows(rows) + ",\"ga\":" + arcs(A, ew ? g.scale : 1) + ",\"mg\":" + arcs(M, ew ? g.scale : 1);
    if (setOf(A) != setOf(g, ew) || setOf(M) != setOf(g, ew) || (int)A->number_of_nodes() != g.n || (int)M->n() != g.n) sus = true;
    // ---- writers
    s += ",\"w\":[";
    for (int k = 0; k < 3; ++k) {
        if (k == 0) graph_io::writeGraphWeighted(toGA(g), f);
        if (k == 1) graph_io::writeGraphWeighted(toMG(g), f);
        if (k == 2) graph_io::writeGraph(toGA(g), f);
        ull sc = k < 2 ? g.scale : 1;
        auto B = graph_io::readGraphWeighted<graph_access>(f);
        s += std::string(k ? "," : "") + "{\"weighted\":" + (k < 2 ? "1" : "0") + ",\"rows\":" + jrows(rowsOf(f, sc, k < 2)) + ",\"ga\":" + arcs(B, sc) + "}";
        if (setOf(B) != setOf(g, k < 2) || (int)B->number_of_nodes() != g.n) sus = true;
    }
    s += "]";
    // ---- cut
    std::vector<int> cut;
    for (int v = 0; v < g.n; ++v) cut.push_back(r() % 2);
    if (coin(r, 50)) { auto C = toGA(g); for (int v = 0; v < g.n; ++v) C->setNodeInCut(v, cut[v]); graph_io::writeCut(C, f); }
    else { auto C = toMG(g); for (int v = 0; v < g.n; ++v) C->setNodeInCut(v, cut[v]); graph_io::writeCut(C, f); }
    auto cr = rowsOf(f, 1, false);
    auto cv = graph_io::readVector<int>(f);
    s += ",\"cut\":" + jarr(cut) + ",\"cutrows\":" + jrows(cr) + ",\"cutvec\":" + jarr(cv);
    if (cv != cut) sus = true;
    // ---- vectors
    std::vector<long long> vec;
    int len = ri(r, 0, 12);
    for (int i = 0; i < len; ++i) vec.push_back(r() % (coin(r, 50) ? 10 : 2000000000));
    rows.clear(); text.clear();
    for (int i = 0; i < len; ++i) {
        while (comm && coin(r, 25)) { text += "% 17\n"; rows.push_back({-1}); }
        text += std::to_string(vec[i]) + (i == len - 1 && coin(r, 40) ? "" : nl); rows.push_back({vec[i]});
    }
    { std::ofstream o(f); o << text; }
    auto v1 = graph_io::readVector<NodeID>(f);
    graph_io gio;
    gio.writeVector(vec, f);
    auto v2 = graph_io::readVector<NodeID>(f);
    s += ",\"vec\":" + jarr(vec) + ",\"vrows\":" + jrows(rows) + ",\"v1\":" + jarr(v1) + ",\"v2\":" + jarr(v2);
    if (std::vector<long long>(v1.begin(), v1.end()) != vec || std::vector<long long>(v2.begin(), v2.end()) != vec) sus = true;
    // ---- temporal graph
    text.clear(); rows.clear();
    std::vector<std::vector<long long>> want;
    int style = r() % 3, te = ri(r, 0, 40), span = coin(r, 50) ? ri(r, 1, 4) : 1000000, N = ri(r, 2, 12);
    for (int i = 0; i < te; ++i) {
        comment();
        long long u = 1 + r() % N, v = 1 + r() % N, w = style == 0 ? 1 : 1 + r() % 9, t = r() % span + (span > 10 ? 1400000000 % span : 0);
        if (style == 2 && coin(r, 40)) w = -w;
        if (wild && coin(r, 20)) text += " ";
        auto sep = [&] { return blanks(r, wild); };
        text += std::to_string(u); text += sep(); text += std::to_string(v); text += sep();
        if (style == 1) text += std::to_string(w) + sep();
        if (style == 2) text += (w < 0 ? "" : "+") + std::to_string(w) + sep();
        text += std::to_string(t);
        if (wild && coin(r, 20)) text += " ";
        text += i == te - 1 && coin(r, 30) ? "" : nl;
        want.push_back({u - 1, v - 1, w, t});
    }
    { std::ofstream o(f); o << text; }
    auto [nv, te2] = graph_io::readTemporalGraph(f);
    std::vector<std::vector<long long>> got;
    for (auto& [x, y, w, t] : te2) got.push_back({x, y, w, (long long)t});
    s += ",\"tw\":" + jrows(want) + ",\"tg\":" + jrows(got) + ",\"tn\":" + std::to_string(nv);
    auto q = want;
    std::stable_sort(q.begin(), q.end(), [](auto& x, auto& y) { return x[3] < y[3]; });
    long long mx = 0;
    for (auto& x : want) mx = std::max({mx, x[0] + 1, x[1] + 1});
    if (q != got || mx != (long long)nv) sus = true;
    ::unlink(f.c_str());
    return s + (sus ? ",\"sus\":1" : ",\"sus\":0");
}
int main(int ac, char** av) {
    parseOpt(ac, av);
    tmpdir = opt.kv.count("--tmp") ? opt.kv["--tmp"] : ".";
    std::vector<Gr> given;
    if (!opt.in.empty()) given = readGraphs(opt.in);
    bool gv = !given.empty();
    long total = gv ? (long)given.size() : std::max(opt.count, opt.only + 1);
    long it = std::max(0L, opt.only);
    while (it < total && !opt.timeUp()) {
        std::vector<long> ids;
        std::vector<Gr> gs;
        std::vector<uint32_t> seeds;
        for (; it < total && ids.size() < 32; ++it) if (opt.mine(it, gv)) {
            Rng r = rngFor(it, gv ? 9 : 0);
            Gr g;
            if (gv) g = given[it];
            else {
                int n = coin(r, 70) ? ri(r, 2, 9) : coin(r, 80) ? ri(r, 8, 25) : ri(r, 20, 120);
                ull wm[] = {1, 2, 12, 400};
                g = genGraph(r, r() % NCAT, n, wm[r() % 4]);
                if (g.n < 1) continue;
                if (coin(r, 20)) g.n += ri(r, 1, 3);
                if (coin(r, 15)) scaleBy(g, (const ull[]){1000003, 1ull << 31, 1ull << 40}[r() % 3]);
            }
            ids.push_back(it); gs.push_back(g); seeds.push_back(r());
        }
        if (ids.empty()) break;
        auto res = isolated(ids.size(), [&](int i) { return record(gs[i], Rng(seeds[i])); }, 20);
        for (size_t i = 0; i < ids.size(); ++i) {
            bool ok = res[i][0] != '!';
            if (!keep(!ok || res[i].find("\"sus\":0") == std::string::npos)) continue;
            fprintf(OUT, "{\"id\":\"%d-%ld\",\"n\":%d,\"st\":\"%s\",\"e\":%s,%s}\n", opt.shard, ids[i], gs[i].n, ok ? "ok" : res[i].c_str() + 1, jedges(gs[i]).c_str(), ok ? res[i].c_str() : "\"sus\":1");
        }
        fflush(OUT);
    }
    fclose(OUT);
    return 0;
}
