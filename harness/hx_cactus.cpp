// All minimum cuts (cactus), most balanced and lowest conductance cut.
#include "algorithms/global_mincut/algorithms.h"
#include "common.h"
#ifdef PARALLEL
template <class G> using CM = parallel_cactus<G>;
#else
template <class G> using CM = cactus_mincut<G>;
#endif

struct Cfg { std::string es; char gt; int bal; bool save, known, file; int th; uint64_t seed;
    std::string name() const {
#ifdef PARALLEL
        std::string s = "par";
#else
        std::string s = "seq";
#endif
        return s + "-" + (es.empty() ? "default" : es) + "/" + gt + (bal == 1 ? "/balanced" : bal == 2 ? "/conductance" : "") +
               (save ? "/save" : "") + (known ? "/known" : "") + (file ? "/file" : "") + "/t" + std::to_string(th) + "/s" + std::to_string(seed);
    } };

static struct { int hn; std::vector<WEdge> he; std::vector<int> pos; } last;   // for the triage
static std::string cactusJson(mutableGraphPtr H, int n) {
    std::string e, c, p;
    for (NodeID a : H->nodes()) {
        for (auto x : H->edges_of(a)) {
            NodeID t = H->getEdgeTarget(a, x);
            if (a < t) last.he.push_back({(int)a, (int)t, H->getEdgeWeight(a, x)});
            if (a < t) e += (e.empty() ? "[" : ",[") + std::to_string(a) + "," + std::to_string(t) + "," + std::to_string(H->getEdgeWeight(a, x)) + "]";
        }
        c += (a ? "," : "") + jarr(H->containedVertices(a));
    }
    std::vector<int> pos;
    for (int v = 0; v < n; ++v) pos.push_back(H->getCurrentPosition(v));
    last.hn = H->n(); last.pos = pos;
    return "\"hn\":" + std::to_string(H->n()) + ",\"he\":[" + e + "],\"cont\":[" + c + "],\"pos\":" + jarr(pos);
}
// reads the cactus back from the GraphML file a user gets
static std::string fileJson(const std::string& fn, int n) {
    std::ifstream in(fn);
    std::string l, e, c;
    int hn = 0, a = 0, b = 0;
    std::vector<int> pos(n, -1);
    auto val = [&](const std::string& s, const std::string& k) { auto p = s.find(k + "=\""); return p == std::string::npos ? -1 : atoi(s.c_str() + p + k.size() + 2); };
    int cur = -1;
    while (std::getline(in, l)) {
        if (l.find("<node ") != std::string::npos) { cur = val(l, "id"); if (cur != hn) return ""; hn++; }
        else if (l.find("key=\"containedVertices\">") != std::string::npos) {
            auto p = l.find("\">") + 2, q = l.find("</data>");
            std::string s = l.substr(p, q - p);
            c += (hn > 1 ? ",[" : "[") + s + "]";
            std::stringstream ss(s); std::string t;
            while (std::getline(ss, t, ',')) if (!t.empty() && atoi(t.c_str()) < n) pos[atoi(t.c_str())] = cur;
        } else if (l.find("<edge ") != std::string::npos) { a = val(l, "source"); b = val(l, "target"); }
        else if (l.find("key=\"weight\">") != std::string::npos) {
            long w = atol(l.c_str() + l.find("\">") + 2);
            e += (e.empty() ? "[" : ",[") + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(w) + "]";
            last.he.push_back({a, b, (ull)w});
        }
    }
    last.hn = hn; last.pos = pos;
    return "\"hn\":" + std::to_string(hn) + ",\"he\":[" + e + "],\"cont\":[" + c + "],\"pos\":" + jarr(pos);
}

// native triage only: TLC decides
static bool suspicious(const Gr& g, const Cfg& c, ull lam, const Cuts& cuts, ull v, const std::vector<int>& side) {
    if (v != lam) return true;
    if (lam == 0) return false;
    if (c.save && last.hn) {
        Gr H; H.n = last.hn;
        H.e = last.he;
        Cuts back;
        for (auto& x : H.e) if (x.u < 0 || x.v < 0 || x.u >= H.n || x.v >= H.n) return true;
        if (cutsOf(H, lam, last.pos, back))
            if (back != cuts) return true;
    }
    if (c.bal) {
        std::vector<ull> deg(g.n, 0);
        for (auto& x : g.e) deg[x.u] += x.w, deg[x.v] += x.w;
        auto val = [&](const std::vector<char>& s) { ull a = 0, b = 0; for (int u = 0; u < g.n; ++u) (s[u] ? a : b) += c.bal == 1 ? 1 : deg[u]; return std::min(a, b); };
        std::vector<char> s(g.n);
        for (int u : side) s[u] = 1;
        if (s[0]) for (auto& b : s) b = !b;
        if (!cuts.count(s)) return true;
        for (auto& t : cuts) if (val(t) > val(s)) return true;
    }
    return false;
}

template <class GP> static std::string run(const Gr& g, GP G, const Cfg& c, ull lam, const Cuts& cuts) {
    last.hn = 0; last.he.clear(); last.pos.clear();
    auto cfg = configuration::getConfig();
    cfg->save_cut = c.save; cfg->edge_selection = c.es; cfg->seed = c.seed; cfg->find_most_balanced_cut = c.bal > 0;
    cfg->find_lowest_conductance = c.bal == 2; cfg->set_node_in_cut = c.bal > 0; cfg->threads = c.th; cfg->pq = "default";
    cfg->disable_limiting = false; cfg->verbose = false; cfg->output_path = "";
    char tmp[64]; snprintf(tmp, sizeof tmp, "cactus-%d.graphml", (int)getpid());
    std::string dir = opt.kv.count("--tmp") ? opt.kv["--tmp"] + "/" : std::string("/tmp/");
    cfg->cactus_filename = c.file ? dir + tmp : "";
    omp_set_num_threads(c.th);
    random_functions::setSeed(c.seed);
    auto* mc = new CM<GP>();
    auto [v, H, mb] = c.known ? mc->findAllMincuts(G, lam) : mc->findAllMincuts(G);
    std::string o = "\"v\":" + std::to_string(unscale(v, 1)) + ",";
    std::vector<int> side;
    if (c.bal) for (int i = 0; i < g.n; ++i) if (G->getNodeInCut(i)) side.push_back(i);
    o += "\"side\":" + jarr(side) + ",\"mb\":[";
    bool f = true;
    for (auto [u, e] : mb) {
        int t;
        if constexpr (std::is_same<GP, mutableGraphPtr>::value) t = G->getEdgeTarget(u, e); else t = G->getEdgeTarget(e);
        o += (f ? "[" : ",[") + std::to_string(u) + "," + std::to_string(t) + "]"; f = false;
    }
    o += "],";
    std::string cj;
    if (c.file) { cj = fileJson(cfg->cactus_filename, g.n); unlink(cfg->cactus_filename.c_str()); }
    else if (H) cj = cactusJson(H, g.n);
    if (cj.empty()) cj = "\"hn\":0,\"he\":[],\"cont\":[],\"pos\":[]";
    if (suspicious(g, c, lam, cuts, v, side)) o = "\"sus\":1," + o;
    return o + cj;
}

static void one(Rng& r, Gr& g, const std::string& mode, long it) {
    ull lam = swNative(g);
    std::vector<int> lab; int k;
    Cuts cuts;
    if (!kernel(g, lam, lab, k, nullptr) || k > 12) return;
    if (lam) kernel(g, lam, lab, k, &cuts);
    std::vector<Cfg> cs;
    const char* es[] = {"", "heavy", "heavy_weighted", "central", "random", "heavy_vertex"};
    bool bal = mode == "balanced";
    if (bal && lam == 0) return;
    for (int i = 0; i < 6; ++i) {
        if (!opt.thorough() && i && coin(r, 40)) continue;
        Cfg c; c.es = es[i]; c.gt = "AM"[r() & 1]; c.bal = bal ? 1 + (int)(r() & 1) : 0; c.file = !bal && coin(r, 20); c.save = bal || c.file || coin(r, 50);
        c.known = coin(r, 20);
#ifdef PARALLEL
        c.th = ri(r, 1, 4);
        c.file = false;
#else
        c.th = 1;
#endif
        c.seed = r() % 100000;
        cs.push_back(c);
        if (bal || coin(r, 50)) { c.gt = c.gt == 'A' ? 'M' : 'A'; if (bal) c.bal = 3 - c.bal; cs.push_back(c); }
    }
    auto res = isolated((int)cs.size(), [&](int i) {
        return cs[i].gt == 'A' ? run(g, toGA(g), cs[i], lam, cuts) : run(g, toMG(g), cs[i], lam, cuts);
    }, 30);
    std::string runs;
    bool sus = false;
    for (size_t i = 0; i < cs.size(); ++i) {
        std::string body = res[i], st = "ok";
        if (body[0] == '!' || body.find("\"sus\":1") != std::string::npos) sus = true;
        if (body[0] == '!') { st = body.substr(1); body = "\"v\":-9,\"side\":[],\"mb\":[],\"hn\":0,\"he\":[],\"cont\":[],\"pos\":[]"; }
        runs += std::string(i ? "," : "") + "{\"c\":" + jstr(cs[i].name()) + ",\"bal\":" + std::to_string(cs[i].bal) + ",\"sv\":" + (cs[i].save ? "1" : "0") + ",\"st\":" + jstr(st) + "," + body + "}";
    }
    if (!keep(sus)) return;
    fprintf(OUT, "{\"id\":\"%d-%ld\",\"cat\":%s,\"n\":%d,\"k\":%d,\"sus\":%d,\"e\":%s,\"runs\":[%s]}\n", opt.shard, it, jstr(g.cat).c_str(), g.n, k, (int)sus,
            jedges(g).c_str(), runs.c_str());
}

int main(int ac, char** av) {
    parseOpt(ac, av);
    std::string mode = opt.mode.empty() ? "cactus" : opt.mode;
    if (!opt.in.empty()) {
        auto gs = readGraphs(opt.in);
        for (size_t i = 0; i < gs.size() && !opt.timeUp(); ++i) {
            if (!opt.mine(i, true)) continue;
            Rng r = rngFor(i, 77);
            one(r, gs[i], mode, i);
        }
        return 0;
    }
    for (long it = std::max(0L, opt.only); it < std::max(opt.count, opt.only + 1) && !opt.timeUp(); ++it) {
        if (!opt.mine(it)) continue;
        Rng r = rngFor(it);
        int sz = r() % 10;
        int n = sz < 6 ? ri(r, 2, 10) : sz < 9 ? ri(r, 8, 18) : ri(r, 16, 40);
        ull wm[] = {1, 1, 2, 2, 4, 10};
        int cats[] = {0, 1, 1, 2, 3, 4, 4, 5, 6, 7, 8, 8, 8, 8, 9, 10, 11, 12, 13, 14, 15};
        Gr g = genGraph(r, cats[r() % 21], n, wm[r() % 6]);
        one(r, g, mode, it);
    }
    fclose(OUT);
    return 0;
}
