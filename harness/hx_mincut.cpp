// Drives every global minimum cut algorithm through the public entry point the
// command line tool uses and records value and saved side.
#include "algorithms/global_mincut/algorithms.h"
#include "common.h"

struct Cfg { std::string alg, kind, pq = "default"; char gt; bool lim = false, save = false, twice = false; int th = 1; uint64_t seed = 1;
    double cf = 0; std::string st = "geometric";
    std::string name() const {
        return alg + "/" + gt + "/" + pq + (lim ? "/nolimit" : "") + (save ? "/save" : "") + (twice ? "/twice" : "") +
               "/t" + std::to_string(th) + "/s" + std::to_string(seed) + (cf > 0 ? "/c" + std::to_string(cf).substr(0, 4) + st : "");
    } };

struct Out { ull v; std::vector<char> s; bool intact = true; };

template <class GP> static Out solve(const Gr& g, GP G, const Cfg& c) {
    auto cfg = configuration::getConfig();
    cfg->save_cut = c.save; cfg->pq = c.pq; cfg->disable_limiting = c.lim; cfg->seed = c.seed;
    cfg->threads = c.th; cfg->contraction_factor = c.cf; cfg->sampling_type = c.st;
    cfg->edge_selection = "heavy_vertex"; cfg->find_most_balanced_cut = false; cfg->find_lowest_conductance = false;
    cfg->set_node_in_cut = false; cfg->verbose = false; cfg->optimal = 0;
    omp_set_num_threads(c.th);
    Out o;
    for (int k = 0; k < (c.twice ? 2 : 1); ++k) {
        random_functions::setSeed(c.seed + k);
        std::unique_ptr<minimum_cut> mc(selectMincutAlgorithm<GP>(c.alg));
        o.v = mc->perform_minimum_cut(G);
        mc.release();
    }
    if (c.save && (int)G->number_of_nodes() == g.n) {
        o.s.resize(g.n);
        for (int i = 0; i < g.n; ++i) o.s[i] = G->getNodeInCut(i) ? 1 : 0;
    }
    // the caller's graph must still be the caller's graph
    o.intact = (int)G->number_of_nodes() == g.n;
    if (o.intact && g.n <= 2000) {
        std::map<std::pair<int, int>, ull> m;
        for (auto& x : g.e) { m[{x.u, x.v}] += x.w; m[{x.v, x.u}] += x.w; }
        size_t cnt = 0;
        for (NodeID u : G->nodes())
            for (EdgeID e : G->edges_of(u)) {
                EdgeWeight w; NodeID t;
                if constexpr (std::is_same<GP, mutableGraphPtr>::value) { t = G->getEdgeTarget(u, e); w = G->getEdgeWeight(u, e); }
                else { t = G->getEdgeTarget(e); w = G->getEdgeWeight(e); }
                auto it = m.find({(int)u, (int)t});
                if (it == m.end() || it->second != w) o.intact = false;
                ++cnt;
            }
        if (cnt != m.size()) o.intact = false;
    }
    return o;
}

static std::vector<Cfg> configs(Rng& r, const Gr& g, ull wtot, const std::string& mode) {
    std::vector<Cfg> cs;
    bool bucketOk = wtot < 2000000;  // bucket queues allocate one bucket per unit
    auto base = [&](const std::string& alg, const std::string& kind) {
        Cfg c; c.alg = alg; c.kind = kind; c.gt = "AM"[r() & 1]; c.seed = r() % 1000; return c;
    };
    bool sides = mode == "side";
#ifndef PARALLEL
    if (mode == "exact" || sides) {
        for (std::string pq : {"default", "bqueue", "heap", "bstack"}) {
            if (!bucketOk && (pq == "bqueue" || pq == "bstack")) continue;
            for (int lim = 0; lim < 2; ++lim) {
                if (g.n > 2000 && (lim || pq != "default")) continue;
                if (lim && !bucketOk && pq == "default") continue;
                Cfg c = base("noi", "exact"); c.pq = pq; c.lim = lim; c.save = sides || coin(r, 40); c.twice = coin(r, 15);
                cs.push_back(c);
                if (coin(r, 25)) { c.gt = c.gt == 'A' ? 'M' : 'A'; cs.push_back(c); }
            }
        }
        if (!sides && g.n <= 2000 && bucketOk) { Cfg c = base("cactus", "exact"); c.save = coin(r, 50); cs.push_back(c); c.gt = c.gt == 'A' ? 'M' : 'A'; cs.push_back(c); }
    }
    if (mode == "heur" || sides) {
        int rep = mode == "heur" ? 2 : 1;
        while (rep--) {
            for (std::string alg : {"vc", "pr", "matula", "ks"}) {
                if (alg == "ks" && (g.n > 120 || wtot > 4000000000ull)) continue;
                if (alg != "vc" && g.n > 2000) continue;
                Cfg c = base(alg, alg == "matula" ? "matula" : "heur"); c.save = sides || coin(r, 50); c.twice = alg != "ks" && coin(r, 15);
                if (alg == "ks") c.gt = 'A';
                cs.push_back(c);
                if (alg != "ks" && coin(r, 40)) { c.gt = c.gt == 'A' ? 'M' : 'A'; cs.push_back(c); }
            }
        }
    }
#else
    if (mode == "par" || sides) {
        for (std::string alg : {"exact", "inexact"})
            for (int th : {1, 2, 3, 4, 8}) {
                if (alg == "exact" && !bucketOk && g.n < 2000) continue;
                if (coin(r, sides ? 60 : 35)) continue;
                Cfg c = base(alg, alg == "exact" ? "exact" : "heur"); c.th = th; c.save = sides || coin(r, 60); c.twice = coin(r, 10);
                if (alg == "exact" && bucketOk && g.n < 2000) {
                    const char* pqs[] = {"default", "bqueue", "heap", "bstack"};
                    c.pq = pqs[r() % 4]; c.lim = coin(r, 30);
                }
                cs.push_back(c);
            }
        if (!sides && g.n <= 2000 && bucketOk) { Cfg c = base("cactus", "exact"); c.th = ri(r, 1, 4); c.save = coin(r, 50); cs.push_back(c); }
    }
#endif
    return cs;
}

static void one(Rng& r, Gr& g, const std::string& mode, long uid) {
    ull wtot = 0;
    for (auto& x : g.e) wtot += x.w;
#ifdef SCHED
    bool blow = !g.cat.compare(0, 3, "big");
    if (g.n > (blow ? 150 : 40) || wtot > (blow ? 50000 : 5000)) return;
#endif
    auto cs = configs(r, g, wtot, mode);
    if (cs.empty()) return;
    bool big = g.n > 1500;
    std::vector<int> blocks; Gr q;
    ull lam = mincutNative(g, &blocks, &q);
    if (big && q.n > 60) return;   // the specification could not decide it
    auto res = isolated((int)cs.size(), [&](int i) {
        Out o = cs[i].gt == 'A' ? solve(g, toGA(g), cs[i]) : solve(g, toMG(g), cs[i]);
        bool sus = false;
        std::string s = "\"v\":" + std::to_string(unscale(o.v, g.scale)) + ",\"intact\":" + (o.intact ? "1" : "0");
        if (!o.intact) sus = true;
        if (o.v < lam || (cs[i].kind == "exact" && o.v != lam)) sus = true;
        if (cs[i].kind == "matula" && o.v > 2 * lam + 1) sus = true;
        s += ",\"s\":[";
        if (cs[i].save && cs[i].alg != "cactus" && (int)o.s.size() == g.n) {
            ull cw = cutNative(g, o.s);
            size_t ones = std::count(o.s.begin(), o.s.end(), 1);
            if (cw != o.v || ones == 0 || (int)ones == g.n) sus = true;
            std::string l;
            if (!big) { for (int v = 0; v < g.n; ++v) if (o.s[v]) l += (l.empty() ? "" : ",") + std::to_string(v); }
            s += l + "],\"ones\":" + std::to_string(ones) + ",\"sw\":" + std::to_string(unscale(cw, g.scale)) + ",\"saved\":1";
        } else {
            s += "],\"ones\":0,\"sw\":0,\"saved\":0";
        }
        return std::string(sus ? "S" : ".") + s;
    }, 30);
    bool sus = false;
    std::string runs;
    for (size_t i = 0; i < cs.size(); ++i) {
        std::string body = res[i], st = "ok";
        if (body[0] == '!') { st = body.substr(1); sus = true; body = "\"v\":-9,\"intact\":1,\"s\":[],\"ones\":0,\"sw\":0,\"saved\":0"; }
        else { if (body[0] == 'S') sus = true; body = body.substr(1); }
        runs += std::string(i ? "," : "") + "{\"c\":" + jstr(cs[i].name()) + ",\"k\":" + jstr(cs[i].kind) + ",\"st\":" + jstr(st) + "," + body + "}";
    }
    if (!keep(sus)) return;
    fprintf(OUT, "{\"id\":\"%d-%ld\",\"cat\":%s,\"n\":%d,\"fulln\":%d,\"big\":%d,\"scale\":%llu,\"sus\":%d,\"e\":%s,\"runs\":[%s]}\n",
            opt.shard, uid, jstr(g.cat).c_str(), big ? q.n : g.n, g.n, big, g.scale, sus,
            jedges(big ? [&] { Gr x = q; x.scale = g.scale; return x; }() : g).c_str(), runs.c_str());
}

// blow-up of a small graph to more than 10000 vertices, so that the multilevel
// coarsening code runs; inner clusters are sparse but heavy
static Gr bigGraph(Rng& r, int n, ull wmax) {
    Gr s = genGraph(r, (int[]){1, 2, 8, 9, 0, 12}[r() % 6], ri(r, 2, 30), wmax);
    Build b;
    ull inner = 0;
    for (auto& x : s.e) inner += x.w;
    inner += 1;
    std::vector<std::vector<int>> mem(s.n);
    for (int v = 0; v < n; ++v) {
        int c = v < s.n ? v : (coin(r, 50) ? (int)(r() % s.n) : (int)(r() % ((s.n + 1) / 2)));
        mem[c].push_back(v);
    }
    for (auto& c : mem) {
        size_t hub = std::max<size_t>(1, c.size() / ri(r, 5, 60));
        for (size_t i = 1; i < c.size(); ++i) {
            b.add(c[i], c[coin(r, 60) ? r() % std::min(i, hub) : r() % i], inner + r() % wmax);
            int ex = ri(r, 0, 2);
            while (ex--) { size_t j = r() % i; if (!b.has(c[i], c[j])) b.add(c[i], c[j], inner + r() % wmax); }
        }
    }
    for (auto& x : s.e)
        for (ull t = 0; t < x.w;) {
            ull p = 1 + r() % (x.w - t);
            b.add(mem[x.u][r() % mem[x.u].size()], mem[x.v][r() % mem[x.v].size()], p);
            t += p;
        }
    // pendant vertices that may or may not be the minimum cut
    return finish(r, n, b, "big-" + s.cat);
}

int main(int ac, char** av) {
    parseOpt(ac, av);
    std::string mode = opt.mode.empty() ? "exact" : opt.mode;
    if (!opt.in.empty()) {
        auto gs = readGraphs(opt.in);
        for (size_t i = 0; i < gs.size() && !opt.timeUp(); ++i) {
            if (!opt.mine(i, true)) continue;
            Rng r = rngFor(i, 77);
            one(r, gs[i], mode, i);
        }
        return 0;
    }
    for (long it = std::max(0L, opt.only); it < std::max(opt.count, opt.only + 1) && !opt.timeUp(); ++it) {
        if (!opt.mine(it)) continue;
        Rng r = rngFor(it);
        Gr g;
        bool wantBig = opt.kv.count("--big") && it % atoi(opt.kv["--big"].c_str()) == 3;
#ifdef SCHED
        // two or three large blocks: their common edge is summed up by all threads
        if (it % 6 == 3) g = bigGraph(r, ri(r, 101, 140), ri(r, 2, 3)); else
#else
        if (wantBig) g = bigGraph(r, ri(r, 10001, 13000), coin(r, 50) ? 3 : 12); else
#endif
        {
            int sz = r() % 20;
            int n = sz < 9 ? ri(r, 2, 9) : sz < 16 ? ri(r, 8, 24) : sz < 19 ? ri(r, 20, 60) : ri(r, 50, 110);
            ull wm[] = {1, 1, 2, 3, 5, 20, 100};
            g = genGraph(r, r() % NCAT, n, wm[r() % 7]);
            int s = r() % 12;
            if (s == 0) scaleBy(g, 1000 + r() % 9000);
            else if (s == 1) scaleBy(g, (1ull << 31) + r() % 1000);
            else if (s == 2) scaleBy(g, (1ull << 40) + 1);
        }
        one(r, g, mode, it);
    }
    fclose(OUT);
    return 0;
}
