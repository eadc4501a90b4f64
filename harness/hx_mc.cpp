// Multiterminal cuts (branch and reduce) under many configurations.
#include "algorithms/multicut/multiterminal_cut.h"
#include "common.h"
#include <sys/stat.h>

// native optimum: depth first over the free vertices, used for triage only
static ull optNative(const Gr& g, const std::vector<int>& term, int k) {
    std::vector<std::map<int, ull>> adj(g.n);
    for (auto& x : g.e) if (x.u != x.v) adj[x.u][x.v] += x.w, adj[x.v][x.u] += x.w;
    std::vector<int> lab = term, free;
    ull base = 0;
    for (int i = 0; i < g.n; ++i) if (term[i] < 0) free.push_back(i);
    for (auto& x : g.e) if (lab[x.u] >= 0 && lab[x.v] >= 0 && lab[x.u] != lab[x.v]) base += x.w;
    ull best = ~0ULL;
    std::function<void(size_t, ull)> go = [&](size_t i, ull c) {
        if (c >= best) return;
        if (i == free.size()) { best = c; return; }
        for (int t = 0; t < k; ++t) {
            ull d = 0;
            for (auto& [w, x] : adj[free[i]]) if (lab[w] >= 0 && lab[w] != t) d += x;
            lab[free[i]] = t; go(i + 1, c + d); lab[free[i]] = -1;
        }
    };
    go(0, base);
    return best;
}

struct RunCfg { std::string name, queue, sel; int threads, multi, ws, inexact; uint64_t seed; int maxbf; };

static std::string runOne(const Gr& g, const std::vector<int>& term, const RunCfg& c) {
    auto cfg = configuration::getConfig();
    cfg->threads = c.threads; cfg->queue_type = c.queue; cfg->edge_selection = c.sel; cfg->multibranch = c.multi;
    cfg->write_solution = c.ws; cfg->inexact = c.inexact; cfg->seed = c.seed; cfg->disable_cpu_affinity = true;
    cfg->maximumBranchingFactor = c.maxbf; cfg->timeoutSeconds = 600;
    random_functions::setSeed(c.seed);
    omp_set_num_threads(1);
    auto G = toMG(g);
    std::vector<NodeID> tm(g.n);
    for (int i = 0; i < g.n; ++i) tm[i] = term[i] < 0 ? UNDEFINED_NODE : term[i];
    std::string dir = opt.kv["--tmp"] + "/mc" + std::to_string(getpid());
    mkdir(dir.c_str(), 0777);
    if (chdir(dir.c_str())) _exit(97);
    size_t v = multiterminal_cut().multicut(G, tm, g.k);
    std::vector<long> sol;
    if (c.ws) {
        std::ifstream in(dir + "/solution");
        for (long x; in >> x;) sol.push_back(x);
        unlink((dir + "/solution").c_str());
    }
    if (chdir("/")) _exit(96);
    rmdir(dir.c_str());
    return "\"v\":" + std::to_string(unscale(v, g.scale)) + ",\"sol\":" + jarr(sol);
}

int main(int ac, char** av) {
    parseOpt(ac, av);
    std::vector<Gr> given;
    if (!opt.in.empty()) given = readGraphs(opt.in);
    long total = given.empty() ? opt.count : (long)given.size();
    for (long it = std::max(0L, opt.only); it < std::max(total, opt.only + 1) && !opt.timeUp(); ++it) {
        if (!opt.mine(it, !given.empty())) continue;
        Rng r = rngFor(it);
        Gr g;
        int big = 0;
        if (!given.empty()) g = given[it];
        else {
            ull wm[] = {1, 2, 3, 8, 100};
            int n = ri(r, 3, 10);
            if (it % 6 == 5) { n = ri(r, 14, 34); big = 1; }
            g = genGraph(r, r() % NCAT, n, wm[r() % 5]);
            if (g.n > 44) continue;
            big = g.n > 10;
            if (!big) scaleBy(g, coin(r, 5) ? 97 : coin(r, 15) ? 1ull << ri(r, 15, 36) : 1);
        }
        if (g.n < 2) continue;
        int k = g.k = coin(r, 10) && g.n <= 12 ? std::min(g.n, ri(r, 2, 7)) : ri(r, 2, std::min(g.n, g.n > 20 ? 3 : 4));
        std::vector<int> term(g.n, -1), p(g.n);
        for (int i = 0; i < g.n; ++i) p[i] = i;
        std::shuffle(p.begin(), p.end(), r);
        for (int i = 0; i < k; ++i) term[p[i]] = i;
        if (coin(r, 30)) for (int i = k; i < g.n; ++i) if (coin(r, 15)) term[p[i]] = r() % k;
        int runs = given.empty() ? (opt.thorough() ? 8 : 5) : 2;
        static const char* QT[] = {"bound_sum", "small_graph", "few_terminals", "upper_bound", "lower_bound", "bigger_distance", "lower_distance", "most_deleted"};
        static const char* SEL[] = {"random", "heavy", "heavy_global", "connection", "distance", "heavy_vertex"};
        std::vector<RunCfg> cs;
        for (int i = 0; i < runs; ++i) {
            RunCfg c;
            c.queue = QT[i == 0 ? 0 : r() % 8]; c.multi = i == 0 || coin(r, 60); c.sel = c.multi ? (coin(r, 70) ? "heavy_vertex" : "connection") : SEL[r() % 6];
            c.threads = i == 0 ? 1 : (int[]){1, 2, 3, 4, 8}[r() % 5];
            c.ws = coin(r, 60); c.inexact = i > 0 && coin(r, 10); c.seed = r(); c.maxbf = coin(r, 80) ? 5 : ri(r, 2, 8);
            c.name = std::string(c.inexact ? "inexact/" : "exact/") + (c.multi ? "multi/" : "single/") + c.sel + "/" + c.queue + "/t" + std::to_string(c.threads) + "/bf" + std::to_string(c.maxbf);
            cs.push_back(c);
        }
        auto res = isolated(runs, [&](int i) { return runOne(g, term, cs[i]); }, big ? 8 : 60);
        // branching is exponential: on a large graph a timeout is no observation
        if (big) { int j = 0; for (int i = 0; i < runs; ++i) if (res[i] != "!HANG") { res[j] = res[i]; cs[j++] = cs[i]; } runs = j; if (!runs) continue; }
        ull best = ~0ULL;
        if (!big || (k <= 3 && g.n <= 18)) best = optNative(g, term, k);
        int sus = 0;
        std::string o;
        for (int i = 0; i < runs; ++i) {
            bool ok = res[i][0] != '!';
            if (!ok) sus = 1;
            else {
                ull v = strtoull(res[i].c_str() + 4, 0, 10);
                if (best != ~0ULL && (cs[i].inexact ? v < best / g.scale : v != best / g.scale)) sus = 1;
            }
            o += std::string(i ? "," : "") + "{\"c\":" + jstr(cs[i].name) + ",\"st\":\"" + (ok ? "ok" : res[i].substr(1)) + "\",\"ws\":" + std::to_string(cs[i].ws) + ",\"inex\":" + std::to_string(cs[i].inexact) + "," + (ok ? res[i] : "\"v\":-1,\"sol\":[]") + "}";
        }
        if (!keep(sus)) continue;
        fprintf(OUT, "{\"id\":\"%d-%ld\",\"cat\":%s,\"n\":%d,\"k\":%d,\"e\":%s,\"term\":%s,\"big\":%d,\"sus\":%d,\"runs\":[%s]}\n", opt.shard, it, jstr(g.cat).c_str(), g.n, k, jedges(g).c_str(), jarr(term).c_str(), big, sus, o.c_str());
        fflush(OUT);
    }
    fclose(OUT);
    return 0;
}
