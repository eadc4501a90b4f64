// Branch and reduce under controlled schedules: every event of the queues, the
// idle count and the end is recorded (hooks of common/verification_hooks.h).
#include <bits/stdc++.h>
#include <atomic>
#include <future>
#include <thread>
#include <mutex>
#include <condition_variable>
#include "tlx/logger.hpp"
#include "tlx/math.hpp"
#define VIECUT_VERIFICATION_HOOKS
#ifdef QUEUES          // the queue sizes are members of private members
#define private public
#endif
#include "algorithms/multicut/multiterminal_cut.h"
#undef private
#include "common.h"
#include "../sched/sched.h"

struct Ev { char k; int t; long o; long v; };
static std::vector<Ev> ev;
static std::map<const void*, long> name;      // problem object -> number
static bool onEv = false;
void viecut_hook(const char* e, size_t t, const void* p, int64_t v) {
    if (!onEv) return;
    char k = !strcmp(e, "add") ? 'a' : !strcmp(e, "pull") ? 'p' : !strcmp(e, "drop") ? 'd' : !strcmp(e, "done") ? 'e' : !strcmp(e, "idle") ? 'i' : !strcmp(e, "finish") ? 'f' : 'b';
    long o = 0;
    if (p) { if (!name.count(p)) { long x = name.size() + 1; name[p] = x; } o = name[p]; }
    ev.push_back({k, sched::self(), o, (long)std::min<int64_t>(v, 2000000000)});
}
static ull optOf(const Gr& g, const std::vector<int>& term, int k, std::vector<int>& wit) {
    std::vector<std::map<int, ull>> adj(g.n);
    for (auto& e : g.e) adj[e.u][e.v] += e.w, adj[e.v][e.u] += e.w;
    std::vector<int> lab = term, fr;
    for (int i = 0; i < g.n; ++i) if (lab[i] < 0) fr.push_back(i);
    std::sort(fr.begin(), fr.end(), [&](int a, int b) { return adj[a].size() > adj[b].size(); });
    ull base = 0, best = ~0ull;
    for (auto& e : g.e) if (lab[e.u] >= 0 && lab[e.v] >= 0 && lab[e.u] != lab[e.v]) base += e.w;
    std::function<void(size_t, ull)> go = [&](size_t i, ull c) {
        if (c >= best) return;
        if (i == fr.size()) { best = c; wit = lab; return; }
        for (int t = 0; t < k; ++t) { ull d = 0; for (auto& [u, x] : adj[fr[i]]) if (lab[u] >= 0 && lab[u] != t) d += x; lab[fr[i]] = t; go(i + 1, c + d); lab[fr[i]] = -1; }
    };
    go(0, base);
    return best;
}
struct Case { Gr g; std::vector<int> term, wit; int k; uint32_t seed; };
static std::string run(const Case& c, ull best) {
    Rng r(c.seed);
    auto cfg = configuration::getConfig();
    static const char* SEL[] = {"random", "heavy", "heavy_global", "connection", "distance", "heavy_vertex"};
    static const char* QT[] = {"small_graph", "bound_sum", "few_terminals", "upper_bound", "lower_bound", "bigger_distance", "lower_distance", "most_deleted"};
    cfg->disable_cpu_affinity = true; cfg->seed = r(); cfg->threads = ri(r, 2, 3); cfg->queue_type = QT[r() % 8]; cfg->inexact = false;
    cfg->multibranch = coin(r, 50); cfg->edge_selection = SEL[r() % 6]; cfg->num_terminals = c.k; cfg->timeoutSeconds = 600; cfg->runLocalSearch = true;
    cfg->random_flows = 0; cfg->high_distance_flows = 0;
    random_functions::setSeed(cfg->seed);
    auto G = toMG(c.g);
    mutable_graph orig(*G);
    std::vector<NodeID> ot;
    std::vector<terminal> ts;
    for (int i = 0; i < c.k; ++i) { int v = std::find(c.term.begin(), c.term.end(), i) - c.term.begin(); ot.push_back(v); ts.emplace_back(v, i); }
    std::vector<bool> fixed(c.g.n);
    for (int i = 0; i < c.g.n; ++i) fixed[i] = c.term[i] >= 0;
    auto p = std::make_shared<multicut_problem>(G, ts);
    cfg->orign = G->n(); cfg->origm = G->m();
    int strat = r() % 4 ? (r() % 2 ? 1 : 0) : 2, par = strat == 0 ? (const int[]){2, 4, 12, 40}[r() % 4] : strat == 1 ? ri(r, 1, 8) : ri(r, 1, 9);
    long len = (const long[]){300, 1000, 4000}[r() % 3];
    ev.clear(); name.clear();
    branch_multicut bm(orig, ot, fixed);
    freopen("/dev/null", "w", stdout);
    onEv = true;
    sched::begin(r(), strat, par, len, 3000000);
    sched::watch(&bm, sizeof bm);
#ifdef QUEUES
    auto& sz = bm.pm.problems.sizes;
    sched::watch(sz.data(), sz.size() * sizeof(sz[0]));
#endif
    auto [sol, val] = bm.find_multiterminal_cut(p);
    onEv = false;
    long steps = sched::end();
    // native triage: what the specification will decide
    std::set<long> q; std::map<long, long> lb; std::set<int> work; bool sus = (ull)val != best, fin = false;
    for (auto& e : ev) switch (e.k) {
        case 'a': sus |= q.count(e.o) || fin; q.insert(e.o); lb[e.o] = e.v; break;
        case 'p': sus |= !q.count(e.o) || work.count(e.t); q.erase(e.o); work.insert(e.t); break;
        case 'd': sus |= !q.count(e.o) || lb[e.o] < e.v || e.v < (long)best; q.erase(e.o); break;
        case 'e': sus |= !work.count(e.t); work.erase(e.t); break;
        case 'f': sus |= !work.empty() || !q.empty(); fin = true; break;
        case 'b': sus |= e.v < (long)best; break;
    }
    if (!fin) sus = true;
    std::string s = "\"v\":" + std::to_string(val) + ",\"threads\":" + std::to_string(cfg->threads) + ",\"how\":\"" + (cfg->multibranch ? "multi-" : "single-") + cfg->queue_type + "\",\"steps\":" + std::to_string(steps) + ",\"sol\":" + jarr(sol) + ",\"ev\":[";
    for (auto& e : ev) { s += (s.back() == '[' ? "" : ","); s += std::string("[\"") + e.k + "\"," + std::to_string(e.t) + "," + std::to_string(e.o) + "," + std::to_string(e.v) + "]"; }
    return s + "],\"sus\":" + (sus ? "1" : "0");
}
int main(int ac, char** av) {
    parseOpt(ac, av);
    long total = std::max(opt.count, opt.only + 1), it = std::max(0L, opt.only);
    while (it < total && !opt.timeUp()) {
        std::vector<long> ids;
        std::vector<Case> cs;
        std::vector<ull> best;
        for (; it < total && ids.size() < 16; ++it) if (opt.mine(it, false)) {
            Rng r = rngFor(it, 0);
            Case c;
            // some instances that are not solved at the root
            for (int tries = 0; tries < 60; ++tries) {
                ull wm[] = {1, 2, 3, 5, 10};
                c.g = genGraph(r, r() % NCAT, ri(r, 6, 13), wm[r() % 5]);
                c.k = c.g.k = ri(r, 3, 5);
                if (c.g.n < 6 || c.g.n > 13 || c.k > c.g.n) { c.g.n = 0; continue; }
                if ((int)c.g.e.size() < 2 * c.g.n) { c.g.n = 0; continue; }
                break;
            }
            if (!c.g.n) continue;
            std::vector<int> p(c.g.n);
            std::iota(p.begin(), p.end(), 0);
            std::shuffle(p.begin(), p.end(), r);
            c.term.assign(c.g.n, -1);
            for (int i = 0; i < c.k; ++i) c.term[p[i]] = i;
            c.seed = r();
            // the same instance under several schedules
            ids.push_back(it); cs.push_back(c); best.push_back(optOf(c.g, c.term, c.k, cs.back().wit));
        }
        if (ids.empty()) break;
        auto res = isolated(ids.size(), [&](int i) { return run(cs[i], best[i]); }, 30);
        for (size_t i = 0; i < ids.size(); ++i) {
            bool ok = res[i][0] != '!';
            if (!keep(!ok || res[i].rfind("\"sus\":0") == std::string::npos)) continue;
            fprintf(OUT, "{\"id\":\"%d-%ld\",\"n\":%d,\"k\":%d,\"e\":%s,\"term\":%s,\"wit\":%s,\"st\":\"%s\",%s}\n", opt.shard, ids[i], cs[i].g.n, cs[i].k, jedges(cs[i].g).c_str(), jarr(cs[i].term).c_str(), jarr(cs[i].wit).c_str(), ok ? "ok" : res[i].c_str() + 1, ok ? res[i].c_str() : "\"v\":0,\"threads\":0,\"how\":\"none\",\"steps\":0,\"sol\":[],\"ev\":[],\"sus\":1");
        }
        fflush(OUT);
    }
    fclose(OUT);
    return 0;
}
