// Branch and reduce on several processes: the ranks are threads of one process,
// the messages go through shim/mpi, and everything runs under controlled
// schedules. Recorded: the events of the queues (hooks), the subproblems that
// are sent and received, the barrier, and the results of all ranks.
#include <bits/stdc++.h>
#include <atomic>
#include <future>
#include <thread>
#include <mutex>
#include <condition_variable>
#include "tlx/logger.hpp"
#include "tlx/math.hpp"
#define VIECUT_VERIFICATION_HOOKS
#define SCHED_RANKS
#include "algorithms/multicut/multiterminal_cut.h"
#include "common.h"
#include "../sched/sched.h"

struct Ev { char k; int t; long o; long v; int r; };
static std::vector<Ev> ev;
static std::map<std::pair<int, const void*>, long> name;      // problem object -> number
static std::map<std::vector<char>, long> content;             // problem as it is sent
static bool onEv = false;
struct Hold { Hold() { sched::hold(true); } ~Hold() { sched::hold(false); } };
void viecut_hook(const char* e, size_t, const void* p, int64_t v) {
    if (!onEv) return;
    char k = !strcmp(e, "add") ? 'a' : !strcmp(e, "pull") ? 'p' : !strcmp(e, "drop") ? 'd' : !strcmp(e, "done") ? 'e' : !strcmp(e, "idle") ? 'i' : !strcmp(e, "finish") ? 'f' : 'b';
    if (k == 'i') return;
    Hold h;
    long o = 0;
    if (p) { auto q = std::make_pair(sched::tag(), p); if (!name.count(q)) { long x = name.size() + 1; name[q] = x; } o = name[q]; }
    ev.push_back({k, sched::self(), o, (long)std::min<int64_t>(v, 2000000000), sched::tag()});
}
static void message(char k, int other, int tag, const std::vector<char>& d) {
    if (!onEv) return;
    Hold h;
    if (k == 'B') { ev.push_back({'B', sched::self(), 0, 0, sched::tag()}); return; }
    if (tag != 1020) return;
    if (!content.count(d)) { long x = content.size() + 1; content[d] = x; }
    ev.push_back({k == 's' ? 's' : 'r', sched::self(), content[d], other, sched::tag()});
}
static ull optOf(const Gr& g, const std::vector<int>& term, int k, std::vector<int>& wit) {
    std::vector<std::map<int, ull>> adj(g.n);
    for (auto& e : g.e) adj[e.u][e.v] += e.w, adj[e.v][e.u] += e.w;
    std::vector<int> lab = term, fr;
    for (int i = 0; i < g.n; ++i) if (lab[i] < 0) fr.push_back(i);
    std::sort(fr.begin(), fr.end(), [&](int a, int b) { return adj[a].size() > adj[b].size(); });
    ull base = 0, best = ~0ull;
    for (auto& e : g.e) if (lab[e.u] >= 0 && lab[e.v] >= 0 && lab[e.u] != lab[e.v]) base += e.w;
    std::function<void(size_t, ull)> go = [&](size_t i, ull c) {
        if (c >= best) return;
        if (i == fr.size()) { best = c; wit = lab; return; }
        for (int t = 0; t < k; ++t) { ull d = 0; for (auto& [u, x] : adj[fr[i]]) if (lab[u] >= 0 && lab[u] != t) d += x; lab[fr[i]] = t; go(i + 1, c + d); lab[fr[i]] = -1; }
    };
    go(0, base);
    return best;
}
struct Case { Gr g; std::vector<int> term, wit; int k; uint32_t seed; bool two; };
static std::string run(const Case& c, ull best) {
    Rng r(c.seed);
    auto cfg = configuration::getConfig();
    static const char* SEL[] = {"random", "heavy", "heavy_global", "connection", "distance", "heavy_vertex"};
    static const char* QT[] = {"small_graph", "bound_sum", "few_terminals", "upper_bound", "lower_bound", "bigger_distance", "lower_distance", "most_deleted"};
    cfg->disable_cpu_affinity = true; cfg->seed = r(); cfg->threads = ri(r, 1, 2); cfg->queue_type = QT[r() % 8]; cfg->inexact = false;
    cfg->multibranch = coin(r, 60); cfg->edge_selection = SEL[r() % 6]; cfg->num_terminals = c.k; cfg->timeoutSeconds = 600; cfg->runLocalSearch = true;
    cfg->random_flows = 0; cfg->high_distance_flows = 0;
    random_functions::setSeed(cfg->seed);
    int ranks = ri(r, 2, 3);
    bool whole = coin(r, 40) || c.two;       // all components, or one search
    std::vector<NodeID> ot;
    for (int i = 0; i < c.k; ++i) ot.push_back(std::find(c.term.begin(), c.term.end(), i) - c.term.begin());
    std::vector<bool> fixed(c.g.n);
    std::vector<NodeID> mapping(c.g.n, UNDEFINED_NODE);
    for (int i = 0; i < c.g.n; ++i) { fixed[i] = c.term[i] >= 0; if (fixed[i]) mapping[i] = c.term[i]; }
    int how = r() % 8, strat = how < 4 ? 1 : how < 7 ? 0 : 2, par = strat == 0 ? (const int[]){2, 4, 12, 40}[r() % 4] : strat == 1 ? ri(r, 1, 12) : ri(r, 1, 9);
    long len = (const long[]){300, 1000, 4000, 15000}[r() % 4];
    ev.clear(); name.clear(); content.clear();
    mpi_shim::reset(ranks, (const int[]){0, 2, 6, 12}[r() % 4], r());
    mpi_shim::event = message;
    freopen("/dev/null", "w", stdout);
    sched::tag() = 0;
    sched::patience = (const int[]){50, 200, 500}[r() % 3];
    sched::begin(r(), strat, par, len, 6000000);
    std::vector<std::vector<NodeID>> sol(ranks);
    std::vector<size_t> val(ranks, 0);
    std::vector<std::shared_ptr<branch_multicut>> bm(ranks);
    std::vector<mutableGraphPtr> G(ranks);
    std::vector<std::shared_ptr<mutable_graph>> orig(ranks);
    for (int k = 0; k < ranks; ++k) {
        sched::tag() = k;
        G[k] = toMG(c.g);
        if (whole) continue;
        orig[k] = std::make_shared<mutable_graph>(*G[k]);
        bm[k] = std::make_shared<branch_multicut>(*orig[k], ot, fixed);
        sched::watch(bm[k].get(), sizeof(branch_multicut));
    }
    static char nothing[8];
    sched::watch(nothing, sizeof nothing);
    cfg->orign = G[0]->n(); cfg->origm = G[0]->m();
    onEv = true;
    auto one = [&](int k) {
        sched::tag() = k;
        if (whole) {
            // the search object of each component lies in the next frame
            char anchor[64];
            sched::watch(anchor - sizeof(branch_multicut) - 1536, sizeof(branch_multicut) + 1536);
            multiterminal_cut mc;
            val[k] = mc.multicut(G[k], mapping, c.k);
        } else {
            std::vector<terminal> ts;
            for (int i = 0; i < c.k; ++i) ts.emplace_back(ot[i], i);
            auto [s, v] = bm[k]->find_multiterminal_cut(std::make_shared<multicut_problem>(G[k], ts));
            sol[k] = s; val[k] = v;
        }
    };
    std::vector<std::thread> th;
    for (int k = 1; k < ranks; ++k) { sched::tag() = k; th.emplace_back(one, k); }
    one(0);
    for (auto& t : th) t.join();
    onEv = false;
    sched::tag() = 0;
    long steps = sched::end();
    // native triage: what the specification will decide
    std::set<long> q; std::map<int, int> work, holds; std::multiset<long> air; bool sus = false;
    std::map<long, long> lb; std::set<int> fin; int bars = 0;
    for (size_t k = 0; k < (size_t)ranks; ++k) { sus |= (ull)val[k] != best; if (!whole) sus |= sol[k] != sol[0]; }
    for (auto& e : ev) switch (e.k) {
        case 'a': sus |= q.count(e.o) || fin.count(e.r); q.insert(e.o); ++holds[e.r]; lb[e.o] = e.v; break;
        case 'p': sus |= !q.count(e.o) || work[e.t]; q.erase(e.o); work[e.t] = 1; break;
        case 'd': sus |= !q.count(e.o) || lb[e.o] < e.v; q.erase(e.o); --holds[e.r]; break;
        case 'e': sus |= !work[e.t]; work[e.t] = 0; --holds[e.r]; break;
        case 'f': sus |= holds[e.r] > 0; fin.insert(e.r); break;
        case 'b': sus |= !whole && e.v < (long)best; break;
        case 's': sus |= fin.count(e.v); air.insert(e.o); break;
        case 'r': sus |= !air.count(e.o) || fin.count(e.r); if (air.count(e.o)) air.erase(air.find(e.o)); break;
        case 'B': if (++bars % ranks == 0) { sus |= !air.empty() || !q.empty() || (int)fin.size() != ranks; fin.clear(); q.clear(); } break;
    }
    std::string s = "\"ranks\":" + std::to_string(ranks) + ",\"whole\":" + (whole ? "1" : "0") + ",\"threads\":" + std::to_string(cfg->threads) + ",\"how\":\"" + (cfg->multibranch ? "multi-" : "single-") + cfg->queue_type + "\",\"steps\":" + std::to_string(steps) + ",\"v\":" + jarr(val) + ",\"sol\":[";
    for (auto& x : sol) { s += (s.back() == '[' ? "" : ","); s += jarr(x); }
    s += "],\"ev\":[";
    for (auto& e : ev) { s += (s.back() == '[' ? "" : ","); s += std::string("[\"") + e.k + "\"," + std::to_string(e.t) + "," + std::to_string(e.o) + "," + std::to_string(e.v) + "," + std::to_string(e.r) + "]"; }
    return s + "],\"sus\":" + (sus ? "1" : "0");
}
int main(int ac, char** av) {
    parseOpt(ac, av);
    long total = std::max(opt.count, opt.only + 1), it = std::max(0L, opt.only);
    while (it < total && !opt.timeUp()) {
        std::vector<long> ids;
        std::vector<Case> cs;
        std::vector<ull> best;
        for (; it < total && ids.size() < 16; ++it) if (opt.mine(it, false)) {
            Rng r = rngFor(it, 0);
            Case c;
            // some instances that are not solved at the root
            for (int tries = 0; tries < 60; ++tries) {
                ull wm[] = {1, 2, 3, 5, 10};
                c.g = genGraph(r, r() % NCAT, ri(r, 6, 13), wm[r() % 5]);
                c.two = false;
                c.k = c.g.k = ri(r, 3, 5);
                if (c.g.n < 6 || c.g.n > 13 || c.k > c.g.n) { c.g.n = 0; continue; }
                if ((int)c.g.e.size() < 2 * c.g.n) { c.g.n = 0; continue; }
                break;
            }
            if (!c.g.n) continue;
            std::vector<int> p(c.g.n);
            std::iota(p.begin(), p.end(), 0);
            std::shuffle(p.begin(), p.end(), r);
            c.term.assign(c.g.n, -1);
            for (int i = 0; i < c.k; ++i) c.term[p[i]] = i;
            ull extra = 0;
            if (coin(r, 45)) {
                // a second component with terminals of its own
                Gr h;
                for (int tries = 0; tries < 60; ++tries) {
                    h = genGraph(r, r() % NCAT, ri(r, 6, 11), (const ull[]){1, 2, 3, 5, 10}[r() % 5]);
                    if (h.n >= 6 && h.n <= 11 && (int)h.e.size() >= 2 * h.n) break;
                    h.n = 0;
                }
                if (h.n) {
                    c.two = true;
                    int k2 = ri(r, 3, 4);
                    std::vector<int> t2(h.n, -1), w2, w1;
                    for (int i = 0; i < k2; ++i) { int v; do v = r() % h.n; while (t2[v] >= 0); t2[v] = i; }
                    ull o2 = optOf(h, t2, k2, w2), o1 = optOf(c.g, c.term, c.k, w1);
                    bool swap = coin(r, 50);        // which one is searched first
                    const Gr& A = swap ? h : c.g; const Gr& B = swap ? c.g : h;
                    Gr g = A; g.scale = 1;
                    for (auto& e : B.e) g.e.push_back({e.u + A.n, e.v + A.n, e.w});
                    g.n = A.n + B.n;
                    int kA = swap ? k2 : c.k;
                    std::vector<int> t = swap ? t2 : c.term, w = swap ? w2 : w1;
                    for (int x : swap ? c.term : t2) t.push_back(x < 0 ? -1 : x + kA);
                    for (int x : swap ? w1 : w2) w.push_back(x + kA);
                    c.k += k2; g.k = c.k; c.g = g; c.term = t; c.wit = w; extra = o1 + o2;
                }
            }
            c.seed = r();
            // the same instance under several schedules
            ids.push_back(it); cs.push_back(c); best.push_back(c.two ? extra : optOf(c.g, c.term, c.k, cs.back().wit));
        }
        if (ids.empty()) break;
        auto res = isolated(ids.size(), [&](int i) { return run(cs[i], best[i]); }, 30);
        for (size_t i = 0; i < ids.size(); ++i) {
            bool ok = res[i][0] != '!';
            if (!keep(!ok || res[i].rfind("\"sus\":0") == std::string::npos)) continue;
            fprintf(OUT, "{\"id\":\"%d-%ld\",\"n\":%d,\"k\":%d,\"e\":%s,\"term\":%s,\"wit\":%s,\"st\":\"%s\",%s}\n", opt.shard, ids[i], cs[i].g.n, cs[i].k, jedges(cs[i].g).c_str(), jarr(cs[i].term).c_str(), jarr(cs[i].wit).c_str(), ok ? "ok" : res[i].c_str() + 1, ok ? res[i].c_str() : "\"ranks\":0,\"whole\":0,\"threads\":0,\"how\":\"none\",\"steps\":0,\"v\":[],\"sol\":[],\"ev\":[],\"sus\":1");
        }
        fflush(OUT);
    }
    fclose(OUT);
    return 0;
}
