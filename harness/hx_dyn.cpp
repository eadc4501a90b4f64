// Histories of edge insertions and deletions on the dynamic minimum cut.
#include "algorithms/global_mincut/algorithms.h"
#include "algorithms/global_mincut/dynamic/dynamic_mincut.h"
#include "common.h"

struct Op { char k; int u, v; ull w; };

static std::string cactusJson(mutableGraphPtr H, int n) {
    std::string e, c;
    for (NodeID a : H->nodes()) {
        for (auto x : H->edges_of(a)) {
            NodeID t = H->getEdgeTarget(a, x);
            if (a < t) e += (e.empty() ? "[" : ",[") + std::to_string(a) + "," + std::to_string(t) + "," + std::to_string(H->getEdgeWeight(a, x)) + "]";
        }
        c += (a ? "," : "") + jarr(H->containedVertices(a));
    }
    std::vector<int> pos;
    for (int v = 0; v < n; ++v) pos.push_back(H->getCurrentPosition(v));
    return "\"hn\":" + std::to_string(H->n()) + ",\"he\":[" + e + "],\"cont\":[" + c + "],\"pos\":" + jarr(pos);
}

// random history; keeps the graph simple unless multi
static std::vector<Op> history(Rng& r, const Gr& g, int len, int style, ull wmax) {
    std::map<std::pair<int, int>, ull> cur;
    for (auto& x : g.e) cur[{std::min(x.u, x.v), std::max(x.u, x.v)}] = x.w;
    std::vector<Op> ops;
    std::vector<std::pair<int, int>> removed;
    int phase = 0;
    auto add = [&]() -> bool {
        if ((int)cur.size() == g.n * (g.n - 1) / 2) return false;
        int u, v;
        if (!removed.empty() && coin(r, 50)) { auto p = removed.back(); removed.pop_back(); u = p.first; v = p.second; if (cur.count(p)) return false; }
        else do { u = r() % g.n; v = r() % g.n; } while (u == v || cur.count({std::min(u, v), std::max(u, v)}));
        ull w = 1 + r() % wmax;
        cur[{std::min(u, v), std::max(u, v)}] = w;
        if (coin(r, 50)) std::swap(u, v);
        ops.push_back({'a', u, v, w});
        return true;
    };
    auto del = [&]() -> bool {
        if (cur.empty()) return false;
        auto it = cur.begin();
        // prefer edges at low-degree vertices: they move the cut
        std::advance(it, r() % cur.size());
        int u = it->first.first, v = it->first.second;
        removed.push_back(it->first);
        cur.erase(it);
        if (coin(r, 50)) std::swap(u, v);
        ops.push_back({'d', u, v, 0});
        return true;
    };
    while ((int)ops.size() < len) {
        if (coin(r, 20)) phase = r() % 3;
        bool a = style == 0 ? coin(r, 50) : style == 1 ? true : style == 2 ? false : (phase == 0 ? coin(r, 80) : phase == 1 ? coin(r, 20) : coin(r, 50));
        if (coin(r, 3)) { // removing an edge that does not exist
            int u = r() % g.n, v = r() % g.n;
            if (u != v && !cur.count({std::min(u, v), std::max(u, v)})) { ops.push_back({'d', u, v, 0}); continue; }
        }
        if (a ? !add() : !del()) { if (a ? !del() : !add()) break; }
    }
    return ops;
}


// more insertions than the cache of old cacti holds, then a return to the old value
static std::vector<Op> longHistory(Rng& r, Gr& g) {
    int n = g.n = 6;
    g.cat = "long"; g.e.clear();
    for (int i = 0; i < n; ++i) g.e.push_back({i, (i + 1) % n, 1});
    std::vector<Op> ops = {{'d', 0, 5, 0}};
    if (coin(r, 50)) ops.push_back({'d', 1, 2, 0}), ops.push_back({'a', 1, 2, 1});
    int len = 990 + r() % 40;
    ops.push_back({'a', 1, 3, 1});
    for (int i = 0; i < len; ++i) { ops.push_back({'d', 1, 3, 0}); ops.push_back({'a', 1, 3, 1}); }
    ops.push_back({'a', 0, 5, 1});
    for (int i = 0; i < 4; ++i) { int u = r() % n; ops.push_back({'d', u, (u + 1) % n, 0}); ops.push_back({'a', u, (u + 1) % n, 1}); }
    ops.push_back({'a', 0, 2, 1}); ops.push_back({'a', 2, 4, 1}); ops.push_back({'a', 4, 0, 1}); ops.push_back({'a', 3, 5, 1});
    return ops;
}

// cacti with vertices of high degree: stars of single vertices, cycles and bridges
static std::vector<Op> starHistory(Rng& r, Gr& g) {
    int n = g.n = ri(r, 106, 125), shape = r() % 3, hub = r() % n;
    g.cat = "star"; g.e.clear();
    std::vector<int> p;
    for (int i = 0; i < n; ++i) if (i != hub) p.push_back(i);
    std::shuffle(p.begin(), p.end(), r);
    std::set<std::pair<int, int>> have;
    auto put = [&](int u, int v, ull w) { g.e.push_back({u, v, w}); have.insert({std::min(u, v), std::max(u, v)}); };
    if (shape == 0) for (int v : p) put(hub, v, 1);
    else if (shape == 1) for (size_t i = 0; i < p.size(); ++i) { put(i % 2 && i > 0 ? p[i - 1] : hub, p[i], i % 2 ? 1 : 1); if (i % 2) put(p[i], hub, 1); else if (i + 1 == p.size()) put(p[i], p[i - 2 < p.size() ? i - 2 : 0], 1); }
    else for (size_t i = 0; i < p.size(); ++i) { int q = i > 100 && coin(r, 50) ? p[r() % i] : hub; put(q, p[i], 1); }
    std::vector<Op> ops;
    while ((int)ops.size() < ri(r, 6, 14)) {
        if ((int)ops.size() < 5 ? coin(r, 95) : coin(r, 50)) {
            int u = coin(r, 20) ? hub : (int)(r() % n), v = r() % n;
            if (u == v || have.count({std::min(u, v), std::max(u, v)})) continue;
            have.insert({std::min(u, v), std::max(u, v)});
            ops.push_back({'a', u, v, 1});
        } else { auto x = g.e[r() % g.e.size()]; auto k = std::make_pair(std::min(x.u, x.v), std::max(x.u, x.v)); if (!have.count(k)) continue; have.erase(k); ops.push_back({'d', x.u, x.v, 0}); }
    }
    return ops;
}

// sparse graphs with large cacti and small cut values, whose value falls and
// returns several times: cached cacti are used again
static std::vector<Op> cacheHistory(Rng& r, Gr& g) {
    Build b;
    int have = 1, n = ri(r, 7, 15);
    ull w = coin(r, 85) ? 1 : 2;
    while (have < n) {
        int at = r() % have, len = std::min(n - have, ri(r, 1, 5));
        if (len == 1) b.add(at, have++, coin(r, 70) ? 2 * w : w);
        else { int p = at; for (int i = 0; i < len; ++i) { b.add(p, have, w); p = have++; } b.add(p, at, w); }
    }
    g = finish(r, n, b, "cache");
    std::map<std::pair<int, int>, ull> cur;
    for (auto& x : g.e) cur[{std::min(x.u, x.v), std::max(x.u, x.v)}] = x.w;
    std::vector<Op> ops;
    std::vector<std::pair<std::pair<int, int>, ull>> gone;
    auto del = [&] { if (cur.empty()) return; auto it = cur.begin(); std::advance(it, r() % cur.size()); gone.push_back(*it); ops.push_back({'d', it->first.first, it->first.second, 0}); cur.erase(it); };
    auto ins = [&](int u, int v, ull w) { auto p = std::make_pair(std::min(u, v), std::max(u, v)); if (u == v || cur.count(p)) return; cur[p] = w; ops.push_back({'a', u, v, w}); };
    int len = ri(r, 8, 34);
    while ((int)ops.size() < len) {
        int x = r() % 10;
        if (x < 3 || (x < 5 && gone.empty())) for (int k = ri(r, 1, 3); k--;) del();
        else if (x < 7 && !gone.empty()) {
            size_t keep = coin(r, 60) ? 0 : r() % gone.size();
            while (gone.size() > keep) { auto q = gone[r() % gone.size()]; gone.erase(std::find(gone.begin(), gone.end(), q)); ins(q.first.first, q.first.second, q.second); }
        } else { int u = r() % n, v = r() % n; ins(u, v, coin(r, 80) ? w : 2 * w); }
    }
    return ops;
}

static void one(Rng& r, Gr& g, long it, std::vector<Op> ops) {
    uint64_t seed = r();
    int th = ri(r, 1, 3);
    bool bal = coin(r, 20);
    auto res = isolated(1, [&](int) {
        auto cfg = configuration::getConfig();
        cfg->save_cut = true; cfg->edge_selection = "heavy_vertex"; cfg->seed = seed; cfg->threads = th; cfg->find_most_balanced_cut = bal;
        cfg->find_lowest_conductance = false; cfg->set_node_in_cut = bal; cfg->verbose = false;
        omp_set_num_threads(th);
        random_functions::setSeed(seed);
        auto G = toMG(g);
        dynamic_mincut d;
        if (seed % 8 == 0) {     // the structure has been used for another graph before
            Rng q(seed);
            Gr h; auto hops = cacheHistory(q, h);
            d.initialize(toMG(h));
            for (auto& op : hops) { if (op.k == 'a') d.addEdge(op.u, op.v, op.w); else d.removeEdge(op.u, op.v); }
        }
        // triage of the represented cuts, with the same ghost state as the specification
        Gr c = g;
        ull lam = 0; Cuts cuts; bool full = true, known = false, odd = false; std::set<ull> put;
        auto look = [&](char k) {
            if (g.n > 40) return;
            ull l2 = swNative(c);
            Cuts c2; std::vector<int> lab; int kk;
            bool kn = l2 > 0 && kernel(c, l2, lab, kk, &c2, 13);
            bool f2 = k == 'i' ? true : k == 'a' ? (l2 > lam ? !put.count(l2) : full) : l2 < lam ? true : full && known && kn && c2 == cuts;
            if (k == 'd' && l2 < lam) put.insert(lam);
            lam = l2; cuts = c2; known = kn; full = f2;
            auto C = d.getCurrentCactus();
            Gr H; H.n = C->n();
            std::vector<int> pos;
            for (int v = 0; v < g.n; ++v) pos.push_back(C->getCurrentPosition(v));
            for (int p : pos) if (p < 0 || p >= H.n) { odd = true; return; }
            if (!kn) return;
            for (NodeID a : C->nodes()) for (auto x : C->edges_of(a)) if (a < C->getEdgeTarget(a, x)) H.e.push_back({(int)a, (int)C->getEdgeTarget(a, x), C->getEdgeWeight(a, x)});
            Cuts R;
            if (!cutsOf(H, lam, pos, R, 14)) return;
            if (R.empty() || (full && R != cuts)) odd = true;
            for (auto& s : R) if (!cuts.count(s)) odd = true;
        };
        auto obs = [&](ull v) {
            std::vector<int> side;
            if (bal && v > 0) for (int i = 0; i < g.n; ++i) if (d.getOriginalGraph()->getNodeInCut(i)) side.push_back(i);
            return "\"v\":" + std::to_string(unscale(v, 1)) + ",\"cur\":" + std::to_string(unscale(d.getCurrentCut(), 1)) + ",\"side\":" + jarr(side) + "," + cactusJson(d.getCurrentCactus(), g.n);
        };
        std::string o = "{\"k\":\"init\",\"st\":\"ok\",\"u\":0,\"v0\":0,\"w\":0," + obs(d.initialize(G)) + "}";
        look('i');
        for (auto& op : ops) {
            ull v = op.k == 'a' ? d.addEdge(op.u, op.v, op.w) : d.removeEdge(op.u, op.v);
            if (op.k == 'a') c.e.push_back({op.u, op.v, op.w});
            else for (size_t j = 0; j < c.e.size(); ++j) if ((c.e[j].u == op.u && c.e[j].v == op.v) || (c.e[j].v == op.u && c.e[j].u == op.v)) { c.e.erase(c.e.begin() + j); break; }
            look(op.k);
            o += ",{\"k\":\"" + std::string(op.k == 'a' ? "add" : "del") + "\",\"st\":\"ok\",\"u\":" + std::to_string(op.u) + ",\"v0\":" + std::to_string(op.v) + ",\"w\":" + std::to_string(op.w) + "," + obs(v) + "}";
        }
        return (odd ? "@" : "") + o;
    }, 60);
    std::string st = "ok", body = res[0];
    int sus = body[0] == '!';
    if (body[0] == '@') sus = 1, body = body.substr(1);
    if (body[0] != '!') { // native triage: the value after every operation
        Gr c = g;
        size_t at = 0;
        for (size_t i = 0; i <= ops.size(); ++i) {
            if (i) {
                auto& o = ops[i - 1];
                if (o.k == 'a') c.e.push_back({o.u, o.v, o.w});
                else for (size_t j = 0; j < c.e.size(); ++j) if ((c.e[j].u == o.u && c.e[j].v == o.v) || (c.e[j].v == o.u && c.e[j].u == o.v)) { c.e.erase(c.e.begin() + j); break; }
            }
            at = body.find("\"v\":", at + 1);
            if (g.n < 60 || i % 3 == 0) if (std::stoull(body.substr(at + 4)) != swNative(c)) sus = 1;
        }
    }
    if (body[0] == '!') {
        st = body.substr(1); body = "";
        for (auto& op : ops) body += std::string(body.empty() ? "" : ",") + "{\"k\":\"" + (op.k == 'a' ? "add" : "del") + "\",\"u\":" + std::to_string(op.u) + ",\"v0\":" + std::to_string(op.v) + ",\"w\":" + std::to_string(op.w) + "}";
    }
    if (!keep(sus)) return;
    fprintf(OUT, "{\"id\":\"%d-%ld\",\"cat\":%s,\"n\":%d,\"e\":%s,\"st\":\"%s\",\"bal\":%d,\"sus\":%d,\"th\":%d,\"rseed\":%d,\"ops\":[%s]}\n", opt.shard, it, jstr(g.cat).c_str(), g.n,
            jedges(g).c_str(), st.c_str(), bal, sus, th, (int)(seed & 0xffff), body.c_str());
}

// histories enumerated by the specification: {"n":..,"e":[[u,v,w]..],"ops":[[k,u,v,w,lam]..]}
static std::vector<std::pair<Gr, std::vector<Op>>> readHistories(const std::string& f) {
    std::vector<std::pair<Gr, std::vector<Op>>> out;
    std::ifstream in(f);
    auto nums = [](const std::string& s) { std::vector<long> v; for (size_t i = 0; i < s.size();) { if (isdigit(s[i])) { v.push_back(std::stol(s.substr(i))); while (i < s.size() && isdigit(s[i])) ++i; } else ++i; } return v; };
    for (std::string l; std::getline(in, l);) {
        size_t pe = l.find("\"e\":"), po = l.find("\"ops\":"), pn = l.find("\"n\":");
        Gr g; g.cat = "spec"; g.n = std::stoi(l.substr(pn + 4));
        auto e = nums(l.substr(pe, po - pe));
        auto o = nums(l.substr(po));
        for (size_t i = 0; i + 2 < e.size(); i += 3) g.e.push_back({(int)e[i], (int)e[i + 1], (ull)e[i + 2]});
        std::vector<Op> ops;
        for (size_t i = 0; i + 4 < o.size(); i += 5) ops.push_back({o[i] ? 'a' : 'd', (int)o[i + 1], (int)o[i + 2], (ull)o[i + 3]});
        out.push_back({g, ops});
    }
    return out;
}

int main(int ac, char** av) {
    parseOpt(ac, av);
    if (!opt.in.empty()) {
        auto hs = readHistories(opt.in);
        for (long it = std::max(0L, opt.only); it < std::max((long)hs.size(), opt.only + 1) && !opt.timeUp(); ++it) {
            if (!(opt.only >= 0 ? it == opt.only : it % opt.nshards == opt.shard)) continue;
            Rng r = rngFor(it);
            one(r, hs[it].first, it, hs[it].second);
        }
        fclose(OUT);
        return 0;
    }
    for (long it = std::max(0L, opt.only); it < std::max(opt.count, opt.only + 1) && !opt.timeUp(); ++it) {
        if (!opt.mine(it)) continue;
        Rng r = rngFor(it);
        Gr g;
        if (it % 100 == 7) { auto o = longHistory(r, g); one(r, g, it, o); continue; }
        if (it % 25 == 3) { auto o = starHistory(r, g); one(r, g, it, o); continue; }
        if (it % 4 == 1) { auto o = cacheHistory(r, g); one(r, g, it, o); continue; }
        int n = ri(r, 3, coin(r, 80) ? 8 : 11);
        ull wm[] = {1, 1, 2, 4};
        if (coin(r, 15)) { g.n = n; g.cat = "empty"; }
        else g = genGraph(r, r() % NCAT, n, wm[r() % 4]);
        auto o = history(r, g, opt.thorough() ? ri(r, 5, 60) : ri(r, 5, 30), r() % 6, wm[r() % 4]);
        one(r, g, it, o);
    }
    fclose(OUT);
    return 0;
}
