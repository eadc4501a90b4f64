// Histories of the disjoint set structures.  Sequential build: every call and
// its result.  PARALLEL build: calls of several threads under a controlled
// schedule, each with the logical times of its invocation and response.
#ifdef PARALLEL
#include "parallel/data_structure/union_find.h"
#include "../sched/sched.h"
#else
#include "data_structure/union_find.h"
#endif
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "common.h"


struct Op { int t, k, a, b; long inv = 0, resp = 0; int ret = 0; };   // k: 0 Union 1 SameSet 2 Find
struct Case { int n, threads; std::vector<Op> pre, ops; uint64_t seed; int strat, param; bool copy; };

static Case gen(Rng& r) {
    Case c;
    c.n = coin(r, 60) ? ri(r, 2, 5) : ri(r, 3, 9);
    c.seed = r();
#ifdef PARALLEL
    c.threads = ri(r, 2, 4);
    int per = ri(r, 1, c.threads == 2 ? 5 : 3);
#else
    c.threads = 1;
    int per = ri(r, 5, 40);
    if (coin(r, 30)) c.n = ri(r, 10, 30);
#endif
    c.strat = r() % 3;
    c.param = c.strat == 0 ? (const int[]){1, 2, 4, 12}[r() % 4] : c.strat == 1 ? ri(r, 1, 6) : ri(r, 1, 7);
    c.copy = coin(r, 20);
    auto elem = [&] { return (int)(r() % c.n); };
    int np = coin(r, 40) ? 0 : ri(r, 0, c.n);
    bool chain = coin(r, 40);
    for (int i = 0; i < np; ++i)
        c.pre.push_back({0, 0, chain ? i % c.n : elem(), chain ? (i + 1) % c.n : elem()});
    int hot = coin(r, 40) ? ri(r, 2, std::min(4, c.n)) : c.n;   // contention
    for (int t = 0; t < c.threads; ++t)
        for (int i = 0; i < per; ++i) {
            int k = r() % 10;
            c.ops.push_back({t, k < 6 ? 0 : k < 8 ? 1 : 2, (int)(r() % hot), (int)(r() % hot)});
        }
    return c;
}
static int doOp(union_find& u, const Op& o) {
#ifdef PARALLEL
    if (o.k == 1) return (int)u.SameSet(o.a, o.b);
#else
    if (o.k == 1) return (int)(u.Find(o.a) == u.Find(o.b));
#endif
    return o.k == 0 ? (int)u.Union(o.a, o.b) : (int)u.Find(o.a);
}
static std::string jops(const std::vector<Op>& v) {
    std::string s = "[";
    for (auto& o : v) {
        if (s.size() > 1) s += ",";
        s += "[" + std::to_string(o.t) + "," + std::to_string(o.k) + "," + std::to_string(o.a) + "," + std::to_string(o.b) + "," +
             std::to_string(o.inv) + "," + std::to_string(o.resp) + "," + std::to_string(o.ret) + "]";
    }
    return s + "]";
}

// ------------------------------------------------------------- triage
typedef std::vector<int> Part;
static void merge(Part& p, int a, int b) { int x = p[a], y = p[b]; if (x != y) { int m = std::min(x, y); for (int& z : p) if (z == x || z == y) z = m; } }
static bool fits(const Part& p, const Op& o) {
    if (o.k == 2) return o.ret >= 0 && o.ret < (int)p.size() && p[o.ret] == p[o.a];
    return (o.ret != 0) == ((p[o.a] == p[o.b]) == (o.k == 1));
}
static bool linear(const Case& c, const std::vector<int>& fin, int cnt) {
    Part p(c.n);
    std::iota(p.begin(), p.end(), 0);
    for (auto& o : c.pre) merge(p, o.a, o.b);
    std::vector<std::pair<long, int>> ev;
    int m = c.ops.size();
    for (int i = 0; i < m; ++i) ev.push_back({c.ops[i].inv, i}), ev.push_back({c.ops[i].resp, m + i});
    std::sort(ev.begin(), ev.end());
    std::set<std::pair<Part, std::vector<bool>>> S{{p, std::vector<bool>(m)}};
    std::vector<bool> open(m);
    for (auto& [t, e] : ev) {
        if (e < m) { open[e] = true; continue; }
        // close under linearising pending calls
        std::vector<std::pair<Part, std::vector<bool>>> todo(S.begin(), S.end());
        while (todo.size()) {
            auto [q, d] = todo.back(); todo.pop_back();
            for (int i = 0; i < m; ++i) if (open[i] && !d[i] && fits(q, c.ops[i])) {
                auto q2 = q; auto d2 = d; d2[i] = true;
                if (c.ops[i].k == 0) merge(q2, c.ops[i].a, c.ops[i].b);
                if (S.insert({q2, d2}).second) todo.push_back({q2, d2});
            }
        }
        for (auto it = S.begin(); it != S.end();) if (!it->second[e - m]) it = S.erase(it); else ++it;
        open[e - m] = false;
    }
    for (auto& [q, d] : S) {
        bool ok = cnt == (int)std::set<int>(q.begin(), q.end()).size();
        for (int i = 0; i < c.n && ok; ++i) {
            ok = fin[i] >= 0 && fin[i] < c.n && q[fin[i]] == q[i];
            for (int j = 0; j < i && ok; ++j) ok = (fin[i] == fin[j]) == (q[i] == q[j]);
        }
        if (ok) return true;
    }
    return false;
}

int main(int ac, char** av) {
    parseOpt(ac, av);
    std::vector<Case> given;
    if (!opt.in.empty()) {       // histories of the specification
        std::ifstream in(opt.in);
        std::string l;
        while (std::getline(in, l)) {
            std::vector<int> v;
            for (size_t i = 0; i < l.size(); ++i) if (isdigit((unsigned char)l[i])) { char* e; v.push_back(strtol(&l[i], &e, 10)); i = e - &l[0] - 1; }
            if (v.size() < 1) continue;
            Case c; c.n = v[0]; c.threads = 1; c.seed = 1; c.strat = 0; c.param = 1; c.copy = false;
            for (size_t i = 1; i + 3 < v.size(); i += 4) {
                c.ops.push_back({v[i], v[i + 1], v[i + 2], v[i + 3]});
                c.threads = std::max(c.threads, v[i] + 1);
            }
            std::stable_sort(c.ops.begin(), c.ops.end(), [](const Op& a, const Op& b) { return a.t < b.t; });
            given.push_back(c);
        }
    }
    bool gv = !opt.in.empty();
    int reps = gv && opt.kv.count("--reps") ? atoi(opt.kv["--reps"].c_str()) : 1;
    long total = gv ? (long)given.size() * reps : std::max(opt.count, opt.only + 1);
    auto make = [&](long it) {
        Rng r = rngFor(it);
        Case c;
        if (gv) {
            c = given[it % given.size()];
            c.seed = r(); c.strat = r() % 3;
            c.param = c.strat == 0 ? (const int[]){1, 2, 4, 12}[r() % 4] : c.strat == 1 ? ri(r, 1, 6) : ri(r, 1, 7);
        } else c = gen(r);
        return c;
    };
    long it = std::max(0L, opt.only);
    while (it < total && !opt.timeUp()) {
        std::vector<long> ids;
        std::vector<Case> cs;
        for (; it < total && ids.size() < 64; ++it) if (opt.mine(it, gv)) { ids.push_back(it); cs.push_back(make(it)); }
        if (ids.empty()) break;
        auto res = isolated(ids.size(), [&](int ci) {
            Case c = cs[ci];
            union_find u0(c.n);
            for (auto& o : c.pre) o.ret = doOp(u0, o);
            union_find* up = &u0;
            union_find cp(u0);
            if (c.copy) up = &cp;
            union_find& u = *up;
            std::vector<int> ns;
#ifdef PARALLEL
            std::vector<std::thread> th;
            sched::begin(c.seed, c.strat, c.param, 60 * c.ops.size(), 200000);
            for (int t = 1; t < c.threads; ++t)
                th.emplace_back([&, t] { for (auto& o : c.ops) if (o.t == t) { sched::point(); o.inv = sched::now(); o.ret = doOp(u, o); o.resp = sched::now(); sched::point(); } });
            for (auto& o : c.ops) if (o.t == 0) { sched::point(); o.inv = sched::now(); o.ret = doOp(u, o); o.resp = sched::now(); sched::point(); }
            for (auto& x : th) x.join();
            sched::end();
            for (auto& o : c.ops) o.inv = 2 * o.inv, o.resp = 2 * o.resp + 1;
#else
            long clk = 0;
            for (auto& o : c.ops) { o.inv = ++clk; o.ret = doOp(u, o); o.resp = ++clk; ns.push_back(u.n()); }
#endif
            int cnt = u.n();
            std::vector<int> fin;
            for (int i = 0; i < c.n; ++i) fin.push_back((int)u.Find(i));
            bool sus = !linear(c, fin, cnt);
#ifndef PARALLEL
            Part p(c.n); std::iota(p.begin(), p.end(), 0);
            for (auto& o : c.pre) { if (!fits(p, o)) sus = true; merge(p, o.a, o.b); }
            for (size_t i = 0; i < ns.size(); ++i) { if (c.ops[i].k == 0) merge(p, c.ops[i].a, c.ops[i].b); if (ns[i] != (int)std::set<int>(p.begin(), p.end()).size()) sus = true; }
#endif
            return std::string("\"sus\":") + (sus ? "1" : "0") + ",\"pre\":" + jops(c.pre) + ",\"ops\":" + jops(c.ops) +
                   ",\"ns\":" + jarr(ns) + ",\"fin\":" + jarr(fin) + ",\"cnt\":" + std::to_string(cnt);
        }, 10);
        for (size_t ci = 0; ci < ids.size(); ++ci) {
            bool ok = res[ci][0] != '!';
            Case& c = cs[ci];
            if (!keep(!ok || res[ci].find("\"sus\":0") == std::string::npos)) continue;
            fprintf(OUT, "{\"id\":\"%d-%ld\",\"n\":%d,\"st\":\"%s\",%s}\n", opt.shard, ids[ci], c.n, ok ? "ok" : res[ci].c_str() + 1,
                    ok ? res[ci].c_str() : ("\"sus\":1,\"pre\":" + jops(c.pre) + ",\"ops\":" + jops(c.ops) + ",\"ns\":[],\"fin\":[],\"cnt\":0").c_str());
        }
        fflush(OUT);
    }
    fclose(OUT);
    return 0;
}
