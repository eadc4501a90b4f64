// Shared parts of the conformance drivers: seeded graph generation, conversion
// into the library's graph types, ndjson output, and process isolation (a
// crash, a hang or an exit() of the code under test becomes an observation).
#pragma once
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include "data_structure/graph_access.h"
#include "data_structure/mutable_graph.h"

typedef unsigned long long ull;
typedef std::mt19937 Rng;

struct WEdge { int u, v; ull w; };
struct Gr {
    int n = 0;
    std::vector<WEdge> e;
    ull scale = 1;       // every weight is a multiple of scale
    std::string cat;
    int k = 0;           // terminals (multiway cut)
    std::vector<int> term;
};

// ---------------------------------------------------------------- options
struct Opt {
    uint64_t seed = 1; int shard = 0, nshards = 1; long count = 100;
    double secs = 1e9; long only = -1; std::string tier = "quick", in, mode, out;
    std::map<std::string, std::string> kv;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    bool timeUp() const {
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs;
    }
    // is case number it to be run by this shard?
    bool mine(long it, bool given = false) const {
        if (only >= 0) return it == only;
        return !given || (int)(it % nshards) == shard;
    }
    bool thorough() const { return tier == "thorough"; }
};
static Opt opt;
static FILE* OUT = stdout;
static void parseOpt(int ac, char** av) {
    for (int i = 1; i + 1 < ac; i += 2) {
        std::string a = av[i], b = av[i + 1];
        if (a == "--seed") opt.seed = strtoull(b.c_str(), 0, 10);
        else if (a == "--shard") opt.shard = atoi(b.c_str());
        else if (a == "--nshards") opt.nshards = atoi(b.c_str());
        else if (a == "--count") opt.count = atol(b.c_str());
        else if (a == "--secs") opt.secs = atof(b.c_str());
        else if (a == "--tier") opt.tier = b;
        else if (a == "--in") opt.in = b;
        else if (a == "--mode") opt.mode = b;
        else if (a == "--only") opt.only = atol(b.c_str());
        else if (a == "--out") opt.out = b;
        else opt.kv[a] = b;
    }
    if (!opt.out.empty()) OUT = fopen(opt.out.c_str(), "w");
    else OUT = fdopen(dup(1), "w");
    fflush(stdout);
    // the library prints to stdout: keep it out of the records
    if (!freopen("/dev/null", "w", stdout)) abort();
}
// --keep N: at most N records without suspicion are written per shard, so that
// many more cases can be run than the specification can judge
static bool keep(bool sus) {
    static long left = opt.kv.count("--keep") && opt.only < 0 ? std::stol(opt.kv["--keep"]) : LONG_MAX;
    return sus || left-- > 0;
}
static uint64_t schedCase = 0;       // the last case a generator was made for
static Rng rngFor(uint64_t it, uint64_t salt = 0) {
    schedCase = it;
    std::seed_seq s{(uint32_t)opt.seed, (uint32_t)(opt.seed >> 32), (uint32_t)opt.shard,
                    (uint32_t)it, (uint32_t)salt};
    return Rng(s);
}

// ---------------------------------------------------------------- json
static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if ((unsigned char)c < 32) o += ' ';
        else o += c;
    }
    return o + "\"";
}
template <class V> static std::string jarr(const V& v) {
    std::string o = "[";
    bool f = true;
    for (auto x : v) { if (!f) o += ","; f = false; o += std::to_string((long long)x); }
    return o + "]";
}
// a weight in units of the graph's scale; values a 32-bit checker cannot
// represent, or that are no multiple of the scale, become distinguishable junk
static long long unscale(ull x, ull scale) {
    if (x % scale) return -7;
    x /= scale;
    if (x > 2000000000ULL) return 2000000000LL;
    return (long long)x;
}
static std::string jedges(const Gr& g) {
    std::string o = "[";
    bool f = true;
    for (auto& x : g.e) {
        if (!f) o += ","; f = false;
        o += "[" + std::to_string(x.u) + "," + std::to_string(x.v) + "," +
             std::to_string(unscale(x.w, g.scale)) + "]";
    }
    return o + "]";
}

// ---------------------------------------------------------------- isolation
#ifdef SCHED
// the driver was built with the controlled scheduler: every run gets a schedule
// of its own, a function of the seed, the shard and the number of the run
#include "../sched/sched.h"
static std::string scheduled(int i, int k, const std::function<std::string(int)>& f) {
    std::seed_seq q{(uint32_t)opt.seed, (uint32_t)opt.shard, (uint32_t)schedCase, (uint32_t)i, 77u};
    Rng r(q);
    int how = r() % 5;
    int par = how < 3 ? 1 + r() % 6 : (const int[]){2, 5, 20, 100, 400}[r() % 5];
    long len = (const long[]){200, 1000, 5000, 30000}[r() % 4];
    sched::ompThreads = 2 + r() % 2;
    sched::begin(r(), how < 3 ? 1 : 0, par, len, 60000000);
    std::string s = f(i);
    sched::end();
    return s;
}
#else
static std::string scheduled(int i, int, const std::function<std::string(int)>& f) { return f(i); }
#endif
// Runs f(0..k-1) in forked children; each f(i) returns a one-line result.
// A child that dies is replaced, the configuration it died in is reported as
// "!SIG<n>", "!EXIT<n>" or "!HANG".
static std::vector<std::string> isolated(int k, const std::function<std::string(int)>& f,
                                         int secsEach = 20) {
    std::vector<std::string> res;
    while ((int)res.size() < k) {
        int p[2];
        if (pipe(p)) abort();
        fflush(OUT);
        pid_t c = fork();
        if (c == 0) {
            close(p[0]);
            if (!freopen("/dev/null", "w", stderr)) _exit(99);
            for (int i = (int)res.size(); i < k; ++i) {
                alarm(secsEach);
                std::string s = scheduled(i, k, f) + "\n";
                alarm(0);
                size_t o = 0;
                while (o < s.size()) {
                    ssize_t w = write(p[1], s.data() + o, s.size() - o);
                    if (w <= 0) _exit(98);
                    o += w;
                }
            }
            _exit(0);
        }
        close(p[1]);
        std::string buf;
        char b[65536];
        ssize_t r;
        while ((r = read(p[0], b, sizeof b)) > 0) buf.append(b, r);
        close(p[0]);
        int st;
        waitpid(c, &st, 0);
        size_t pos = 0, nl;
        while ((nl = buf.find('\n', pos)) != std::string::npos && (int)res.size() < k) {
            res.push_back(buf.substr(pos, nl - pos));
            pos = nl + 1;
        }
        if ((int)res.size() < k) {
            std::string why;
            if (WIFSIGNALED(st)) why = WTERMSIG(st) == SIGALRM ? "!HANG" : "!SIG" + std::to_string(WTERMSIG(st));
            else why = "!EXIT" + std::to_string(WEXITSTATUS(st));
            res.push_back(why);
        }
    }
    return res;
}

// ---------------------------------------------------------------- graphs
static graphAccessPtr toGA(const Gr& g) {
    auto G = std::make_shared<graph_access>();
    std::vector<std::vector<std::pair<int, ull>>> a(g.n);
    for (auto& x : g.e) { a[x.u].push_back({x.v, x.w}); a[x.v].push_back({x.u, x.w}); }
    G->start_construction(g.n, 2 * g.e.size());
    for (int u = 0; u < g.n; u++) {
        NodeID id = G->new_node();
        for (auto& [v, w] : a[u]) { auto e = G->new_edge(id, v); G->setEdgeWeight(e, w); }
    }
    G->finish_construction();
    return G;
}
static mutableGraphPtr toMG(const Gr& g) {
    auto G = std::make_shared<mutable_graph>();
    G->start_construction(g.n);
    for (auto& x : g.e) G->new_edge_order(x.u, x.v, x.w);
    G->finish_construction();
    return G;
}

struct Build {
    std::map<std::pair<int, int>, ull> m;
    void add(int a, int b, ull w) { if (a != b) m[{std::min(a, b), std::max(a, b)}] += w; }
    bool has(int a, int b) const { return m.count({std::min(a, b), std::max(a, b)}); }
};
static int ri(Rng& r, int lo, int hi) { return lo + (int)(r() % (unsigned)(hi - lo + 1)); }
static bool coin(Rng& r, int pct) { return (int)(r() % 100) < pct; }

// merges pairs, relabels and reorders at random
static Gr finish(Rng& r, int n, const Build& b, const std::string& cat, bool shuffle = true) {
    Gr g;
    g.n = n;
    g.cat = cat;
    std::vector<int> pm(n);
    std::iota(pm.begin(), pm.end(), 0);
    if (shuffle) std::shuffle(pm.begin(), pm.end(), r);
    for (auto& [k, w] : b.m) {
        int u = pm[k.first], v = pm[k.second];
        if (r() & 1) std::swap(u, v);
        g.e.push_back({u, v, w});
    }
    if (shuffle) std::shuffle(g.e.begin(), g.e.end(), r);
    return g;
}

static void clique(Rng& r, Build& b, int lo, int hi, ull wl, ull wh) {
    for (int i = lo; i < hi; ++i)
        for (int j = i + 1; j < hi; ++j) b.add(i, j, wl + r() % (wh - wl + 1));
}

static const int NCAT = 16;
// a random graph of a given category with about n vertices (2 <= n)
static Gr genGraph(Rng& r, int cat, int n, ull wmax) {
    Build b;
    auto W = [&] { return 1 + r() % wmax; };
    switch (cat) {
    case 0: {  // gnp
        double p = (5 + r() % 95) / 100.0;
        for (int i = 0; i < n; ++i)
            for (int j = i + 1; j < n; ++j) if (r() % 10000 < p * 10000) b.add(i, j, W());
        if (coin(r, 85)) for (int i = 1; i < n; ++i) b.has(ri(r, 0, i - 1), i) ? (void)0 : b.add(ri(r, 0, i - 1), i, W());
        return finish(r, n, b, "gnp"); }
    case 1: {  // cycle with chords
        for (int i = 0; i < n; ++i) if (n > 2 || i == 0) b.add(i, (i + 1) % n, W());
        int c = r() % (1 + n / 2);
        while (c--) { int i = r() % n, j = r() % n; if (!b.has(i, j)) b.add(i, j, W()); }
        return finish(r, n, b, "cycle"); }
    case 2: {  // tree and a few extra edges
        for (int i = 1; i < n; ++i) b.add(ri(r, coin(r, 30) ? std::max(0, i - 2) : 0, i - 1), i, W());
        int c = r() % (2 + n / 3);
        while (c--) { int i = r() % n, j = r() % n; if (!b.has(i, j)) b.add(i, j, W()); }
        return finish(r, n, b, "tree"); }
    case 3: {  // clusters joined by light bridges
        int k = ri(r, 2, std::max(2, std::min(6, n / 2)));
        std::vector<int> st{0};
        for (int i = 1; i < k; ++i) st.push_back(i * n / k);
        st.push_back(n);
        for (int i = 0; i < k; ++i) clique(r, b, st[i], st[i + 1], wmax, 3 * wmax);
        for (int i = 1; i < k; ++i) {
            int j = ri(r, 0, i - 1), c = ri(r, 1, 3);
            while (c--) b.add(ri(r, st[i], st[i + 1] - 1), ri(r, st[j], st[j + 1] - 1), 1 + r() % std::max<ull>(1, wmax / 2));
        }
        return finish(r, n, b, "clusters"); }
    case 4: {  // cycle of cliques
        int k = ri(r, 2, std::max(2, n / 2));
        if (k > n) k = n;
        for (int i = 0; i < k; ++i) clique(r, b, i * n / k, (i + 1) * n / k, 2 * wmax, 3 * wmax);
        ull w = W();
        for (int i = 0; i < k; ++i) if (k > 2 || i == 0) {
            int j = (i + 1) % k;
            b.add(ri(r, i * n / k, (i + 1) * n / k - 1), ri(r, j * n / k, (j + 1) * n / k - 1), coin(r, 80) ? w : W());
        }
        return finish(r, n, b, "cliquecycle"); }
    case 5: {  // grid or torus
        int a = std::max(2, (int)std::sqrt((double)n)), c = std::max(1, n / a);
        n = a * c;
        bool torus = r() & 1, unit = r() & 1;
        for (int i = 0; i < a; ++i) for (int j = 0; j < c; ++j) {
            int v = i * c + j;
            if (j + 1 < c || (torus && c > 2)) b.add(v, i * c + (j + 1) % c, unit ? 1 : W());
            if (i + 1 < a || (torus && a > 2)) b.add(v, ((i + 1) % a) * c + j, unit ? 1 : W());
        }
        return finish(r, n, b, "grid"); }
    case 6: {  // star or wheel
        bool wheel = r() & 1;
        for (int i = 1; i < n; ++i) b.add(0, i, W());
        if (wheel) for (int i = 1; i < n; ++i) { int j = i + 1 < n ? i + 1 : 1; if (i != j && !b.has(i, j)) b.add(i, j, W()); }
        return finish(r, n, b, "wheel"); }
    case 7: {  // complete
        clique(r, b, 0, n, coin(r, 50) ? wmax : 1, wmax);
        return finish(r, n, b, "complete"); }
    case 8: {  // random cactus, every node blown up to a heavy cluster
        ull w = 1 + r() % std::max<ull>(1, wmax / 2);
        int cn = ri(r, 2, std::max(2, n / 2));
        std::vector<std::pair<int, int>> ce;  // cactus edges, cycles get w, bridges 2w
        std::vector<ull> cw;
        int have = 1;
        while (have < cn) {
            int at = r() % have;
            int len = std::min(cn - have, ri(r, 1, 4));
            if (len == 1) { ce.push_back({at, have}); cw.push_back(2 * w); have++; }
            else {
                int prev = at;
                for (int i = 0; i < len; ++i) { ce.push_back({prev, have}); cw.push_back(w); prev = have++; }
                ce.push_back({prev, at}); cw.push_back(w);
            }
        }
        std::vector<std::vector<int>> mem(have);
        for (int v = 0; v < n; ++v) mem[v < have ? v : (int)(r() % have)].push_back(v);
        for (auto& c : mem)
            for (size_t i = 0; i < c.size(); ++i)
                for (size_t j = i + 1; j < c.size(); ++j)
                    if (c.size() < 5 || coin(r, 60) || j == i + 1) b.add(c[i], c[j], 4 * w + W());
        for (size_t i = 0; i < ce.size(); ++i)
            for (ull t = 0; t < cw[i];) {
                ull p = 1 + r() % (cw[i] - t);
                b.add(mem[ce[i].first][r() % mem[ce[i].first].size()], mem[ce[i].second][r() % mem[ce[i].second].size()], p);
                t += p;
            }
        return finish(r, n, b, "cactus"); }
    case 9: {  // path of cliques with equal links
        int k = ri(r, 2, std::max(2, n / 2));
        ull w = W();
        for (int i = 0; i < k; ++i) clique(r, b, i * n / k, (i + 1) * n / k, 2 * wmax, 2 * wmax + 2);
        for (int i = 0; i + 1 < k; ++i)
            b.add(ri(r, i * n / k, (i + 1) * n / k - 1), ri(r, (i + 1) * n / k, (i + 2) * n / k - 1), coin(r, 80) ? w : W());
        return finish(r, n, b, "cliquepath"); }
    case 10: {  // two or three components
        int c = ri(r, 2, 3);
        for (int i = 0; i < n; ++i) if (i >= c) b.add(i, ri(r, 0, i / c - 1) * c + i % c, W());
        int x = r() % (1 + n);
        while (x--) { int i = r() % n, j = r() % n; if (i % c == j % c && i != j && !b.has(i, j)) b.add(i, j, W()); }
        return finish(r, n, b, "disconnected"); }
    case 11: {  // near-regular circulant: many equal degree cuts
        int d = ri(r, 1, 3);
        for (int i = 0; i < n; ++i) for (int k = 1; k <= d; ++k) if (!b.has(i, (i + k) % n)) b.add(i, (i + k) % n, 1);
        return finish(r, n, b, "circulant"); }
    case 12: {  // two halves, cut smaller than every degree
        int h = ri(r, std::max(1, n / 3), std::max(1, 2 * n / 3));
        if (h >= n) h = n - 1;
        auto half = [&](int lo, int hi) {
            for (int i = lo; i < hi; ++i) for (int j = i + 1; j < hi; ++j) if (coin(r, 60) || j == i + 1) b.add(i, j, wmax + r() % (wmax + 1));
        };
        half(0, h); half(h, n);
        int c = ri(r, 1, 4);
        while (c--) b.add(ri(r, 0, h - 1), ri(r, h, n - 1), W());
        return finish(r, n, b, "halves"); }
    case 13: {  // bipartite
        int h = ri(r, 1, n - 1);
        for (int i = 0; i < h; ++i) for (int j = h; j < n; ++j) if (coin(r, 55)) b.add(i, j, W());
        for (int i = h; i < n; ++i) if (!b.has(0, i) && coin(r, 50)) b.add(0, i, W());
        for (int i = 1; i < h; ++i) if (!b.has(i, h)) b.add(i, h, W());
        if (!b.has(0, h)) b.add(0, h, W());
        return finish(r, n, b, "bipartite"); }
    case 14: {  // preferential attachment with pendant vertices
        std::vector<int> pool{0};
        for (int i = 1; i < n; ++i) {
            int c = coin(r, 25) ? 1 : ri(r, 1, 3);
            std::set<int> to;
            while (c--) to.insert(pool[r() % pool.size()]);
            for (int t : to) { b.add(i, t, W()); pool.push_back(t); pool.push_back(i); }
        }
        return finish(r, n, b, "pref"); }
    default: {  // unlabelled order preserved, small weights: hits vertex 0 / n-1 special cases
        for (int i = 1; i < n; ++i) b.add(i - 1, i, W());
        int c = r() % (1 + n);
        while (c--) { int i = r() % n, j = r() % n; if (!b.has(i, j)) b.add(i, j, W()); }
        return finish(r, n, b, "ordered", false); }
    }
}
static void scaleBy(Gr& g, ull s) {
    for (auto& x : g.e) x.w *= s;
    g.scale *= s;
}

// graphs handed in by the specification (TLC output) or by a replay file
static std::vector<Gr> readGraphs(const std::string& file) {
    std::vector<Gr> gs;
    std::ifstream in(file);
    std::string line;
    auto num = [](const std::string& s, const std::string& key, long long d) -> long long {
        auto p = s.find("\"" + key + "\":");
        return p == std::string::npos ? d : atoll(s.c_str() + p + key.size() + 3);
    };
    auto nums = [](const std::string& s, const std::string& key) {
        std::vector<long long> o;
        auto p = s.find("\"" + key + "\":[");
        if (p == std::string::npos) return o;
        p += key.size() + 3;
        int depth = 0;
        for (size_t i = p; i < s.size(); ++i) {
            char c = s[i];
            if (c == '[') ++depth;
            else if (c == ']') { if (--depth == 0) break; }
            else if (c == '-' || isdigit((unsigned char)c)) {
                char* end;
                o.push_back(strtoll(s.c_str() + i, &end, 10));
                i = end - s.c_str() - 1;
            }
        }
        return o;
    };
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        Gr g;
        g.n = (int)num(line, "n", 0);
        g.scale = (ull)strtoull(std::to_string(num(line, "scale", 1)).c_str(), 0, 10);
        auto v = nums(line, "e");
        for (size_t i = 0; i + 2 < v.size(); i += 3) g.e.push_back({(int)v[i], (int)v[i + 1], (ull)v[i + 2] * g.scale});
        for (auto t : nums(line, "term")) g.term.push_back((int)t);
        g.k = (int)num(line, "k", 0);
        g.cat = "given";
        auto p = line.find("\"cat\":\"");
        if (p != std::string::npos) { auto q = line.find('"', p + 7); g.cat = line.substr(p + 7, q - p - 7); }
        gs.push_back(g);
    }
    return gs;
}

// ---------------------------------------------------------------- triage
// Native oracle. It only decides which records are looked at first: every
// record it finds suspicious goes to the specification, which decides.
static ull swNative(const Gr& g) {
    int n = g.n;
    if (n < 2) return ~0ull;
    std::vector<std::vector<ull>> W(n, std::vector<ull>(n, 0));
    for (auto& x : g.e) if (x.u != x.v) { W[x.u][x.v] += x.w; W[x.v][x.u] += x.w; }
    std::vector<int> act(n);
    std::iota(act.begin(), act.end(), 0);
    ull best = ~0ull;
    while (act.size() > 1) {
        std::vector<ull> key(n, 0);
        std::vector<char> in(n, 0);
        int prev = -1, last = -1;
        for (size_t i = 0; i < act.size(); ++i) {
            int z = -1;
            for (int v : act) if (!in[v] && (z < 0 || key[v] > key[z])) z = v;
            in[z] = 1;
            prev = last; last = z;
            if (i + 1 == act.size()) best = std::min(best, key[z]);
            for (int v : act) if (!in[v]) key[v] += W[z][v];
        }
        for (int v : act) if (v != last && v != prev) { W[prev][v] += W[last][v]; W[v][prev] = W[prev][v]; }
        act.erase(std::find(act.begin(), act.end(), last));
    }
    return best;
}
// sparse graphs too large for a matrix: contract edges heavier than the
// smallest weighted degree, then the matrix version on what is left
static ull mincutNative(Gr g, std::vector<int>* blocks = nullptr, Gr* quotient = nullptr) {
    std::vector<int> lab(g.n);
    std::iota(lab.begin(), lab.end(), 0);
    ull best = ~0ull;
    while (true) {
        std::vector<ull> deg(g.n, 0);
        for (auto& x : g.e) { deg[x.u] += x.w; deg[x.v] += x.w; }
        if (g.n > 1) best = std::min(best, *std::min_element(deg.begin(), deg.end()));
        std::vector<int> p(g.n);
        std::iota(p.begin(), p.end(), 0);
        std::function<int(int)> f = [&](int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; };
        bool ch = false;
        for (auto& x : g.e) if (x.w > best && f(x.u) != f(x.v)) { p[f(x.u)] = f(x.v); ch = true; }
        if (!ch || g.n < 2) break;
        std::vector<int> id(g.n, -1);
        int k = 0;
        for (int v = 0; v < g.n; ++v) if (id[f(v)] < 0) id[f(v)] = k++;
        std::map<std::pair<int, int>, ull> m;
        for (auto& x : g.e) {
            int a = id[f(x.u)], b = id[f(x.v)];
            if (a != b) m[{std::min(a, b), std::max(a, b)}] += x.w;
        }
        for (auto& l : lab) l = id[f(l)];
        g.n = k;
        g.e.clear();
        for (auto& [q, w] : m) g.e.push_back({q.first, q.second, w});
    }
    if (blocks) *blocks = lab;
    if (quotient) *quotient = g;
    if (g.n > 1 && g.n <= 400) best = std::min(best, swNative(g));
    return best;
}
static ull cutNative(const Gr& g, const std::vector<char>& side) {
    ull s = 0;
    for (auto& x : g.e) if (side[x.u] != side[x.v]) s += x.w;
    return s;
}
// all minimum cuts by brute force on the kernel (edges heavier than the cut
// contracted); empty if the kernel is too large
typedef std::set<std::vector<char>> Cuts;
static bool kernel(const Gr& g, ull lam, std::vector<int>& lab, int& k, Cuts* cuts, int limit = 16) {
    lab.resize(g.n);
    std::iota(lab.begin(), lab.end(), 0);
    k = g.n;
    while (true) {
        std::map<std::pair<int, int>, ull> m;
        for (auto& x : g.e) { int a = lab[x.u], b = lab[x.v]; if (a != b) m[{std::min(a, b), std::max(a, b)}] += x.w; }
        std::vector<int> p(k);
        std::iota(p.begin(), p.end(), 0);
        std::function<int(int)> f = [&](int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; };
        bool ch = false;
        for (auto& [q, w] : m) if (w > lam && f(q.first) != f(q.second)) { p[f(q.first)] = f(q.second); ch = true; }
        if (!ch) {
            if (k > limit) return false;
            if (!cuts) return true;
            for (unsigned S = 1; S < (1u << (k - 1)); ++S) {
                ull s = 0;
                for (auto& [q, w] : m) if (((S >> q.first) & 1) != ((S >> q.second) & 1)) s += w;
                if (s == lam) {
                    std::vector<char> side(g.n);
                    for (int v = 0; v < g.n; ++v) side[v] = (S >> lab[v]) & 1;
                    if (side[0]) for (auto& b : side) b = !b;
                    cuts->insert(side);
                }
            }
            return true;
        }
        std::vector<int> id(k, -1);
        int nk = 0;
        for (int v = 0; v < k; ++v) if (id[f(v)] < 0) id[f(v)] = nk++;
        for (auto& l : lab) l = id[f(l)];
        k = nk;
    }
}
// the cuts of weight lam of a graph H, pulled back along pos; false: not known
static bool cutsOf(const Gr& H, ull lam, const std::vector<int>& pos, Cuts& back, int limit = 16) {
    std::vector<int> lab; int k;
    Cuts hc;
    if (!kernel(H, lam, lab, k, &hc, limit)) return false;
    for (auto& h : hc) {
        std::vector<char> s(pos.size());
        for (size_t u = 0; u < pos.size(); ++u) s[u] = pos[u] >= 0 && pos[u] < H.n ? h[pos[u]] : 2;
        if (s[0]) for (auto& b : s) b = !b;
        back.insert(s);
    }
    return true;
}
