// The command line tools themselves: graph files in, RESULT lines and files out;
// and the choice of terminals, which is made from command line options.
#include "algorithms/multicut/multiterminal_cut.h"
#include "common.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>

struct Call { std::string tool; std::vector<std::string> args; };
static std::string DIR;
static void put(const std::string& f, const std::string& s) { std::ofstream o(f); o << s; }
static std::string metis(const Gr& g, bool weighted) {
    std::vector<std::vector<std::pair<int, ull>>> adj(g.n);
    for (auto& e : g.e) adj[e.u].push_back({e.v, e.w}), adj[e.v].push_back({e.u, e.w});
    std::string s = std::to_string(g.n) + " " + std::to_string(g.e.size()) + (weighted ? " 1" : "") + "\n";
    for (auto& a : adj) {
        for (auto& [t, w] : a) s += std::to_string(t + 1) + " " + (weighted ? std::to_string(w) + " " : "");
        s += "\n";
    }
    return s;
}
// runs a tool in its own directory; standard output and error
static std::string call(const Call& c, int& rc) {
    int p[2];
    if (pipe(p)) abort();
    pid_t pid = fork();
    if (pid == 0) {
        dup2(p[1], 1); dup2(p[1], 2); close(p[0]); close(p[1]);
        std::vector<char*> a;
        std::string exe = opt.kv["--bin"] + "/" + c.tool;
        a.push_back((char*)exe.c_str());
        for (auto& x : c.args) a.push_back((char*)x.c_str());
        a.push_back(nullptr);
        execv(exe.c_str(), a.data());
        _exit(127);
    }
    close(p[1]);
    std::string out;
    char b[4096];
    for (ssize_t k; (k = read(p[0], b, sizeof b)) > 0;) out.append(b, k);
    close(p[0]);
    int st;
    waitpid(pid, &st, 0);
    rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    return out;
}
static std::vector<long> field(const std::string& out, const std::string& key, ull scale = 1) {
    std::vector<long> r;
    std::istringstream in(out);
    for (std::string l; std::getline(in, l);) {
        size_t p = l.find("RESULT");
        if (p == std::string::npos) continue;
        size_t q = l.find(" " + key + "=", p);
        r.push_back(q == std::string::npos ? -7 : (long)unscale(strtoull(l.c_str() + q + key.size() + 2, 0, 10), scale));
    }
    return r;
}
static std::vector<long> numbers(const std::string& f) {
    std::vector<long> r;
    std::ifstream in(f);
    for (long x; in >> x;) r.push_back(x);
    return r;
}
struct Case { std::string kind, c, want = "none", how; Gr g; Call call; int its = 1, k = 0, b = 1, pct = 0, rnd = 0; std::string gk = "exact"; bool weighted = true; std::vector<int> term, ids, pos; std::vector<std::array<long, 3>> ops; std::vector<int> ts; int batch = 0; uint32_t seed; };

static ull cutOf(const Gr& g, const std::vector<long>& s) { ull w = 0; for (auto& e : g.e) if (s[e.u] != s[e.v]) w += e.w; return w; }
static ull optNative(const Gr& g, const std::vector<int>& term, int k) {
    std::vector<int> lab = term, fr;
    for (int i = 0; i < g.n; ++i) if (term[i] < 0) fr.push_back(i);
    ull best = ~0ull;
    std::function<void(size_t)> go = [&](size_t i) {
        if (i == fr.size()) { ull c = 0; for (auto& e : g.e) if (lab[e.u] != lab[e.v]) c += e.w; best = std::min(best, c); return; }
        for (int t = 0; t < k; ++t) { lab[fr[i]] = t; go(i + 1); }
    };
    go(0);
    return best;
}
static std::string goTool(const Case& c) {
    std::string d = DIR + "/t" + std::to_string(getpid());
    mkdir(d.c_str(), 0777);
    if (chdir(d.c_str())) _exit(97);
    put("g", metis(c.g, c.weighted));
    if (c.kind == "dynamic") {
        std::string s;
        size_t t = 0;
        for (auto& o : c.ops) s += std::to_string(o[0] + 1) + " " + std::to_string(o[1] + 1) + " " + std::to_string(o[2]) + " " + std::to_string(c.ts[t++]) + "\n";
        put("d", s);
    }
    if (c.how == "pre" || c.how == "order") {
        std::string s, q;
        for (int x : c.ids) s += std::to_string(x < 0 ? c.k : x) + "\n";
        for (int x : c.pos) q += std::to_string(x) + "\n";
        std::string f = "part." + std::to_string(c.k) + (c.how == "pre" ? ".pre" : "");
        put(f, s);
        if (c.how == "order") put(f + ".pos", q);
    }
    bool sus = false;
    int rc;
    std::string s;
    std::string out = call(c.call, rc);
    std::vector<long> v, side, rn, rm;
    std::string oe = "[]";
    if (c.kind == "mincut") {
        v = field(out, "cut", c.g.scale); rn = field(out, "n"); rm = field(out, "m");
        if (c.want == "side") side = numbers("o");
        ull lam = mincutNative(c.g) / c.g.scale;
        sus |= (int)v.size() != c.its || rn.empty() || rn.back() != c.g.n || rm.back() != (long)c.g.e.size();
        for (long x : v) sus |= c.gk == "exact" ? x != (long)lam : c.gk == "matula" ? x < (long)lam || x > 2 * (long)lam + 1 : x < (long)lam;
        if (c.want == "side" && (sus || (int)side.size() != c.g.n || cutOf(c.g, side) / c.g.scale != (ull)v.back())) sus = true;
    } else if (c.kind == "multi") {
        v = field(out, "cut", c.g.scale);
        if (c.want == "side") side = numbers("solution");
        ull best = optNative(c.g, c.term, c.k);
        sus |= v.size() != 1 || v[0] != (long)(best / c.g.scale) || (c.want == "side" && ((int)side.size() != c.g.n || cutOf(c.g, side) != best));
    } else if (c.kind == "dynamic") {
        for (const char* k : {"cutchange", "insert", "delete"}) { auto x = field(out, k); v.push_back(x.empty() ? -1 : x[0]); }
        Gr h = c.g;
        ull lam = mincutNative(h);
        long ch = 0, ins = 0;
        for (size_t j = 0; j < c.ops.size(); ++j) {
            auto& o = c.ops[j];
            if (o[2] > 0) { h.e.push_back({(int)o[0], (int)o[1], (ull)o[2]}); ++ins; }
            else { std::vector<WEdge> e; for (auto& x : h.e) if (!((x.u == o[0] && x.v == o[1]) || (x.v == o[0] && x.u == o[1]))) e.push_back(x); h.e = e; }
            if (c.batch && j + 1 < c.ops.size() && c.ts[j + 1] == c.ts[j]) continue;
            ull l = mincutNative(h);
            ch += l != lam; lam = l;
        }
        sus |= v != std::vector<long>{ch, ins, (long)c.ops.size() - ins};
    } else {
        std::ifstream in("g.cc");
        std::string l;
        std::getline(in, l);
        std::istringstream h(l);
        long n = -1, m = -1, f = 0;
        h >> n >> m >> f;
        rn.push_back(n);
        std::string s;
        for (long u = 0; u < n && std::getline(in, l); ++u) {
            std::istringstream q(l);
            for (long t, w; q >> t;) { w = c.weighted ? 0 : 1; if (c.weighted) q >> w; if (t - 1 > u) s += (s.empty() ? "[" : ",[") + std::to_string(u) + "," + std::to_string(t - 1) + "," + std::to_string(w) + "]"; }
        }
        oe = "[" + s + "]";
    }
    // nothing may be left behind in the working directory but what was asked for
    if (rc) return "!EXIT" + std::to_string(rc);
    std::string cmd;
    for (const char* f : {"g", "d", "o", "solution", "g.cc"}) unlink(f);
    if (c.k) { std::string f = "part." + std::to_string(c.k); unlink(f.c_str()); unlink((f + ".pre").c_str()); unlink((f + ".pos").c_str()); }
    if (chdir("/")) _exit(96);
    rmdir(d.c_str());
    return "\"v\":" + jarr(v) + ",\"rn\":" + std::to_string(rn.empty() ? -1 : rn.back()) + ",\"rm\":" + std::to_string(rm.empty() ? -1 : rm.back()) + ",\"side\":" + jarr(side) + ",\"oe\":" + oe + ",\"map\":[],\"num\":0,\"sus\":" + (sus ? "1" : "0");
}
static std::string goTerm(const Case& c) {
    auto cfg = configuration::getConfig();
    random_functions::setSeed(c.seed);
    cfg->bfs_size = c.b; cfg->preset_percentage = c.pct;
    if (c.how == "id") for (int x : c.ids) cfg->term_strings.push_back(std::to_string(x));
    if (c.how == "top") cfg->top_k = c.k;
    if (c.how == "random") cfg->random_k = c.k;
    if (c.how == "distant") cfg->distant_terminals = c.k;
    std::string f;
    if (c.how == "pre" || c.how == "order") {
        std::string s, q;
        f = DIR + "/part" + std::to_string(getpid()) + "." + std::to_string(c.k) + (c.how == "pre" ? ".pre" : "");
        for (int x : c.ids) s += std::to_string(x < 0 ? c.k : x) + "\n";
        for (int x : c.pos) q += std::to_string(x) + "\n";
        put(f, s);
        if (c.how == "order") put(f + ".pos", q);
        cfg->partition_file = f;
    }
    auto G = toMG(c.g);
    auto m = multiterminal_cut().setOriginalTerminals(G);
    if (!f.empty()) { unlink(f.c_str()); unlink((f + ".pos").c_str()); }
    std::vector<int> mp;
    for (auto x : m) mp.push_back(x == UNDEFINED_NODE ? -1 : (int)x);
    bool sus = (int)cfg->num_terminals != c.k || (int)mp.size() != c.g.n;
    if (c.how != "pre" && c.how != "order") {
        std::map<int, int> cnt;
        for (int x : mp) ++cnt[x];
        int b = c.pct ? std::max(1, c.g.n / std::max(1, c.k) * c.pct / 100) : std::max(1, c.b);
        for (int j = 0; j < c.k; ++j) if (cnt[j] < 1 || cnt[j] > b) sus = true;
        if (c.how == "id") for (int j = 0; j < c.k; ++j) if (mp[c.ids[j]] != j) sus = true;
    } else if (c.how == "pre" && mp != c.ids) sus = true;
    return "\"v\":[],\"rn\":0,\"rm\":0,\"side\":[],\"oe\":[],\"map\":" + jarr(mp) + ",\"num\":" + std::to_string(cfg->num_terminals) + ",\"sus\":" + (sus ? "1" : "0");
}

int main(int ac, char** av) {
    parseOpt(ac, av);
    DIR = opt.kv["--tmp"].empty() ? "/tmp" : opt.kv["--tmp"];
    bool term = opt.mode == "term";
    long total = std::max(opt.count, opt.only + 1);
    for (long it = std::max(0L, opt.only); it < total && !opt.timeUp(); ++it) {
        if (!opt.mine(it)) continue;
        Rng r = rngFor(it);
        ull wm[] = {1, 2, 3, 8, 100};
        Gr g = genGraph(r, r() % NCAT, ri(r, 2, term ? 9 : coin(r, 80) ? 10 : 40), wm[r() % 5]);
        // files have every edge once
        std::map<std::pair<int, int>, ull> mg;
        for (auto& e : g.e) if (e.u != e.v) mg[{std::min(e.u, e.v), std::max(e.u, e.v)}] += e.w;
        g.e.clear();
        for (auto& [p, w] : mg) g.e.push_back({p.first, p.second, w});
        if (g.n < 2 || g.n > (term ? 9 : 60)) continue;
        std::vector<Case> cs;
        std::vector<int> p(g.n);
        std::iota(p.begin(), p.end(), 0);
        std::vector<int> comp(g.n);
        std::function<int(int)> find = [&](int x) { return comp[x] == x ? x : comp[x] = find(comp[x]); };
        std::iota(comp.begin(), comp.end(), 0);
        for (auto& e : g.e) comp[find(e.u)] = find(e.v);
        int ncomp = 0;
        for (int v = 0; v < g.n; ++v) ncomp += find(v) == v;
        auto terms = [&](Case& c, int k) {
            std::shuffle(p.begin(), p.end(), r);
            c.k = k; c.ids.assign(p.begin(), p.begin() + k);
            c.term.assign(g.n, -1);
            for (int j = 0; j < k; ++j) c.term[c.ids[j]] = j;
        };
        if (term) {
            for (const char* h : {"id", "top", "random", "distant", "pre", "order"}) {
                Case c; c.kind = "term"; c.how = h; c.c = h; c.g = g; c.seed = r(); c.b = 1;
                int k = ri(r, 2, std::min(4, g.n));
                if (c.how == "distant" && (ncomp > 1 || g.n < 3)) continue;
                if (c.how == "distant") k = std::min(k, g.n - 1);
                terms(c, k);
                if (coin(r, 60)) c.b = ri(r, 1, 4);
                if (c.how == "pre" || c.how == "order") {
                    c.ids.assign(g.n, -1);
                    for (auto& x : c.ids) x = c.how == "pre" && coin(r, 50) ? -1 : (int)(r() % k);
                    if (c.how == "order") {
                        std::vector<int> cnt(k, 0);
                        std::shuffle(p.begin(), p.end(), r);
                        c.pos.assign(g.n, 0);
                        for (int v : p) c.pos[v] = ++cnt[c.ids[v]];
                    }
                    c.b = 1;
                }
                if (c.how != "pre" && coin(r, 30)) { c.pct = ri(r, 1, 100); c.b = 1; }
                cs.push_back(c);
            }
        } else {
            static const char* SEQ[][2] = {{"vc", "heur"}, {"noi", "exact"}, {"pr", "heur"}, {"ks", "heur"}, {"matula", "matula"}, {"cactus", "exact"}};
            static const char* PAR[][2] = {{"inexact", "heur"}, {"exact", "exact"}, {"cactus", "exact"}};
            for (int par = 0; par < 2; ++par) {
                auto& a = par ? PAR[r() % 3] : SEQ[r() % 6];
                Case c; c.kind = "mincut"; c.g = g; c.gk = a[1]; c.seed = r() % 1000;
                c.call.tool = par ? "mincut_parallel" : "mincut";
                std::vector<std::string> x = {"-r", std::to_string(c.seed)};
                if (coin(r, 40)) { c.its = ri(r, 2, 3); x.insert(x.end(), {"-i", std::to_string(c.its)}); }
                if (par) { int k = ri(r, 0, 2); for (int j = 0; j < k; ++j) x.insert(x.end(), {"-p", std::to_string(ri(r, 1, 4))}); if (k == 2) c.its *= 2; }
                std::string algo = a[0];
                bool save = coin(r, 60);
                if (save) {
                    x.push_back("-s");
                    if (coin(r, 70)) { x.insert(x.end(), {"-o", "o"}); if (algo != "cactus") c.want = "side"; }
                    if (algo == "cactus" && coin(r, 50)) { x.push_back("-b"); if (ncomp == 1 && std::find(x.begin(), x.end(), "-o") != x.end()) c.want = "side"; }
                }
                if (algo == "noi" || algo == "exact") { if (coin(r, 30)) x.push_back("-l"); if (coin(r, 40)) x.insert(x.end(), {"-q", (const char*[]){"bqueue", "heap", "bstack"}[algo == "noi" ? r() % 3 : 0]}); }
                c.weighted = coin(r, 75);
                if (!c.weighted) for (auto& e : c.g.e) e.w = 1;
                x.insert(x.begin() + (coin(r, 50) ? 0 : x.size()), {"g", algo});
                c.call.args = x;
                c.c = c.call.tool + "/" + algo + (c.its > 1 ? "/i" + std::to_string(c.its) : "") + (c.want == "side" ? "/side" : "");
                cs.push_back(c);
            }
            if (g.n <= 9) {
                Case c; c.kind = "multi"; c.g = g; c.seed = r() % 1000; c.call.tool = "multiterminal_cut";
                int k = ri(r, 2, std::min(3, g.n));
                terms(c, k);
                std::vector<std::string> x = {"g", "-s", std::to_string(c.seed), "-d", "-p", std::to_string(ri(r, 1, 3))};
                c.how = coin(r, 70) ? "id" : "pre";
                if (c.how == "pre") {
                    if (coin(r, 50)) for (auto& t : c.term) if (t < 0 && coin(r, 20)) t = r() % k;
                    c.ids = c.term;
                    x.insert(x.end(), {"-f", "part." + std::to_string(k) + ".pre"});
                } else for (int t : c.ids) x.insert(x.end(), {"-t", std::to_string(t)});
                if (coin(r, 60)) { x.push_back("-w"); c.want = "side"; }
                if (coin(r, 50)) x.insert(x.end(), {"-q", (const char*[]){"bound_sum", "upper_bound", "lower_bound", "most_deleted"}[r() % 4]});
                c.call.args = x;
                c.c = "multiterminal_cut/" + c.how + "/" + c.want;
                cs.push_back(c);
            }
            {
                Case c; c.kind = "component"; c.g = g; c.call.tool = "largest_cc"; c.weighted = coin(r, 60); c.c = "largest_cc";
                if (!c.weighted) for (auto& e : c.g.e) e.w = 1;
                c.call.args = {"g"};
                if (c.weighted) c.call.args.push_back("-w");
                cs.push_back(c);
            }
            if (g.n <= 9) {
                Case c; c.kind = "dynamic"; c.g = g; c.seed = r() % 1000; c.call.tool = coin(r, 50) ? "dynamic_mincut" : "dynamic_mincut_parallel";
                std::set<std::pair<int, int>> have;
                for (auto& e : g.e) have.insert({e.u, e.v});
                bool stat = coin(r, 25), fresh = coin(r, 25);
                if (fresh) c.g.e.clear(), have.clear();
                int k = ri(r, 1, 14);
                for (int j = 0; j < k; ++j) {
                    int u = r() % g.n, v = r() % g.n;
                    if (u == v) continue;
                    if (u > v) std::swap(u, v);
                    bool del = have.count({u, v});
                    if (del) have.erase({u, v}); else have.insert({u, v});
                    if (coin(r, 50)) std::swap(u, v);
                    c.ops.push_back({u, v, del ? -1 : ri(r, 1, 3)});
                }
                if (c.ops.empty()) continue;
                int now = 1;
                for (size_t j = 0; j < c.ops.size(); ++j) c.ts.push_back(now += coin(r, 60));
                c.call.args = {"-d", "d", "-r", std::to_string(c.seed)};
                if (!fresh) c.call.args.insert(c.call.args.end(), {"-i", "g"});
                else { c.g.n = 0; for (auto& o : c.ops) c.g.n = std::max<int>(c.g.n, std::max(o[0], o[1]) + 1); }
                if (stat) c.call.args.push_back("-s");
                if (coin(r, 50)) c.call.args.push_back("-b"); else c.batch = stat;
                c.c = c.call.tool + (stat ? c.batch ? "/batches" : "/static" : "") + (fresh ? "/fresh" : "");
                cs.push_back(c);
            }
            for (auto& c : cs) if (c.weighted && c.kind != "dynamic" && c.kind != "component" && coin(r, 15) && c.g.n < 12 && (c.kind == "multi" || c.c.find("/noi") != std::string::npos) && std::find(c.call.args.begin(), c.call.args.end(), "-q") == c.call.args.end()) scaleBy(c.g, 1ull << ri(r, 10, 36));
        }
        auto res = isolated(cs.size(), [&](int i) { return term ? goTerm(cs[i]) : goTool(cs[i]); }, 60);
        for (size_t i = 0; i < cs.size(); ++i) {
            auto& c = cs[i];
            bool ok = res[i][0] != '!';
            if (!keep(!ok || res[i].rfind("\"sus\":0") == std::string::npos)) continue;
            bool unit = true;
            for (auto& e : c.g.e) unit &= e.w == 1;
            std::string ops, cl;
            for (auto& o : c.ops) ops += (ops.empty() ? "[" : ",[") + std::to_string(o[0]) + "," + std::to_string(o[1]) + "," + std::to_string(o[2]) + "]";
            for (auto& a : c.call.args) cl += " " + a;
            fprintf(OUT, "{\"id\":\"%d-%ld-%zu\",\"kind\":\"%s\",\"c\":\"%s\",\"cmd\":%s,\"n\":%d,\"e\":%s,\"gk\":\"%s\",\"unit\":%d,\"its\":%d,\"want\":\"%s\",\"how\":\"%s\",\"k\":%d,\"b\":%d,\"pct\":%d,\"term\":%s,\"ids\":%s,\"pos\":%s,\"ops\":[%s],\"ts\":%s,\"batch\":%d,\"st\":\"%s\",%s}\n",
                    opt.shard, it, i, c.kind.c_str(), c.c.c_str(), jstr(c.call.tool + cl).c_str(), c.g.n, jedges(c.g).c_str(), c.gk.c_str(), unit ? 1 : 0, c.its, c.want.c_str(), c.how.c_str(), c.k, c.b, c.pct, jarr(c.term).c_str(), jarr(c.ids).c_str(), jarr(c.pos).c_str(), ops.c_str(), jarr(c.ts).c_str(), c.batch, ok ? "ok" : res[i].c_str() + 1,
                    ok ? res[i].c_str() : "\"v\":[],\"rn\":0,\"rm\":0,\"side\":[],\"oe\":[],\"map\":[],\"num\":0,\"sus\":1");
        }
        fflush(OUT);
    }
    fclose(OUT);
    return 0;
}
