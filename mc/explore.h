// Exhaustive exploration support: deterministic enumeration of items over
// forked workers, crash and hang detection, violation reports and evidence.
#pragma once
#include "real.h"
#include <chrono>
#include <csignal>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>

struct Shared
{
    uint64_t states, transitions, validated, distinct;
    uint64_t item;
    char trace[1 << 16];
};

struct Ctx
{
    Shared *sh;
    string violation; // first violation, empty if none
    vector<string> known;
    void note(const string &t)
    {
        size_t n = std::min(t.size(), sizeof(sh->trace) - 1);
        memcpy(sh->trace, t.data(), n);
        sh->trace[n] = 0;
    }
    void append(const string &t)
    {
        size_t at = strlen(sh->trace), n = std::min(t.size(), sizeof(sh->trace) - 1 - at);
        memcpy(sh->trace + at, t.data(), n);
        sh->trace[at + n] = 0;
    }
    bool violate(const string &w)
    {
        if (violation.empty()) violation = w;
        return false;
    }
};

struct Checker
{
    string prop, tier, verif;
    bool thorough = false;
    double budget = 55; // seconds of exploration (quick)
    int workers = 8;
    string onlyName;
    long onlyItem = -1;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    uint64_t states = 0, transitions = 0, validated = 0, items = 0, itemsPlanned = 0, distinct = 0;
    vector<string> samples, bounds, knownHits;
    vector<std::pair<string, string>> known; // pattern, description
    bool cut = false;
    bool failed = false;

    double elapsed() const
    {
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    }
    double left() const { return budget - elapsed(); }
    void sample(const string &s)
    {
        if (samples.size() < 12) samples.push_back(s.substr(0, 600));
    }
    void report(const string &name, long item, const string &what, const string &trace)
    {
        for (auto &k : known)
            if ((what + "\n" + trace).find(k.first) != string::npos) {
                if (std::find(knownHits.begin(), knownHits.end(), k.second) == knownHits.end())
                    knownHits.push_back(k.second);
                return;
            }
        failed = true;
        mkdir((verif + "/replays").c_str(), 0755);
        string f = verif + "/replays/" + prop + "-" + name + "-" + std::to_string(item) + ".txt";
        for (auto &c : f)
            if (c == ' ' || c == ':') c = '_';
        writeFile(f, "property " + prop + "\ntier " + tier + "\nexploration " + name + "\nitem " +
                         std::to_string(item) + "\n\n" + what + "\n\ntrace:\n" + trace + "\n");
        string shown = trace;
        size_t lines = 0;
        for (size_t i = shown.size(); i-- > 0;)
            if (shown[i] == '\n' && ++lines == 30) {
                shown = "(earlier steps in the replay file)" + shown.substr(i);
                break;
            }
        printf("%s\ntrace:\n%s\nVIOLATION property=%s replay=%s\n", what.c_str(), shown.c_str(),
               prop.c_str(), f.c_str());
        fflush(stdout);
    }
    // Runs fn on items [0,n) spread over forked workers. fn returns false to stop.
    typedef std::function<bool(Ctx &, long)> ItemFn;
    bool items_(const string &name, long n, ItemFn fn, long chunk = 1, int hangSec = 60)
    {
        if (failed) return false;
        if (!onlyName.empty() && onlyName != name) return true;
        itemsPlanned += uint64_t(n);
        int W = onlyItem >= 0 ? 1 : int(std::min<long>(workers, std::max<long>(1, n / chunk)));
        vector<Shared *> sh(W);
        vector<pid_t> pid(W);
        double lim = left();
        fflush(stdout);
        for (int w = 0; w < W; w++) {
            sh[w] = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            memset(sh[w], 0, sizeof(uint64_t) * 5 + 1);
            sh[w]->trace[0] = 0;
            sh[w]->item = ~0ull;
            pid[w] = fork();
            if (pid[w] == 0) {
                g_scratch += "/" + name + "-w" + std::to_string(w);
                for (auto &c : g_scratch)
                    if (c == ' ' || c == ':') c = '_';
                mkdir(g_scratch.c_str(), 0755);
                if (!getenv("MC_STDERR")) {
                    if (!freopen((g_scratch + "/stderr").c_str(), "w", stderr)) {}
                    if (!freopen("/dev/null", "w", stdout)) {}
                }
                Ctx c;
                c.sh = sh[w];
                std::ofstream out(resFile(name, w));
                auto start = std::chrono::steady_clock::now();
                uint64_t done = 0;
                bool cutW = false;
                for (long blk = w;; blk += W) {
                    long b0 = blk * chunk;
                    if (b0 >= n) break;
                    bool stop = false;
                    for (long i = b0; i < std::min(n, b0 + chunk); i++) {
                        if (onlyItem >= 0 && i != onlyItem) continue;
                        if (onlyItem < 0 &&
                            std::chrono::duration<double>(std::chrono::steady_clock::now() - start)
                                    .count() > lim) {
                            cutW = stop = true;
                            break;
                        }
                        sh[w]->item = uint64_t(i);
                        c.note("");
                        alarm(unsigned(hangSec));
                        fn(c, i);
                        done++;
                        if (!c.violation.empty()) {
                            out << "V " << i << "\n" << c.violation << "\n\x01\n"
                                << c.sh->trace << "\n\x01\n";
                            bool kn = isKnown(c.violation + "\n" + c.sh->trace);
                            c.violation.clear();
                            if (!kn) {
                                stop = true;
                                break;
                            }
                        }
                    }
                    if (stop) break;
                }
                alarm(0);
                out << "D " << done << " " << cutW << "\n";
                out.close();
                _exit(0);
            }
        }
        bool ok = true;
        struct V
        {
            long item;
            string what, trace;
        };
        vector<V> vs;
        for (int w = 0; w < W; w++) {
            int st = 0;
            waitpid(pid[w], &st, 0);
            states += sh[w]->states, transitions += sh[w]->transitions;
            validated += sh[w]->validated, distinct += sh[w]->distinct;
            std::ifstream in(resFile(name, w));
            string l;
            while (std::getline(in, l)) {
                if (l[0] == 'V') {
                    V v;
                    v.item = atol(l.c_str() + 2);
                    string *t = &v.what;
                    int part = 0;
                    while (part < 2 && std::getline(in, l)) {
                        if (l == "\x01") {
                            part++;
                            t = &v.trace;
                        } else
                            *t += (t->empty() ? "" : "\n") + l;
                    }
                    vs.push_back(v);
                } else if (l[0] == 'D') {
                    uint64_t d = 0;
                    int c = 0;
                    sscanf(l.c_str(), "D %lu %d", &d, &c);
                    items += d;
                    if (c) cut = true;
                }
            }
            if (WIFSIGNALED(st)) {
                string err = readFile(g_scratch + "/" + name + "-w" + std::to_string(w) + "/stderr");
                string why = WTERMSIG(st) == SIGALRM
                                 ? "no progress (hang or deadlock)"
                                 : "process terminated by signal " + std::to_string(WTERMSIG(st)) +
                                       " (" + strsignal(WTERMSIG(st)) + ")";
                if (WTERMSIG(st) == SIGKILL) {
                    // not something the code under test does: out of memory, most likely
                    fprintf(stderr, "worker killed from outside\n");
                    if (onlyItem < 0) cut = true;
                } else
                    vs.push_back({long(sh[w]->item), why + "\n" + err.substr(0, 600), sh[w]->trace});
            } else if (WIFEXITED(st) && WEXITSTATUS(st) != 0) {
                vs.push_back({long(sh[w]->item),
                              "process exited unexpectedly with status " +
                                  std::to_string(WEXITSTATUS(st)),
                              sh[w]->trace});
            }
            munmap(sh[w], sizeof(Shared));
        }
        std::sort(vs.begin(), vs.end(), [](const V &a, const V &b) { return a.item < b.item; });
        for (auto &v : vs) {
            if (!failed) report(name, v.item, v.what, v.trace);
            ok = ok && !failed;
        }
        if (getenv("MC_VERBOSE")) fprintf(stderr, "%s done (t=%.1f)\n", name.c_str(), elapsed());
        return ok && !failed;
    }
    bool isKnown(const string &t) const
    {
        for (auto &k : known)
            if (t.find(k.first) != string::npos) return true;
        return false;
    }
    static string resFile(const string &name, int w)
    {
        string f = g_scratch0() + "/res-" + name + "-" + std::to_string(w);
        for (size_t i = g_scratch0().size(); i < f.size(); i++)
            if (f[i] == ' ' || f[i] == ':') f[i] = '_';
        return f;
    }
    static string &g_scratch0()
    {
        static string s;
        return s;
    }

    // ------------------------------------------------ model exploration, edge by edge
    struct Graph
    {
        vector<State> st;
        vector<int> parent, depth;
        vector<Op> via;
        vector<std::shared_ptr<const vector<Op>>> ops;
        vector<vector<int>> succ; // -1: state beyond the bound
        bool truncated = false;
    };
    typedef std::function<vector<Op>(const State &, const Model &, int depth)> OpGen;
    Graph bfs(World &W, OpGen gen, int depth, size_t maxStates)
    {
        Graph g;
        Model m(*W.S, W.R);
        m.tuningAllowed = W.tuningAllowed;
        State s0 = W.started().first;
        for (auto &op : W.prefix) m.exec(s0, op);
        std::unordered_map<string, int> seen;
        g.st.push_back(s0), g.parent.push_back(-1), g.depth.push_back(0), g.via.push_back({});
        seen[s0.key()] = 0;
        for (size_t i = 0; i < g.st.size(); i++) {
            static const auto none = std::make_shared<const vector<Op>>();
            g.ops.push_back(none);
            g.succ.push_back({});
            if (g.depth[i] >= depth) continue;
            auto ops = gen(g.st[i], m, g.depth[i]);
            vector<int> su;
            for (auto &op : ops) {
                State t = g.st[i];
                m.exec(t, op);
                string k = t.key();
                auto it = seen.find(k);
                int id;
                if (it != seen.end())
                    id = it->second;
                else if (g.st.size() < maxStates) {
                    id = int(g.st.size());
                    seen[k] = id;
                    g.st.push_back(t);
                    g.parent.push_back(int(i));
                    g.depth.push_back(g.depth[i] + 1);
                    g.via.push_back(op);
                } else {
                    id = -1;
                    g.truncated = true;
                }
                su.push_back(id);
            }
            if (i && *g.ops[i - 1] == ops)
                g.ops[i] = g.ops[i - 1];
            else
                g.ops[i] = std::make_shared<const vector<Op>>(ops);
            g.succ[i] = su;
        }
        return g;
    }
    static string opText(const Op &op)
    {
        string r = op[0];
        for (size_t i = 1; i < op.size(); i++) r += " '" + op[i] + "'";
        return r;
    }
    // brings a fresh real instance to the state reached by ops (checking results lightly)
    struct Run
    {
        World &W;
        Model m;
        std::unique_ptr<Real> r;
        State s;
        Ctx &c;
        Run(World &w, Ctx &cc) : W(w), m(*w.S, w.R), c(cc) { m.tuningAllowed = w.tuningAllowed; }
        bool fresh(bool full)
        {
            r.reset();
            c.note("world " + W.name + ": start");
            r.reset(new Real(W));
            auto so = W.started();
            s = so.first;
            if (!r->started) return c.violate("start failed: " + r->error);
            if (full) {
                string d = cmpHw(so.second, r->hwLog());
                if (!d.empty()) return c.violate("at start: " + d);
                d = diffText(m.observe(s), r->observe());
                if (!d.empty()) return c.violate("after start: " + d);
            }
            for (auto &op : W.prefix)
                if (!step(op, false)) return false;
            return true;
        }
        bool step(const Op &op, bool full)
        {
            c.append("\n" + opText(op));
            RealOutcome ro = r->exec(op);
            Outcome mo = m.exec(s, op);
            string d = cmpOutcome(op, mo, ro);
            if (!d.empty()) return c.violate("after " + opText(op) + ": " + d);
            if (full) {
                d = diffText(m.observe(s), r->observe());
                if (!d.empty()) return c.violate("after " + opText(op) + ": " + d);
            }
            return true;
        }
    };
    bool explore(World &W, OpGen gen, int depth, size_t maxStates = 2000000)
    {
        if (failed) return false;
        if (!onlyName.empty() && onlyName != W.name && onlyName != W.name + "-in" && onlyName != W.name + "-re") return true;
        Graph g = bfs(W, gen, depth, maxStates);
        size_t edges = 0;
        for (auto &o : g.ops) edges += o->size();
        size_t n = g.ops.size();
        states += g.st.size();
        transitions += edges;
        bounds.push_back(W.name + ": " + std::to_string(g.st.size()) + " states, " +
                         std::to_string(edges) + " transitions, depth " + std::to_string(depth) +
                         (g.truncated ? " (state cap reached)" : ""));
        if (getenv("MC_VERBOSE")) fprintf(stderr, "%s  (t=%.1f)\n", bounds.back().c_str(), elapsed());
        if (g.st.size() > 2) {
            string t;
            vector<Op> p;
            for (int k = int(g.st.size()) - 1; g.parent[k] >= 0; k = g.parent[k]) p.push_back(g.via[k]);
            for (auto it = p.rbegin(); it != p.rend(); ++it) t += opText(*it) + "; ";
            sample(W.name + ": " + t);
        }
        vector<int> work;
        for (size_t i = 0; i < n; i++)
            if (!g.ops[i]->empty()) work.push_back(int(i));
        return items_(W.name, long(work.size()), [&](Ctx &c, long item) {
            return coverState(W, g, work[item], c);
        }) && pairs(W, g) && rereads(W, g, gen);
    }
    // what an operation that changes nothing leaves behind: in every state on the way to an operation that
    // changes something, and after it, everything that changes nothing is done on the same instance
    bool rereads(World &W, Graph &g, const OpGen &gen)
    {
        size_t cap = thorough ? 1000000 : 60000;
        if (pairCap && pairCap < cap) cap = pairCap;
        vector<vector<size_t>> self(g.ops.size());
        for (size_t j = 0; j < g.ops.size(); j++)
            for (size_t k = 0; k < g.succ[j].size(); k++)
                if (g.succ[j][k] == int(j)) self[j].push_back(k);
        vector<std::pair<int, size_t>> es;
        size_t cost = 0;
        bool all = true;
        for (int depth = 0; all; depth++) {
            vector<std::pair<int, size_t>> more;
            for (size_t j = 0; j < g.ops.size(); j++) {
                if (g.depth[j] != depth || g.ops[j]->empty()) continue;
                size_t way = 0;
                for (int i = int(j); i >= 0; i = g.parent[size_t(i)]) way += self[size_t(i)].size() + 4;
                for (size_t k = 0; k < g.succ[j].size(); k++)
                    if (g.succ[j][k] != int(j)) more.push_back({int(j), k});
                    else continue;
                size_t add = 0;
                for (auto &e : more)
                    if (e.first == int(j)) add += way + (g.succ[j][e.second] >= 0 ? self[size_t(g.succ[j][e.second])].size() : 0);
                if (cost + add > cap && !es.empty()) {
                    all = false;
                    break;
                }
                cost += add;
                es.insert(es.end(), more.begin(), more.end());
                more.clear();
            }
            if (depth > 64) break;
        }
        if (es.empty()) return true;
        transitions += cost;
        bounds.push_back(W.name + ": " + std::to_string(es.size()) + " changes with everything that changes nothing before and after each, " + std::to_string(cost) + " transitions");
        return items_(W.name + "-re", long(es.size()), [&, self, gen](Ctx &c, long item) {
            auto &e = es[size_t(item)];
            vector<int> at{e.first};
            while (g.parent[size_t(at.back())] >= 0) at.push_back(g.parent[size_t(at.back())]);
            std::reverse(at.begin(), at.end());
            Run run(W, c);
            if (!run.fresh(false)) return false;
            auto look = [&](int i) {
                for (size_t k : self[size_t(i)])
                    if (!run.step((*g.ops[size_t(i)])[k], false)) return false;
                string d = diffText(run.m.observe(run.s), run.r->observe());
                return d.empty() || c.violate("after those: " + d);
            };
            for (size_t i = 0; i < at.size(); i++) {
                if (!look(at[i])) return false;
                if (!run.step(i + 1 < at.size() ? g.via[size_t(at[i + 1])] : (*g.ops[size_t(e.first)])[e.second], true)) return false;
            }
            int to = g.succ[size_t(e.first)][e.second];
            // (beyond the depth: what changed nothing before and does not now)
            if (to >= 0 && !g.ops[size_t(to)]->empty()) {
                if (!look(to)) return false;
            } else
                for (auto &op : gen(run.s, run.m, g.depth[size_t(e.first)])) {
                    State t = run.s;
                    run.m.exec(t, op);
                    if (t.key() == run.s.key() && !run.step(op, false)) return false;
                }
            c.sh->validated++;
            return true;
        });
    }
    // what merging equal states leaves out: states reached in every way, by any two operations in a row
    size_t pairCap = 0; // per world; 0: by tier
    bool pairs(World &W, Graph &g)
    {
        struct E
        {
            int from;
            size_t op;
            int to;
        };
        size_t cap = pairCap ? pairCap : thorough ? 400000 : 80000;
        vector<E> es;
        size_t cost = 0;
        int depth = 0;
        for (;; depth++) {
            vector<E> more;
            size_t extra = 0;
            for (size_t j = 0; j < g.ops.size(); j++) {
                if (g.depth[j] != depth) continue;
                for (size_t k = 0; k < g.succ[j].size(); k++) {
                    int to = g.succ[j][k];
                    if (to < 0 || g.ops[size_t(to)]->empty()) continue;
                    // the way coverState came by
                    if (g.parent[size_t(to)] == int(j) && g.via[size_t(to)] == (*g.ops[j])[k]) continue;
                    more.push_back({int(j), k, to});
                    extra += g.ops[size_t(to)]->size();
                }
            }
            if (more.empty() || cost + extra > (depth ? cap : 4 * cap)) break;
            es.insert(es.end(), more.begin(), more.end());
            cost += extra;
        }
        if (es.empty()) return true;
        transitions += cost;
        bounds.push_back(W.name + ": every two operations in a row from the states up to depth " + std::to_string(depth - 1) + ", " + std::to_string(cost) + " transitions");
        if (getenv("MC_VERBOSE")) fprintf(stderr, "%s  (t=%.1f)\n", bounds.back().c_str(), elapsed());
        return items_(W.name + "-in", long(es.size()), [&](Ctx &c, long item) {
            auto &e = es[size_t(item)];
            return coverState(W, g, e.to, c, e.from, &(*g.ops[size_t(e.from)])[e.op]);
        });
    }
    bool coverState(World &W, Graph &g, int i, Ctx &c, int from = -1, const Op *by = nullptr)
    {
        vector<Op> path;
        for (int k = by ? from : i; g.parent[k] >= 0; k = g.parent[k]) path.push_back(g.via[k]);
        std::reverse(path.begin(), path.end());
        if (by) path.push_back(*by);
        Run run(W, c);
        bool at = false;
        auto go = [&]() {
            if (!run.fresh(i == 0 && !by)) return false;
            for (auto &op : path)
                if (!run.step(op, false)) return false;
            at = true;
            return true;
        };
        // operations that leave the model state unchanged share an instance
        for (int pass = 0; pass < 2; pass++)
            for (size_t k = 0; k < g.ops[i]->size(); k++) {
                bool self = g.succ[i][k] == i;
                if (self != (pass == 0)) continue;
                if (!at && !go()) return false;
                if (!run.step((*g.ops[i])[k], true)) return false;
                c.sh->validated++;
                if (!self) at = false;
            }
        return true;
    }
    int finish(const string &level, const string &rule);
};
string jsonStr(const string &s);
