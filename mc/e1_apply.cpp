// P01 selection of configurations, P02 application, P03 tuning, P04 auto-sync,
// P05 sequences, P14 failing hardware, P15 restart and start-up read back.
#include "drivers.h"
#include "worldset.h"

std::map<string, Driver> &drivers()
{
    static std::map<string, Driver> d;
    return d;
}

// ---------------------------------------------------------------- P01
static vector<Rule> atoms(const Structure &S, bool full)
{
    vector<Rule> r;
    for (auto &v : S.crits[0].vals) {
        r.push_back(rCrit(S, "C1", M_IS, v.first));
        r.push_back(rCrit(S, "C1", M_ISNOT, v.first));
    }
    for (auto &v : S.crits[1].vals) {
        if (!full && v.first == "f2") continue;
        for (int m : {M_IS, M_ISNOT, M_INC, M_EXC}) r.push_back(rCrit(S, "C2", m, v.first));
    }
    // several values at once
    for (int m : {M_IS, M_ISNOT, M_INC, M_EXC}) r.push_back(rCrit(S, "C2", m, "f1|f3"));
    if (full)
        for (int m : {M_IS, M_ISNOT, M_INC, M_EXC}) {
            r.push_back(rCrit(S, "C2", m, "f2|f3"));
            r.push_back(rCrit(S, "C2", m, "f1|f2|f3"));
        }
    return r;
}
static vector<Rule> trees(const Structure &S, bool thorough)
{
    auto a = atoms(S, thorough);
    vector<Rule> few;
    for (size_t i = 0; i < a.size(); i += 2) few.push_back(a[i]);
    vector<Rule> l1;
    for (bool all : {true, false}) {
        auto mk = [&](vector<Rule> k) {
            Rule r = rAll(k);
            r.all = all;
            return r;
        };
        l1.push_back(mk({}));
        for (auto &x : a) l1.push_back(mk({x}));
        for (auto &x : a)
            for (auto &y : a) l1.push_back(mk({x, y}));
        for (auto &x : few)
            for (auto &y : few)
                for (auto &z : few) l1.push_back(mk({x, y, z}));
    }
    vector<Rule> out = l1;
    size_t n1 = l1.size(), step = thorough ? 1 : 7;
    for (bool all : {true, false}) {
        auto mk = [&](vector<Rule> k) {
            Rule r = rAll(k);
            r.all = all;
            return r;
        };
        for (size_t i = 0; i < n1; i += step) {
            out.push_back(mk({l1[i]}));
            for (size_t k = 0; k < few.size(); k += 2) {
                out.push_back(mk({l1[i], few[k]}));
                out.push_back(mk({few[k], l1[i]}));
                out.push_back(mk({mk({l1[i]}), few[k], rAny({few[(k + 1) % few.size()]})}));
            }
            out.push_back(mk({l1[i], l1[(i * 31 + 7) % n1]}));
            Rule in = rAll({l1[i]});
            in.all = !all;
            out.push_back(mk({in, l1[(i * 17 + 3) % n1]}));
        }
    }
    return out;
}

static int p01(Checker &c)
{
    // (a) every rule tree of the family, in every criteria state
    {
        WB b("P01rules");
        auto &d = b.dom("D", {"/Sys/A/x"});
        b.conf(d, "c1", b.rule(rAny({})), 1);
        b.conf(d, "c2", b.rule(rAll({})), 2);
        auto rules = trees(*b.w.S, c.thorough);
        for (auto &r : rules) b.rule(r);
        long nr = long(b.w.R.r.size());
        c.bounds.push_back("rule trees: " + std::to_string(nr) + " distinct, each in all 24 criteria states");
        long chunk = 200;
        c.items_("P01rules", (nr + chunk - 1) / chunk, [&](Ctx &x, long item) {
            Checker::Run run(b.w, x);
            if (!run.fresh(item == 0)) return false;
            for (long i = item * chunk; i < std::min(nr, (item + 1) * chunk); i++) {
                x.note("world P01rules: start");
                if (!run.step({"setRule", "D", "c1", b.w.R.r[i].text(*b.w.S)}, false)) return false;
                if (!run.step({"getRule", "D", "c1"}, false)) return false;
                for (int s = 0; s < 24; s++) {
                    if (!run.step({"!crit", "C1", std::to_string(s % 3)}, false)) return false;
                    if (!run.step({"!crit", "C2", std::to_string(s / 3)}, false)) return false;
                    if (!run.step({"!apply"}, false)) return false;
                    string st = run.r->cmdv("status");
                    string got = Real::line(st, "D: ");
                    string want = run.s.doms[0].confs[run.s.doms[0].last].name + " []";
                    x.sh->states++, x.sh->transitions++, x.sh->validated++;
                    if (got != want)
                        return x.violate("active configuration: expected '" + want + "' got '" + got +
                                         "' with rule " + b.w.R.norm[i]);
                    if (run.r->cmdv("getParameter", {"/Sys/A/x"}) !=
                        std::to_string(run.s.main[run.W.S->leafRange.at("/Sys/A/x").first]))
                        return x.violate("value of the chosen configuration not in place");
                }
            }
            return true;
        });
        c.sample("rule " + b.w.R.norm[b.w.R.norm.size() / 2]);
    }
    // (b) every assignment of rules to the configurations of two domains; all
    // reachable (criteria, active configuration) states and all transitions
    WB proto("P01select");
    vector<int> pool{-1, proto.rule(proto.is("C1", "a")), proto.rule(rAny({rCrit(*proto.w.S, "C1", M_ISNOT, "a"), rCrit(*proto.w.S, "C2", M_INC, "f3")})),
                     proto.rule(rCrit(*proto.w.S, "C2", M_INC, "f1")), proto.rule(rAll({})), proto.rule(rAny({})),
                     proto.rule(rAll({rCrit(*proto.w.S, "C1", M_IS, "b"), rAny({rCrit(*proto.w.S, "C2", M_EXC, "f2"), rCrit(*proto.w.S, "C2", M_IS, "f2")})}))};
    for (auto &r : pool)
        if (r >= 0 && !proto.w.R.r[r].comp) r = proto.rule(rAll({proto.w.R.r[r]}));
    int P = int(pool.size());
    long combos = long(P) * P * P;
    vector<vector<int>> dom2 = {{4}, {1, 4}, {3, 2}, {5, 1}};
    c.bounds.push_back("rule assignments: " + std::to_string(combos) + " triples over " +
                       std::to_string(P) + " rules, second domain with " +
                       std::to_string(dom2.size()) + " variants");
    vector<int> cs = c.thorough ? vector<int>{0, 1, 2, 3, 4, 5, 6, 7} : vector<int>{0, 1, 4, 7};
    c.items_("P01select", combos, [&](Ctx &x, long item) {
        WB b("P01select");
        b.w.R = proto.w.R;
        int idx[3] = {int(item % P), int(item / P % P), int(item / P / P)};
        auto &d2 = b.dom("E", {"/Sys/B"}, item % 2);
        auto &v = dom2[size_t(item) % dom2.size()];
        for (size_t k = 0; k < v.size(); k++) b.conf(d2, "e" + std::to_string(k), pool[v[k]], i64(k) + 5);
        auto &d = b.dom("D", {"/Sys/A/c/p", "/Sys/A/x"});
        for (int k = 0; k < 3; k++) b.conf(d, "c" + std::to_string(k), pool[idx[k]], k + 1);
        b.w.init.crit = {int(item % 3), cs[size_t(item / 3) % cs.size()]};
        vector<Op> ops{{"!apply"}};
        for (int k = 0; k < 3; k++) ops.push_back({"!crit", "C1", std::to_string(k)});
        for (int k : cs) ops.push_back({"!crit", "C2", std::to_string(k)});
        Checker::Graph g = c.bfs(b.w, [&](const State &, const Model &, int) { return ops; }, 99, 100000);
        x.sh->states += g.st.size();
        // transition tour: walk over every edge on long histories
        vector<vector<char>> done(g.st.size());
        size_t left = 0;
        for (size_t i = 0; i < g.st.size(); i++) done[i].assign(ops.size(), 0), left += ops.size();
        x.sh->transitions += left;
        Checker::Run run(b.w, x);
        if (!run.fresh(true)) return false;
        int cur = 0;
        string want, got;
        while (left) {
            // nearest state with an uncovered edge
            vector<int> from(g.st.size(), -2), via(g.st.size(), -1), q{cur};
            from[cur] = -1;
            int goal = -1;
            for (size_t h = 0; h < q.size() && goal < 0; h++) {
                for (size_t k = 0; k < ops.size(); k++)
                    if (!done[q[h]][k]) {
                        goal = q[h];
                        break;
                    }
                for (size_t k = 0; k < ops.size() && goal < 0; k++) {
                    int t = g.succ[q[h]][k];
                    if (from[t] == -2) from[t] = q[h], via[t] = int(k), q.push_back(t);
                }
            }
            if (goal < 0) {
                if (!run.fresh(false)) return false;
                cur = 0;
                bool any = false;
                for (size_t i = 0; i < g.st.size(); i++)
                    for (char ch : done[i]) any |= !ch;
                if (!any) break;
                continue;
            }
            vector<int> path;
            for (int t = goal; t != cur; t = from[t]) path.push_back(via[t]);
            std::reverse(path.begin(), path.end());
            for (int k : path) {
                if (!run.step(ops[k], false)) return false;
                cur = g.succ[cur][k];
            }
            for (size_t k = 0; k < ops.size(); k++)
                if (!done[cur][k]) {
                    done[cur][k] = 1;
                    left--;
                    if (strlen(x.sh->trace) > 30000) x.note("(earlier steps omitted)");
                    if (!run.step(ops[k], true)) return false;
                    x.sh->validated++;
                    cur = g.succ[cur][k];
                    break;
                }
        }
        return true;
    });
    // (c) the choice follows the configurations as they are edited
    {
        WB b("P01edit");
        int always = b.rule(rAll({}));
        (void)always;
        auto &d = b.dom("D", {"/Sys/A/x"});
        b.conf(d, "c1", b.rule(rAll({b.is("C1", "a")})), 1);
        b.conf(d, "c2", b.rule(rAny({rCrit(*b.w.S, "C2", M_EXC, "f1|f2")})), 2);
        auto &e = b.dom("E", {"/Sys/B/z"}, true);
        b.conf(e, "k1", b.rule(rAny({b.is("C1", "a"), b.is("C1", "b")})), 3);
        b.conf(e, "k2", always, 4);
        Ops ops = critOps({0, 1, 2}, {0, 1, 2, 3}) +
                  Ops{{"!apply"},
                      {"setTuningMode", "on"},
                      {"setTuningMode", "off"},
                      {"createConfiguration", "D", "c3"},
                      {"createConfiguration", "E", "k1"},
                      {"deleteConfiguration", "D", "c1"},
                      {"deleteConfiguration", "E", "k1"},
                      {"renameConfiguration", "D", "c2", "c0"},
                      {"renameConfiguration", "E", "k2", "k0"},
                      {"setRule", "D", "c3", "All{}"},
                      {"setRule", "E", "k1", "All{C1 Is a}"},
                      {"clearRule", "D", "c2"},
                      {"clearRule", "E", "k2"},
                      {"restoreConfiguration", "D", "c2"},
                      {"setSequenceAwareness", "E", "false"},
                      {"!xdup", "D"},
                      {"!xd", "D"}};
        c.explore(b.w, allOps(ops), c.thorough ? 7 : 6, c.thorough ? 200000 : 12000);
    }
    big(c, "P01");
    lasting(c, "P01");
    return c.finish("model_checking", "every (rule tree, criteria state) and every reachable (criteria, "
                    "active configurations) state with every criterion change and application");
}
static Reg r01("P01", p01);
