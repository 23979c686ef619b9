// Large systems: more of everything than fits a byte's, word's or mask's worth of flags.
// Many subsystems, objects, domains, configurations, elements, criteria and values; long arrays, strings and paths.
#include "drivers.h"
#include "worldset.h"

static string nn(const char *p, int i)
{
    char b[32];
    snprintf(b, sizeof b, "%s%02d", p, i);
    return b;
}
static const int NS = 34, NE = 22, NC = 34, NK = 33;
static std::shared_ptr<Structure> bigStructure()
{
    vector<CritDef> crits{{"C1", false, {}}, {"C2", true, {}}};
    for (int i = 0; i < 36; i++) crits[0].vals.push_back({nn("v", i), i});
    for (int i = 0; i < 31; i++) crits[1].vals.push_back({nn("f", i), 1 << i});
    for (int i = 0; i < NK; i++) crits.push_back({nn("K", i), false, {{"off", 0}, {"on", 1}}});
    vector<ND> subs;
    for (int i = 0; i < NS; i++) {
        vector<ND> k{i % 3 ? u8("v", "Obj:" + nn("o", i)) : u16("v", "Obj:" + nn("o", i))};
        if (i == 1) {
            vector<ND> e;
            for (int j = 0; j < NE; j++) e.push_back(u8(nn("e", j), "Obj:" + nn("p", j)));
            k.push_back(pb("k", e));
        }
        if (i == 2) k.push_back(u8("t", "Obj:t", 300));
        if (i == 3) {
            vector<ND> in{u8("z")};
            for (int d = 11; d > 0; d--) in = {pb(nn("d", d), in), u8(nn("n", d))};
            k.push_back(pb("deep", in, "Obj:deep"));
            k.push_back(strParam("s", 300, "Obj:s"));
        }
        if (i == 4) k.push_back(pbArray("a", 13, {u8("x"), bitBlock("b", 8, {{"l", 0, 40}, {"h", 40, 24}})}, "Obj:a"));
        subs.push_back(sub(nn("S", i), k));
    }
    return std::make_shared<Structure>("Sys", subs, crits);
}
static WB bigWorld(const string &name)
{
    WB b(name, bigStructure());
    auto on = [&](int i) { return b.rule(rAll({b.is(nn("K", i), "on")})); };
    for (int i = 0; i < NS; i++) {
        auto &d = b.dom(nn("D", i), {"/Sys/" + nn("S", i) + "/v"}, i % 8 == 5);
        b.conf(d, "on", i < NK ? on(i) : b.rule(rAll({rCrit(*b.w.S, "C2", M_INC, "f30")})), i + 1);
        b.conf(d, "off", b.rule(rAll({})), i + 2);
    }
    for (int aware = 0; aware < 2; aware++) { // many configurations, many elements
        vector<string> els;
        if (aware)
            for (int j = 0; j < NE; j++) els.push_back("/Sys/S01/k/" + nn("e", j));
        else
            els = {"/Sys/S02/t", "/Sys/S03/deep", "/Sys/S03/s", "/Sys/S04/a"};
        auto &d = b.dom(aware ? "L" : "M", els, aware);
        for (int i = 0; i < (aware ? NC : 12); i++)
            b.conf(d, nn("c", i), b.rule(rAny({b.is("C1", nn("v", i))})), i + 3, aware && i % 2 ? vector<string>{els[size_t(i) % els.size()], els[0]} : vector<string>{});
    }
    return b;
}
// areas of every size, between others: one history for each
static void sizes(Checker &c, const string &prop)
{
    static const std::set<string> of{"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P11", "P14", "P15"};
    if (!of.count(prop)) return;
    int N = c.thorough ? 300 : 80;
    c.bounds.push_back(prop + "sizes: domains owning arrays of 1 to " + std::to_string(N) + " elements of one and of two bytes, and texts as long; one history each");
    c.items_(prop + "sizes", 3 * N, [=](Ctx &x, long i) {
        int n = int(i / 3) + (i % 3 == 2 ? 8 : 1);
        ND v = i % 3 == 0 ? u8("v", "", n) : i % 3 == 1 ? u16("v", "", n) : strParam("v", n);
        auto S = std::make_shared<Structure>("Sys", vector<ND>{sub("A", {pb("o", {u8("before"), v, u8("after")}, "Obj:Oo")}), sub("B", {u8("y", "Obj:y")})}, stdCrits());
        WB b(prop + "sizes", S);
        auto &d = b.dom("D", {"/Sys/A/o/v"});
        b.conf(d, "a", b.rule(rAll({b.is("C1", "a")})), 1);
        b.conf(d, "b", b.rule(rAll({b.is("C1", "b")})), 2);
        auto &e = b.dom("E", {"/Sys/A/o/before", "/Sys/B/y"}, true);
        b.conf(e, "a", b.rule(rAll({b.is("C1", "a")})), 3, {"/Sys/B/y"});
        b.conf(e, "b", b.rule(rAll({b.is("C1", "b")})), 4);
        World w = b.w;
        string whole = i % 3 == 2 ? string(size_t(n), 'q') : "", last = "/Sys/A/o/v";
        if (i % 3 < 2) {
            for (int k = 0; k < n; k++) whole += (k ? " " : "") + std::to_string((k * 7 + 3) % 256);
            last += "/" + std::to_string(n - 1);
        }
        string over = i % 3 == 2 ? whole + "q" : whole + " 1";
        Ops o{{"!crit", "C1", "1"}, {"!apply"}, {"!crit", "C1", "0"}, {"!apply"}, {"!crit", "C1", "1"}, {"setTuningMode", "on"},
              {"setParameter", last, i % 3 == 2 ? "z" : "77"}, {"saveConfiguration", "D", "a"}, {"restoreConfiguration", "D", "b"}, {"restoreConfiguration", "D", "a"},
              {"setParameter", "/Sys/A/o/v", whole}, {"setParameter", "/Sys/A/o/v", over}, {"createConfiguration", "D", "c"}, {"saveConfiguration", "D", "c"},
              {"setConfigurationParameter", "D", "b", last, i % 3 == 2 ? "w" : "78"}, {"restoreConfiguration", "D", "b"}, {"restoreConfiguration", "D", "c"},
              {"setAutoSync", "off"}, {"restoreConfiguration", "D", "a"}, {"setParameter", "/Sys/A/o/after", "9"}, {"sync"}, {"setAutoSync", "on"},
              {"addElement", "D", "/Sys/A/o/after"}, {"restoreConfiguration", "D", "b"}, {"setParameter", "/Sys/A/o/after", "10"}, {"restoreConfiguration", "D", "c"},
              {"removeElement", "D", "/Sys/A/o/v"}, {"setParameter", "/Sys/A/o/v", whole}, {"addElement", "E", "/Sys/A/o/v"}, {"saveConfiguration", "E", "b"},
              {"setParameter", last, i % 3 == 2 ? "z" : "77"}, {"restoreConfiguration", "E", "a"}, {"restoreConfiguration", "E", "b"}, {"setTuningMode", "off"}, {"!crit", "C1", "0"}, {"!apply"}};
        if (prop == "P08") o = o + Ops{{"!xa"}, {"setTuningMode", "on"}, {"!xfresh"}, {"!xboot"}};
        Checker::Run run(w, x);
        if (!run.fresh(true)) return false;
        for (auto &op : o) {
            x.sh->transitions++;
            if (!run.step(op, true)) return false;
        }
        x.sh->states++, x.sh->validated++;
        return true;
    }, 3);
}
// what is explored, by property
void big(Checker &c, const string &prop)
{
    sizes(c, prop);
    WB b = bigWorld(prop + "big");
    World &w = b.w;
    struct Cap // (large states: every two operations in a row from the start only, if at all)
    {
        Checker &c;
        size_t was;
        ~Cap() { c.pairCap = was; }
    } cap{c, c.pairCap};
    c.pairCap = c.thorough ? 20000 : 60;
    const Ops tune{{"setTuningMode", "on"}}, apply{{"!apply"}};
    string longText(300, 'y'), seq;
    for (int i = 0; i < 150; i++) longText[size_t(i) * 2] = char('a' + i % 26);
    Ops crits;
    for (int i = 0; i < 36; i += 1) crits.push_back({"!crit", "C1", std::to_string(i)});
    for (int i : {0, 29, 30}) crits.push_back({"!crit", "C2", std::to_string(i ? 1 << i : 0)});
    crits.push_back({"!crit", "C2", std::to_string(0x7fffffff)});
    for (int i = 0; i < NK; i++) crits.push_back({"!crit", nn("K", i), "1"});
    Op order{"setElementSequence", "L", "c33"}, front{"setElementSequence", "L", "c00", "/Sys/S01/k/" + nn("e", NE - 1)};
    for (int j = NE - 1; j >= 0; j -= 1) order.push_back("/Sys/S01/k/" + nn("e", j));
    Op twice = order;
    twice.push_back(order[3]);
    if (prop == "P01" || prop == "P02") { // every criterion value, then an application
        size_t n = crits.size();
        c.explore(w, [=](const State &, const Model &, int d) {
            Ops r = apply;
            if (d == 0) r = r + crits;
            if (d == 2)
                for (size_t i = 0; i < n; i += 9) r.push_back(crits[i]);
            return r;
        }, 3, 4000);
    } else if (prop == "P03") {
        c.explore(w, [=](const State &s, const Model &, int d) {
            Ops r = apply + Ops{{"setTuningMode", s.tuning ? "off" : "on"}, {"!hset", "/Sys/S33/v", "9"}};
            if (d < 2) r = r + Ops{crits[0], crits[33], crits[38], crits[39], crits[40], crits.back()};
            if (s.tuning) r = r + Ops{{"setParameter", "/Sys/S33/v", "7"}, {"setParameter", "/Sys/S01/k/e21", "8"}, {"restoreConfiguration", "L", "c33"}};
            return r;
        }, 4, 600);
    } else if (prop == "P04" || prop == "P14" || prop == "P15") {
        Ops f{{"setAutoSync", "off"}, {"setAutoSync", "on"}, {"sync"}, {"setParameter", "/Sys/S33/v", "7"}, {"setParameter", "/Sys/S02/t/299", "8"},
              {"setParameter", "/Sys/S04/a/12/b/h", "70000"}, {"setParameter", "/Sys/S03/s", longText}, {"restoreConfiguration", "L", "c33"}, {"restoreConfiguration", "D33", "on"}};
        if (prop != "P04") f = {{"!apply"}, {"!crit", "C1", "33"}, {"!crit", "K32", "1"}, {"setTuningMode", "off"}, {"sync"}, {"setAutoSync", "off"}, {"setAutoSync", "on"}};
        if (prop == "P14")
            for (int i : {0, 1, 2, 32, 33}) {
                f.push_back({"!fail", nn("o", i)}), f.push_back({"!heal", nn("o", i)});
                f.push_back({"setParameter", "/Sys/" + nn("S", i) + "/v", "5"});
            }
        if (prop == "P15")
            for (int i : {0, 1, 31, 32, 33}) f.push_back({"!restart", nn("S", i)});
        w.prefix = tune;
        if (prop == "P15") w.prefix = {};
        c.explore(w, allOps(f), 3, 700);
        if (prop == "P15") {
            World z = w; // every subsystem dead at start, one by one, all but one
            z.name = "P15bigdead";
            c.items_("P15bigdead", NS * 2, [&](Ctx &x, long i) {
                World v = w;
                v.init.dead = 1ull << (i / 2);
                if (i % 2) v.init.dead ^= (1ull << NS) - 1;
                Checker::Run run(v, x);
                if (!run.fresh(true)) return false;
                for (auto &op : Ops{{"!live", nn("S", int(i / 2))}, {"!apply"}, {"!restart", nn("S", 33)}, {"!apply"}}) {
                    x.sh->transitions++;
                    if (!run.step(op, true)) return false;
                }
                x.sh->validated++;
                return true;
            });
        }
    } else if (prop == "P05") {
        Ops o{order, front, twice, {"getElementSequence", "L", "c33"}, {"getElementSequence", "L", "c00"}, {"setSequenceAwareness", "D33", "true"}, {"setSequenceAwareness", "L", "false"},
              {"setTuningMode", "off"}, {"setTuningMode", "on"}, {"!crit", "C1", "33"}, {"!crit", "C1", "0"}, {"!crit", "K05", "1"}};
        w.prefix = tune;
        c.explore(w, allOps(o), 4, 500);
    } else if (prop == "P06") {
        Ops o{{"addElement", "L", "/Sys/S01"}, {"removeElement", "L", "/Sys/S01/k/e21"}, {"removeElement", "L", "/Sys/S01/k/e00"}, {"splitDomain", "M", "/Sys/S04/a"}, {"splitDomain", "M", "/Sys/S04/a/12"},
              {"splitDomain", "M", "/Sys/S03/deep"}, {"splitDomain", "L", "/Sys/S01"}, {"addElement", "D33", "/Sys/S03"}, {"addElement", "M", "/Sys/S03"}, {"createConfiguration", "L", "n"},
              {"deleteConfiguration", "L", "c33"}, {"deleteConfiguration", "L", "c00"}, {"saveConfiguration", "L", "c33"}, {"restoreConfiguration", "L", "c33"}, {"restoreConfiguration", "M", "c11"},
              {"setConfigurationParameter", "M", "c11", "/Sys/S03/s", longText}, {"setConfigurationParameter", "M", "c11", "/Sys/S04/a/12/b/h", "70000"}, {"deleteDomain", "D33"}, {"createDomain", "N"},
              {"addElement", "N", "/Sys/S01/k"}, {"setParameter", "/Sys/S02/t/299", "5"}};
        w.prefix = tune;
        c.explore(w, allOps(o), 3, 900);
    } else if (prop == "P07") {
        Ops o{twice, {"setParameter", "/Sys/S02/t/300", "5"}, {"setParameter", "/Sys/S02/t/299", "5 6"}, {"setParameter", "/Sys/S02/t/298", "5 256"}, {"setParameter", "/Sys/S03/s", longText + "z"},
              {"setParameter", "/Sys/S04/a/13/x", "1"}, {"setParameter", "/Sys/S04/a/12/b/h", "16777216"}, {"addElement", "L", "/Sys/S33/v"}, {"createDomain", "D33"}, {"renameDomain", "D00", "D33"},
              {"createConfiguration", "L", "c33"}, {"renameConfiguration", "L", "c00", "c33"}, {"setRule", "L", "c33", "Any{C1 Is v36}"}, {"setConfigurationParameter", "L", "c34", "/Sys/S01/k/e21", "1"},
              {"setConfigurationParameter", "L", "c33", "/Sys/S01/k/e22", "1"}, {"splitDomain", "L", "/Sys/S01/k"}, {"removeElement", "L", "/Sys/S33/v"}, {"deleteDomain", "D34"}, {"restoreConfiguration", "L", "c34"}};
        w.prefix = tune;
        c.explore(w, allOps(o), 2, 300);
    } else if (prop == "P08") {
        Ops o{{"!xa"}, {"!xfa"}, {"!xd", "L"}, {"!xdd", "M"}, {"!xd", "D33"}, {"!xfresh"}, {"!xboot"}, {"!xns"}, {"!x1ns", "L"}, order, front, {"setConfigurationParameter", "M", "c11", "/Sys/S03/s", longText},
              {"setOutputRawFormat", "hex"}, {"restoreConfiguration", "L", "c33"}, {"addElement", "L", "/Sys/S01"}, {"splitDomain", "M", "/Sys/S04/a"}};
        w.prefix = tune;
        c.explore(w, allOps(o), 3, 500);
    } else if (prop == "P11") {
        Ops o;
        for (auto &p : w.S->nodes)
            if (p.kind == "P" && !p.len && p.t.k == T_INT) o.push_back({"setParameter", p.path, "77"});
        for (int i : {0, 9, 10, 99, 100, 255, 256, 299}) o.push_back({"setParameter", "/Sys/S02/t/" + std::to_string(i), "78"});
        for (int i : {0, 9, 10, 12}) o.push_back({"setParameter", "/Sys/S04/a/" + std::to_string(i) + "/b/l", "1000000000000"});
        for (int i : {1, 254, 255, 256, 257, 299, 300}) o.push_back({"setParameter", "/Sys/S03/s", longText.substr(0, size_t(i))});
        for (auto p : {"c00", "c33"})
            for (auto e : {"e00", "e15", "e16", "e21"}) o.push_back({"setConfigurationParameter", "L", p, string("/Sys/S01/k/") + e, "79"});
        w.prefix = tune;
        c.explore(w, [=](const State &, const Model &, int d) { return d ? Ops{o[0], o[o.size() / 2], o.back()} : o; }, 2, 300);
    } else if (prop == "P12") {
        Ops o;
        int i = 0;
        for (auto e : {"/Sys", "/Sys/S01/k", "/Sys/S02/t", "/Sys/S03", "/Sys/S03/s", "/Sys/S04/a", "/Sys/S04/a/12", "/Sys/S33"}) {
            for (auto ch : {"x", "b"}) {
                string slot = std::to_string(i++);
                w.prefix.push_back({"!grab", slot, e, ch});
                o.push_back({"!put", slot, ch});
            }
        }
        w.prefix.push_back(tune[0]);
        o = o + Ops{{"setParameter", "/Sys/S03/s", longText}, {"setParameter", "/Sys/S02/t/299", "8"}, {"setParameter", "/Sys/S04/a/12/b/h", "70000"}, {"setParameter", "/Sys/S01/k/e21", "3"}, {"setParameter", "/Sys/S33/v", "3"}};
        c.explore(w, allOps(o), 3, 400);
    } else if (prop == "P20" || prop == "P23") {
        w.prefix = tune;
        Ops o{{"listDomains"}, {"listConfigurations", "L"}, {"listDomainElements", "L"}, 
              {"getParameter", "/Sys/S02/t"}, {"getParameter", "/Sys/S02/t/299"},
              {"getParameter", "/Sys/S04/a/12/x"}, {"getParameter", "/Sys/S04/a/13/x"}, {"getParameter", "/Sys/S04/a/012/x"}, {"getElementSequence", "L", "c33"}, {"getElementBytes", "/Sys"},
              {"getConfigurationParameter", "L", "c33", "/Sys/S01/k/e21"}, {"getRule", "L", "c33"}, {"getRule", "D33", "on"}, {"renameDomain", "D33", "D34"}, {"renameConfiguration", "L", "c33", "c34"}, {"createDomain", "D33"},
              {"createConfiguration", "L", "c33"}, {"deleteDomain", "D32"}, {"deleteConfiguration", "L", "c32"}, {"setRule", "L", "c00", "All{}"}, {"setParameter", "/Sys/S02/t/299", "5"}, {"getParameter", "/Sys/S33/v"}};
        for (char ch : {'C', 'A', 'N'}) {
            World v = w;
            v.name += ch;
            v.chan = ch;
            c.explore(v, allOps(o), 2, 300);
        }
    }
}
