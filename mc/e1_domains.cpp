// P02 application writes, P03 tuning mode, P04 auto-sync, P05 sequences,
// P06 domain editing, P14 hardware failures, P15 restarts and start-up.
#include "drivers.h"
#include "worldset.h"

static Checker::OpGen all(const Ops &o) { return allOps(o); }
static Ops crits(vector<int> a, vector<int> b) { return critOps(a, b); }
static const Ops TUNE{{"setTuningMode", "on"}, {"setTuningMode", "off"}};
static const Ops SYNC{{"setAutoSync", "on"}, {"setAutoSync", "off"}, {"sync"}};
static const Ops APPLY{{"!apply"}};

// Three domains of different shapes, plus rogue parameters
World baseWorld(const string &name, bool aware3)
{
    WB b(name);
    int a = b.rule(rAll({b.is("C1", "a")})), bb = b.rule(rAny({b.is("C1", "b")}));
    int f1 = b.rule(rAll({rCrit(*b.w.S, "C2", M_INC, "f1")}));
    int f2 = b.rule(rAll({rCrit(*b.w.S, "C2", M_INC, "f2"), rCrit(*b.w.S, "C1", M_ISNOT, "c")}));
    int always = b.rule(rAll({}));
    {
        auto &d = b.dom("D1", {"/Sys/A/c/p", "/Sys/A/x"});
        b.conf(d, "c1", a, 1);
        b.conf(d, "c2", bb, 2);
    }
    {
        auto &d = b.dom("D2", {"/Sys/A/c/n", "/Sys/B/y"});
        b.conf(d, "e1", f1, 3);
        b.conf(d, "e2", f2, 4);
    }
    {
        auto &d = b.dom("D3", {"/Sys/A/c/q"}, aware3);
        b.conf(d, "g1", a, 5);
        b.conf(d, "g2", always, 1);
    }
    return b.w;
}
// Domains sharing hardware objects and overlapping each other
World sharedWorld(const string &name)
{
    WB b(name);
    int a = b.rule(rAll({b.is("C1", "a")})), bb = b.rule(rAny({b.is("C1", "b")}));
    int f1 = b.rule(rAll({rCrit(*b.w.S, "C2", M_INC, "f1")}));
    int nf1 = b.rule(rAll({rCrit(*b.w.S, "C2", M_EXC, "f1")}));
    {
        auto &d = b.dom("U1", {"/Sys/A/c/n/u"});
        b.conf(d, "c1", a, 1);
        b.conf(d, "c2", bb, 2);
    }
    {
        auto &d = b.dom("Q1", {"/Sys/A/c/n/b/hi", "/Sys/A/c/p", "/Sys/B/y"}, true);
        b.conf(d, "s1", f1, 3, {"/Sys/B/y", "/Sys/A/c/n/b/hi", "/Sys/A/c/p"});
        b.conf(d, "s2", nf1, 4, {"/Sys/A/c/p", "/Sys/B/y", "/Sys/A/c/n/b/hi"});
    }
    {
        auto &d = b.dom("U2", {"/Sys/A/c/n/b/lo", "/Sys/A/x"});
        b.conf(d, "c1", f1, 5);
        b.conf(d, "c2", a, 6);
    }
    {
        auto &d = b.dom("Q2", {"/Sys/A/c"}, true); // overlaps all of A/c
        b.conf(d, "t1", b.rule(rAll({b.is("C1", "b"), rCrit(*b.w.S, "C2", M_INC, "f1")})), 5);
    }
    return b.w;
}
// Whole subsystems, arrays of blocks, objects above and below the elements
std::shared_ptr<Structure> deepStructure()
{
    return std::make_shared<Structure>(
        "Sys",
        vector<ND>{
            sub("P", {pbArray("arr", 2, {u8("v"), boolean("on")}, "Obj:P_arr"),
                      pb("g", {pb("h1", {u8("a", "Obj:P_a"), u16("w", "Obj:P_w")}),
                               pb("h2", {u8("a", "Obj:P_a2")})})}),
            sub("Q", {pb("k", {enumeration("e", {{"low", -3}, {"mid", 0}, {"high", 7}}), strParam("s", 3),
                      bitBlock("bb", 2, {{"l", 0, 3}, {"m", 5, 6}, {"t", 15, 1}})}, "Obj:Q_all")})},
        stdCrits());
}
World deepWorld(const string &name, bool aware)
{
    WB b(name, deepStructure());
    int a = b.rule(rAll({b.is("C1", "a")})), bb = b.rule(rAny({b.is("C1", "b")}));
    int f1 = b.rule(rAll({rCrit(*b.w.S, "C2", M_INC, "f1")}));
    {
        auto &d = b.dom("W", {"/Sys/P"}, aware);
        b.conf(d, "c1", a, 1);
        b.conf(d, "c2", bb, 2);
    }
    {
        auto &d = b.dom("V", {"/Sys/Q/k/bb", "/Sys/Q/k/e"}, !aware);
        b.conf(d, "k1", f1, 3);
        b.conf(d, "k2", a, 4, {"/Sys/Q/k/e", "/Sys/Q/k/bb"});
    }
    return b.w;
}

// ---------------------------------------------------------------- P02
static int p02(Checker &c)
{
    bool T = c.thorough;
    Ops cr = crits({0, 1, 2}, {0, 1, 3, 6});
    Ops edits{{"!hset", "/Sys/B/z", "9"},
              {"!hset", "/Sys/A/x", "9"}, // owned: refused
              {"setParameter", "/Sys/A/x", "33"},
              {"setParameter", "/Sys/B/z", "44"},
              {"setParameter", "/Sys/A/c/n/b/lo", "2"},
              {"setConfigurationParameter", "D1", "c1", "/Sys/A/x", "77"},
              {"setConfigurationParameter", "D2", "e1", "/Sys/A/c/n/b/lo", "9"},
              {"setConfigurationParameter", "D3", "g2", "/Sys/A/c/q", "8", "6"},
              {"restoreConfiguration", "D1", "c2"},
              {"saveConfiguration", "D1", "c1"},
              {"setAutoSync", "off"},
              {"setAutoSync", "on"}};
    World w1 = baseWorld("P02base");
    c.explore(w1, all(cr + APPLY + TUNE + edits), T ? 6 : 5, T ? 300000 : 40000);
    World w2 = sharedWorld("P02shared");
    Ops e2{{"!hset", "/Sys/B/z", "9"}, {"setParameter", "/Sys/A/c/n/u", "33"}, {"setParameter", "/Sys/A/c/n/b/hi", "1"}, {"restoreConfiguration", "U2", "c2"}, {"deleteConfiguration", "U1", "c1"}, {"deleteConfiguration", "U1", "c2"}};
    c.explore(w2, all(crits({0, 1, 2}, {0, 1, 3}) + APPLY + TUNE + e2), T ? 7 : 6, T ? 300000 : 40000);
    for (bool aw : {false, true}) {
        World w3 = deepWorld(string("P02deep") + (aw ? "A" : "U"), aw);
        Ops e3{{"setParameter", "/Sys/P/arr/1/v", "33"}, {"setParameter", "/Sys/Q/k/s", "xyz"}, {"setParameter", "/Sys/Q/k/e", "low"}, {"!hset", "/Sys/Q/k/s", "ab"}, {"restoreConfiguration", "V", "k1"}};
        c.explore(w3, all(crits({0, 1, 2}, {0, 1}) + APPLY + TUNE + e3), T ? 7 : 6, T ? 300000 : 40000);
    }
    // fields of one bit block, saved while their neighbours had other values
    {
        WB b("P02bits", std::make_shared<Structure>(
                            "Sys", vector<ND>{sub("A", {bitBlock("bb", 2, {{"l", 0, 3}, {"m", 3, 6}, {"t", 15, 1}, {"n", 9, 4}}, "Obj:bb"), u8("x", "Obj:x")})}, stdCrits()));
        int a = b.rule(rAll({b.is("C1", "a")})), bb = b.rule(rAny({b.is("C1", "b")}));
        auto &d = b.dom("L", {"/Sys/A/bb/l", "/Sys/A/x"});
        b.conf(d, "c1", a, 1);
        b.conf(d, "c2", bb, 2);
        auto &e = b.dom("M", {"/Sys/A/bb/m"}, true);
        b.conf(e, "k1", b.rule(rAll({rCrit(*b.w.S, "C2", M_INC, "f1")})), 3);
        Ops e5{{"setParameter", "/Sys/A/bb/m", "63"}, {"setParameter", "/Sys/A/bb/t", "1"}, {"setParameter", "/Sys/A/bb/n", "9"}, {"setParameter", "/Sys/A/bb/n", "0"}, {"!hset", "/Sys/A/bb/t", "0"},
               {"saveConfiguration", "L", "c1"}, {"saveConfiguration", "M", "k1"}, {"restoreConfiguration", "L", "c1"}, {"setConfigurationParameter", "L", "c1", "/Sys/A/bb/l", "5"}, {"addElement", "L", "/Sys/A/bb/n"}};
        c.explore(b.w, all(crits({0, 1}, {0, 1}) + APPLY + TUNE + e5), T ? 7 : 6, T ? 300000 : 25000);
    }
    // applications after the domains were edited
    World w4 = sharedWorld("P02edited");
    Ops e4{{"removeElement", "U2", "/Sys/A/x"},
           {"removeElement", "Q1", "/Sys/A/c/n/b/hi"},
           {"addElement", "U1", "/Sys/A/x"},
           {"addElement", "Q1", "/Sys/A/c/n"},
           {"splitDomain", "Q2", "/Sys/A/c"},
           {"addElement", "U1", "/Sys/A/c/n"},
           {"setSequenceAwareness", "U2", "true"},
           {"createConfiguration", "U1", "c3"},
           {"setRule", "U1", "c3", "Any{C1 Is b}"},
           {"deleteConfiguration", "U1", "c2"},
           {"deleteDomain", "Q2"},
           {"saveConfiguration", "U2", "c1"},
           {"setParameter", "/Sys/A/x", "33"},
           {"!xdup", "U2"},
           {"!xd", "U2"}};
    c.explore(w4, all(crits({0, 1}, {0, 1}) + APPLY + TUNE + e4), T ? 7 : 5, T ? 300000 : 25000);
    big(c, "P02");
    lasting(c, "P02");
    return c.finish("model_checking",
                    "every transition of the reference model's reachable graph (criteria changes, "
                    "applications, tuning edits) executed on the implementation; all values, stored "
                    "settings, active configurations and every hardware access compared");
}
static Reg r02("P02", p02);

// ---------------------------------------------------------------- P03
static int p03(Checker &c)
{
    bool T = c.thorough;
    World w = baseWorld("P03base");
    Ops ops = crits({0, 1}, {0, 1, 3}) + APPLY + TUNE +
              Ops{{"setTuningMode"},
                  {"setTuningMode", "maybe"},
                  {"getTuningMode"},
                  {"!hset", "/Sys/B/z", "9"},
                  {"!hset", "/Sys/A/x", "9"},
                  {"!hget", "/Sys/B/z"},
                  {"setParameter", "/Sys/A/x", "33"},
                  {"setParameter", "/Sys/B/z", "44"},
                  {"setElementBytes", "/Sys/A/c/q", "5", "6"},
                  {"!setxml", "/Sys/A/c/n", "1", "2", "3"},
                  {"!hbytes", "/Sys/A/c/q", "7", "8"},
                  {"createDomain", "N"},
                  {"deleteDomain", "D2"},
                  {"deleteAllDomains"},
                  {"setSequenceAwareness", "D1", "true"},
                  {"setSequenceAwareness", "D3", "false"},
                  {"addElement", "D1", "/Sys/B/z"},
                  {"removeElement", "D1", "/Sys/A/x"},
                  {"splitDomain", "D2", "/Sys/A/c/n"},
                  {"createConfiguration", "D1", "c9"},
                  {"deleteConfiguration", "D1", "c1"},
                  {"saveConfiguration", "D1", "c2"},
                  {"restoreConfiguration", "D1", "c2"},
                  {"setElementSequence", "D1", "c1", "/Sys/A/x"},
                  {"!xd", "D1"},
                  {"!xa"},
                  {"setAutoSync", "off"},
                  {"setAutoSync", "on"}};
    c.explore(w, all(ops), T ? 5 : 4, T ? 300000 : 40000);
    // started out of tuning, tuning forbidden
    World f = baseWorld("P03forbidden");
    f.tuningAllowed = false;
    c.explore(f, all(ops), T ? 5 : 4, T ? 300000 : 40000);
    // in tuning from the start: hand-made settings, then leaving
    World t = sharedWorld("P03tuned");
    t.prefix = {{"setTuningMode", "on"}};
    Ops o2 = crits({0, 1, 2}, {0, 1}) + APPLY + TUNE +
             Ops{{"setParameter", "/Sys/A/c/n/u", "33"},
                 {"setParameter", "/Sys/A/c/n/b/hi", "7"},
                 {"setParameter", "/Sys/A/x", "55"},
                 {"setParameter", "/Sys/B/z", "44"},
                 {"!hset", "/Sys/B/z", "99"},
                 {"restoreConfiguration", "U1", "c2"},
                 {"restoreConfiguration", "Q1", "s1"},
                 {"setConfigurationParameter", "U1", "c1", "/Sys/A/c/n/u", "12"},
                 {"setRule", "U1", "c1", "Any{}"},
                 {"clearRule", "U2", "c1"},
                 {"setAutoSync", "off"}};
    t.R.add(*t.S, rAny({}));
    c.explore(t, all(o2), T ? 6 : 5, T ? 300000 : 40000);
    big(c, "P03");
    lasting(c, "P03");
    return c.finish("model_checking",
                    "every transition of the reference model with tuning on, off and forbidden");
}
static Reg r03("P03", p03);

// ---------------------------------------------------------------- P04
static int p04(Checker &c)
{
    bool T = c.thorough;
    World w = baseWorld("P04base");
    w.prefix = {{"setTuningMode", "on"}};
    Ops ops = SYNC + TUNE + crits({0, 1}, {1, 2}) + APPLY +
              Ops{{"getAutoSync"},
                  {"setAutoSync"},
                  {"setAutoSync", "1"},
                  {"setParameter", "/Sys/A/x", "33"},
                  {"setParameter", "/Sys/A/c/p", "101"}, // out of range
                  {"setParameter", "/Sys/A/c/q", "4", "5"},
                  {"setParameter", "/Sys/A/c/q/1", "6"},
                  {"setParameter", "/Sys/A/c/n/b/hi", "7"},
                  {"setParameter", "/Sys/B/y", "513"},
                  {"setElementBytes", "/Sys/A/c", "1", "2", "3", "4", "5"},
                  {"setElementBytes", "/Sys/A/c", "1", "2"},
                  {"!hbytes", "/Sys/B", "1", "2", "3"},
                  {"!setxml", "/Sys/A", "1", "2", "3", "4", "5", "6", "7"},
                  {"!setxml", "/Sys/A/c/n/b", "8", "9"},
                  {"restoreConfiguration", "D1", "c1"},
                  {"restoreConfiguration", "D2", "e2"},
                  {"restoreConfiguration", "D3", "g1"},
                  {"setConfigurationParameter", "D1", "c1", "/Sys/A/x", "77"},
                  {"setConfigurationParameter", "D2", "e1", "/Sys/A/c/n/u", "9"},
                  {"setConfigurationParameter", "D3", "g2", "/Sys/A/c/q", "8", "6"},
                  {"!hset", "/Sys/B/z", "21"}};
    c.explore(w, all(ops), T ? 5 : 4, T ? 300000 : 40000);
    World d = deepWorld("P04deep", true);
    d.prefix = {{"setTuningMode", "on"}};
    Ops o2 = SYNC + TUNE + crits({0, 1}, {1}) + APPLY +
             Ops{{"setParameter", "/Sys/P/arr/0/v", "33"},
                 {"setParameter", "/Sys/P/g/h1/w", "700"},
                 {"setParameter", "/Sys/Q/k/e", "high"},
                 {"setParameter", "/Sys/Q/k/s", "abc"},
                 {"setParameter", "/Sys/Q/k/bb/t", "1"},
                 {"setElementBytes", "/Sys/P/g/h1", "1", "2", "3"},
                 {"setElementBytes", "/Sys/P/arr/1", "9", "1"},
                 {"!hbytes", "/Sys/P/g", "4", "5", "6", "7"},
                 {"!setxml", "/Sys/P/arr", "1", "0", "2", "1"},
                 {"restoreConfiguration", "W", "c2"},
                 {"restoreConfiguration", "V", "k2"},
                 {"setConfigurationParameter", "W", "c1", "/Sys/P/g/h2/a", "77"},
                 {"setConfigurationParameter", "V", "k1", "/Sys/Q/k/bb/m", "9"},
                 {"!hset", "/Sys/Q/k/s", "z"}};
    c.explore(d, all(o2), T ? 6 : 5, T ? 300000 : 40000);
    big(c, "P04");
    lasting(c, "P04");
    return c.finish("model_checking",
                    "every transition of the reference model over tuning writes, modes, syncs and "
                    "applications; hardware shadow compared after each");
}
static Reg r04("P04", p04);

// ---------------------------------------------------------------- P05
static int p05(Checker &c)
{
    bool T = c.thorough;
    // permutations of every element subset as sequences, from every sequence
    {
        WB b("P05orders");
        int a = b.rule(rAll({b.is("C1", "a")})), bb = b.rule(rAny({b.is("C1", "b")}));
        vector<string> els{"/Sys/A/c/p", "/Sys/A/c/n", "/Sys/B/y", "/Sys/A/x"};
        auto &d = b.dom("Q", els, true);
        b.conf(d, "s1", a, 1);
        b.conf(d, "s2", bb, 2);
        b.w.prefix = {{"setTuningMode", "on"}};
        Ops ops = crits({0, 1}, {}) + TUNE;
        for (int m = 1; m < 16; m++) {
            vector<string> s;
            for (int k = 0; k < 4; k++)
                if (m >> k & 1) s.push_back(els[k]);
            std::sort(s.begin(), s.end());
            do {
                Op o{"setElementSequence", "Q", "s1"};
                o.insert(o.end(), s.begin(), s.end());
                ops.push_back(o);
            } while (std::next_permutation(s.begin(), s.end()));
        }
        ops = ops + Ops{{"setElementSequence", "Q", "s1", "/Sys/A/x", "/Sys/A/x"},
                        {"setElementSequence", "Q", "s1", "/Sys/B/y", "/Sys/A/x", "/Sys/B/y"},
                        {"setElementSequence", "Q", "s1", "/Sys/A/x", "/Sys/B/z"},
                        {"setElementSequence", "Q", "s1", "/Sys/A/x", "/Sys/A/c/n/u"},
                        {"setElementSequence", "Q", "s1", "/Sys/A/x", "/Sys/A"},
                        {"setElementSequence", "Q", "s1", "/Sys/A/x", "/Sys/nope"},
                        {"setElementSequence", "Q", "s1"},
                        {"setElementSequence", "Q", "s3", "/Sys/A/x"},
                        {"setElementSequence", "R", "s1", "/Sys/A/x"},
                        {"setElementSequence", "Q", "s2", "/Sys/B/y", "/Sys/A/c/p"},
                        {"getElementSequence", "Q", "s1"},
                        {"getElementSequence", "Q", "s2"}};
        c.explore(b.w, all(ops), T ? 7 : 6, T ? 300000 : 40000);
    }
    World w = sharedWorld("P05shared");
    Ops cr = crits({0, 1, 2}, {0, 1, 2}) + APPLY + TUNE;
    Ops o2 = cr + Ops{{"setSequenceAwareness", "Q1", "false"},
                      {"setSequenceAwareness", "Q1", "true"},
                      {"setSequenceAwareness", "U1", "true"},
                      {"setSequenceAwareness", "U2", "true"},
                      {"setSequenceAwareness", "Q2", "false"},
                      {"setSequenceAwareness", "Q1", "yes"},
                      {"setSequenceAwareness", "Z", "true"},
                      {"getSequenceAwareness", "Q1"},
                      {"setElementSequence", "Q1", "s1", "/Sys/A/c/p"},
                      {"setElementSequence", "U2", "c1", "/Sys/A/x", "/Sys/A/c/n/b/lo"},
                      {"restoreConfiguration", "Q1", "s2"},
                      {"addElement", "Q1", "/Sys/B/z"},
                      {"removeElement", "Q1", "/Sys/A/c/p"},
                      {"getElementSequence", "Q1", "s1"}};
    c.explore(w, all(o2), T ? 7 : 6, T ? 300000 : 40000);
    World x = deepWorld("P05deep", true);
    Ops o3 = crits({0, 1}, {0, 1}) + APPLY + TUNE +
             Ops{{"setSequenceAwareness", "W", "false"},
                 {"setSequenceAwareness", "V", "true"},
                 {"splitDomain", "W", "/Sys/P"},
                 {"splitDomain", "W", "/Sys/P/g"},
                 {"setElementSequence", "W", "c1", "/Sys/P/g", "/Sys/P/arr"},
                 {"setElementSequence", "V", "k1", "/Sys/Q/k/e"},
                 {"restoreConfiguration", "W", "c1"}};
    c.explore(x, all(o3), T ? 8 : 7, T ? 300000 : 40000);
    big(c, "P05");
    lasting(c, "P05");
    return c.finish("model_checking",
                    "every ordering of every element subset given as a sequence from every reachable "
                    "sequence, and every transition over awareness changes, edits and applications; "
                    "the order of hardware accesses is compared");
}
static Reg r05("P05", p05);

// ---------------------------------------------------------------- P06
static int p06(Checker &c)
{
    bool T = c.thorough;
    auto edits = [](const string &d, const string &k, const vector<string> &els) {
        Ops r;
        for (auto &e : els) {
            r.push_back({"addElement", d, e});
            r.push_back({"removeElement", d, e});
            r.push_back({"splitDomain", d, e});
        }
        r.push_back({"saveConfiguration", d, k});
        r.push_back({"restoreConfiguration", d, k});
        r.push_back({"deleteConfiguration", d, k});
        r.push_back({"createConfiguration", d, "n1"});
        return r;
    };
    {
        World w = baseWorld("P06base");
        w.prefix = {{"setTuningMode", "on"}};
        Ops ops = edits("D2", "e1", {"/Sys/A/c", "/Sys/A/c/n", "/Sys/A/c/n/b", "/Sys/B"}) +
                  Ops{{"setParameter", "/Sys/A/c/n/u", "33"},
                      {"setParameter", "/Sys/B/z", "44"},
                      {"setConfigurationParameter", "D2", "e2", "/Sys/A/c/n/b/lo", "9"},
                      {"setConfigurationParameter", "D2", "n1", "/Sys/A/c/n/u", "11"},
                      {"restoreConfiguration", "D2", "n1"},
                      {"saveConfiguration", "D2", "n1"},
                      {"getConfigurationParameter", "D2", "e2", "/Sys/A/c/n/u"},
                      {"createDomain", "N"},
                      {"deleteDomain", "D1"}};
        c.explore(w, all(ops), T ? 6 : 5, T ? 300000 : 40000);
    }
    {
        // an empty domain built up from nothing, in every order
        WB b("P06build");
        b.w.prefix = {{"setTuningMode", "on"}, {"createDomain", "N"}};
        Ops ops{{"addElement", "N", "/Sys/A/c"},
                {"addElement", "N", "/Sys/A/c/n"},
                {"addElement", "N", "/Sys/A/c/n/u"},
                {"addElement", "N", "/Sys/A/c/n/b/hi"},
                {"addElement", "N", "/Sys/A/c/q"},
                {"addElement", "N", "/Sys"},
                {"splitDomain", "N", "/Sys/A/c"},
                {"splitDomain", "N", "/Sys/A/c/n"},
                {"splitDomain", "N", "/Sys/A/c/q"},
                {"removeElement", "N", "/Sys/A/c/n"},
                {"removeElement", "N", "/Sys/A/c"},
                {"createConfiguration", "N", "k1"},
                {"createConfiguration", "N", "k2"},
                {"deleteConfiguration", "N", "k1"},
                {"setParameter", "/Sys/A/c/n/u", "33"},
                {"setParameter", "/Sys/A/c/q/1", "44"},
                {"setConfigurationParameter", "N", "k1", "/Sys/A/c/n/u", "9"},
                {"setConfigurationParameter", "N", "k2", "/Sys/A/c/n/b/hi", "2"},
                {"saveConfiguration", "N", "k2"},
                {"restoreConfiguration", "N", "k1"}};
        c.explore(b.w, all(ops), T ? 7 : 6, T ? 300000 : 40000);
    }
    {
        World w = deepWorld("P06deep", true);
        w.prefix = {{"setTuningMode", "on"}};
        Ops ops{{"addElement", "V", "/Sys/Q"},
                {"addElement", "V", "/Sys/Q/k/s"},
                {"removeElement", "V", "/Sys/Q/k/e"},
                {"splitDomain", "V", "/Sys/Q"},
                {"splitDomain", "V", "/Sys/Q/k/bb"},
                {"splitDomain", "V", "/Sys/Q/k/e"},
                {"splitDomain", "W", "/Sys/P"},
                {"splitDomain", "W", "/Sys/P/arr"},
                {"splitDomain", "W", "/Sys/P/arr/1"},
                {"splitDomain", "W", "/Sys/P/g"},
                {"addElement", "W", "/Sys/P"},
                {"addElement", "V", "/Sys/P/g"},
                {"removeElement", "W", "/Sys/P/g"},
                {"createConfiguration", "V", "k3"},
                {"createConfiguration", "W", "c3"},
                {"deleteConfiguration", "V", "k1"},
                {"deleteDomain", "W"},
                {"saveConfiguration", "V", "k1"},
                {"restoreConfiguration", "V", "k1"},
                {"restoreConfiguration", "W", "c2"},
                {"saveConfiguration", "W", "c1"},
                {"setParameter", "/Sys/Q/k/s", "abc"},
                {"setParameter", "/Sys/P/arr/0/on", "1"},
                {"setTuningMode", "off"},
                {"setTuningMode", "on"}};
        c.explore(w, all(ops), T ? 6 : 5, T ? 300000 : 40000);
    }
    big(c, "P06");
    lasting(c, "P06");
    return c.finish("model_checking",
                    "every sequence of domain edits to the depth, each transition compared on every "
                    "setting of every configuration, live value and hardware content");
}
static Reg r06("P06", p06);

// the standard structure with other defaults, and subsystems that may have no hardware of their own
static std::shared_ptr<Structure> virtStructure(bool vA, bool vB)
{
    auto o = [](bool v, const char *n) { return v ? string() : string("Obj:") + n; };
    ND sA = sub("A", {pb("c", {ranged(u8("p", o(vA, "A_p")), 3, 100), u8("q", o(vA, "A_q"), 2),
                               pb("n", {u8("u"), bitBlock("b", 1, {{"lo", 0, 4}, {"hi", 4, 4}})}, o(vA, "A_n"))}),
                      u8("x", o(vA, "A_x"))}, vA ? "Obj:V_A" : ""),
       sB = sub("B", {u16("y", o(vB, "B_y")), ranged(u8("z", o(vB, "B_z")), 5, 90)}, vB ? "Obj:V_B" : "");
    auto S = std::make_shared<Structure>("Sys", vector<ND>{sA, sB}, stdCrits());
    if (!vA && !vB) return S;
    // the descriptions differ in the types only
    string x = virtStructure(false, false)->xml;
    size_t p = 0;
    for (bool v : {vA, vB}) {
        p = x.find("Type=\"MC\"", p);
        if (v) x.replace(p, 9, "Type=\"Virtual\"");
        p++;
    }
    S->xml = x;
    return S;
}
// ---------------------------------------------------------------- P14
static int p14(Checker &c)
{
    bool T = c.thorough;
    auto faults = [](vector<string> objs, vector<string> subs) {
        Ops r;
        for (auto &o : objs) {
            r.push_back({"!fail", o});
            r.push_back({"!heal", o});
        }
        for (auto &s : subs) {
            r.push_back({"!die", s});
            r.push_back({"!live", s});
        }
        return r;
    };
    {
        World w = baseWorld("P14base");
        Ops ops = faults({"A_p", "A_n", "B_y", "A_q"}, {"A"}) + crits({0, 1}, {0, 1, 2}) + APPLY +
                  TUNE + SYNC +
                  Ops{{"!hset", "/Sys/B/z", "9"},
                      {"setParameter", "/Sys/A/c/p", "33"},
                      {"restoreConfiguration", "D1", "c2"}};
        c.explore(w, all(ops), T ? 6 : 5, T ? 300000 : 40000);
    }
    {
        World w = sharedWorld("P14tuned");
        w.prefix = {{"setTuningMode", "on"}};
        Ops ops = faults({"A_n", "A_p", "B_y"}, {"B"}) + crits({0, 1}, {0, 1}) + TUNE + SYNC +
                  Ops{{"setParameter", "/Sys/A/c/n/u", "33"},
                      {"setElementBytes", "/Sys/A/c", "1", "2", "3", "4", "5"},
                      {"!setxml", "/Sys/B", "500", "6"},
                      {"restoreConfiguration", "Q1", "s1"},
                      {"restoreConfiguration", "U2", "c1"},
                      {"setConfigurationParameter", "U1", "c1", "/Sys/A/c/n/u", "12"}};
        c.explore(w, all(ops), T ? 6 : 5, T ? 300000 : 40000);
    }
    // start with every subset of failing objects and dead subsystems
    {
        World proto = baseWorld("P14start");
        int no = int(proto.S->objs.size());
        long n = (1l << no) * 4;
        auto dflt = virtStructure(false, false);
        long all = n + (1l << dflt->objs.size()) * 4;
        c.bounds.push_back("P14start: start with every subset of " + std::to_string(no) +
                           " failing objects and 2 dead subsystems, with zero and other defaults, then heal and synchronise");
        c.items_("P14start", all, [&](Ctx &x, long item) {
            bool other = item >= n; // other defaults than zero
            World w = other ? WB("P14start", dflt).w : baseWorld("P14start");
            if (other) item -= n;
            long one = 1l << w.S->objs.size();
            w.init.failW = uint64_t(item % one);
            w.init.dead = uint64_t(item / one);
            w.init.crit = {int(item % 3), int(item / 3 % 8)};
            Checker::Run run(w, x);
            if (!run.fresh(true)) return false;
            Ops ops{{"!crit", "C1", std::to_string((item + 1) % 3)}, {"!apply"}, {"setTuningMode", "on"}, {"setAutoSync", "off"}, {"setParameter", "/Sys/A/c/p", "40"}, {"sync"}};
            for (auto &o : w.S->objs) ops.push_back({"!heal", o.name});
            for (auto &s : w.S->subs) ops.push_back({"!live", s});
            ops.push_back({"sync"});
            for (auto &op : ops) {
                if (op[0] == "!heal") run.r->env.failRead.erase(op[1]);
                if (!run.step(op, true)) return false;
                x.sh->states++, x.sh->transitions++, x.sh->validated++;
            }
            return true;
        }, 8);
    }
    p14writes(c);
    big(c, "P14");
    lasting(c, "P14");
    return c.finish("fault_injection_exhaustive",
                    "every transition over objects failing and recovering, subsystems dying and "
                    "returning, and every access; every subset of failing objects at start");
}
static Reg r14("P14", p14);

// ---------------------------------------------------------------- P15
static int p15(Checker &c)
{
    bool T = c.thorough;
    Ops rs{{"!restart", "A"}, {"!restart", "B"}};
    World w = baseWorld("P15base");
    Ops ops = rs + crits({0, 1, 2}, {0, 1, 6}) + APPLY + TUNE +
              Ops{{"!hset", "/Sys/B/z", "9"},
                  {"setParameter", "/Sys/A/c/p", "33"},
                  {"setAutoSync", "off"},
                  {"setAutoSync", "on"},
                  {"sync"},
                  {"!die", "A"},
                  {"!live", "A"},
                  {"restoreConfiguration", "D1", "c2"}};
    c.explore(w, all(ops), T ? 7 : 6, T ? 300000 : 40000);
    {
        WB v("P15virtual", virtStructure(true, false));
        auto &D1 = v.dom("D1", {"/Sys/A/c/p", "/Sys/B/y"});
        v.conf(D1, "c1", v.rule(rAll({v.is("C1", "a")})), 4);
        v.conf(D1, "c2", v.rule(rAll({v.is("C1", "b")})), 6);
        auto &D2 = v.dom("D2", {"/Sys/A/c/n"}, true);
        v.conf(D2, "c1", v.rule(rAll({rCrit(*v.w.S, "C2", M_INC, "f1")})), 4);
        c.explore(v.w, all(rs + crits({0, 1, 2}, {0, 1}) + APPLY + TUNE +
                           Ops{{"setParameter", "/Sys/A/c/p", "33"}, {"setParameter", "/Sys/A/x", "7"}, {"!hset", "/Sys/A/x", "9"}, {"setAutoSync", "off"}, {"sync"}, {"restoreConfiguration", "D1", "c2"}, {"saveConfiguration", "D1", "c1"}, {"!die", "A"}}),
                  T ? 7 : 5, T ? 300000 : 20000);
    }
    World s = sharedWorld("P15shared");
    c.explore(s, all(rs + crits({0, 1, 2}, {0, 1}) + APPLY + TUNE + Ops{{"!hset", "/Sys/B/z", "9"}, {"!fail", "A_x"}, {"!heal", "A_x"}}), T ? 9 : 8, T ? 300000 : 40000);
    // start: every criteria state, hardware contents and liveness, over several
    // domain layouts (none, leaf, block, subsystem, system, partially covered)
    vector<vector<vector<string>>> layouts{
        {},
        {{"/Sys/A/x"}},
        {{"/Sys/A/c/n/u"}},
        {{"/Sys/A/c/n/b/lo", "/Sys/A/c/q"}},
        {{"/Sys/A/c"}},
        {{"/Sys/A"}},
        {{"/Sys/A"}, {"/Sys/B/z"}},
        {{"/Sys"}},
        {{"/Sys/A/c/n/u", "/Sys/A/c/n/b"}, {"/Sys/B"}},
        {{"/Sys/A/c/p"}, {"/Sys/A/c/q"}, {"/Sys/A/c/n"}, {"/Sys/A/x"}, {"/Sys/B/y"}, {"/Sys/B/z"}},
        {{"/Sys/A/c"}, {"/Sys/A/c/n"}}};
    long L = long(layouts.size());
    // rule kinds per domain: never, on C1=a, always, none
    long per = 4 * 3 * 4 * 2 * 2;
    // the hardware: answering, virtual, or refusing accesses to one object or all of them
    const long kinds = 11;
    c.items_("P15start", L * per * kinds, [&](Ctx &x, long item) {
        long k = item, var = item / (L * per);
        k %= L * per;
        auto &lay = layouts[size_t(k % L)];
        k /= L;
        WB b("P15start", var ? virtStructure(var & 1 && var < 4, var & 2 && var < 4) : stdStructure());
        if (var >= 4) b.w.init.failW = var < 10 ? 1u << (var - 4) : 63;
        int kinds[] = {b.rule(rAny({})), b.rule(rAll({b.is("C1", "a")})), b.rule(rAll({})), -1};
        for (size_t d = 0; d < lay.size(); d++) {
            auto &D = b.dom("D" + std::to_string(d), lay[d], (k / 4 + long(d)) % 2);
            b.conf(D, "c1", kinds[size_t(k + long(d)) % 4], 2);
            b.conf(D, "c2", kinds[size_t(k / 4 + long(d)) % 4], 3);
        }
        k /= 4;
        b.w.init.crit = {int(k % 3), 1};
        k /= 3;
        b.w.init.dead = uint64_t(k % 4);
        if (var && var < 4 && b.w.init.dead && !T) return true;
        k /= 4;
        if (k % 2)
            for (auto &v : b.w.init.hw) v = 0;
        k /= 2;
        b.w.withSettings = true;
        if (k % 2) b.w.init.restart = 3;
        Checker::Run run(b.w, x);
        if (!run.fresh(true)) return false;
        for (auto &op : Ops{{"!live", "A"}, {"!live", "B"}, {"!crit", "C1", "0"}, {"!apply"}, {"!restart", "A"}, {"!apply"}, {"!apply"}, {"!crit", "C1", "1"}, {"!restart", "B"}, {"!apply"}}) {
            if (!run.step(op, true)) return false;
            x.sh->states++, x.sh->transitions++, x.sh->validated++;
        }
        return true;
    }, 16);
    big(c, "P15");
    lasting(c, "P15");
    return c.finish("model_checking",
                    "every transition over subsystem restarts, criteria and applications, and start-up "
                    "for every listed domain layout, rule kind, criteria state, liveness and hardware content");
}
static Reg r15("P15", p15);
