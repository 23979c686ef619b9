// Standard structures and seed systems of the E1 explorations
#pragma once
#include "explore.h"

inline vector<CritDef> stdCrits()
{
    return {{"C1", false, {{"a", 0}, {"b", 1}, {"c", 2}}},
            {"C2", true, {{"f1", 1}, {"f2", 2}, {"f3", 4}}}};
}
inline std::shared_ptr<Structure> stdStructure()
{
    return std::make_shared<Structure>(
        "Sys",
        vector<ND>{sub("A", {pb("c", {ranged(u8("p", "Obj:A_p"), 0, 100), u8("q", "Obj:A_q", 2),
                                      pb("n", {u8("u"), bitBlock("b", 1, {{"lo", 0, 4}, {"hi", 4, 4}})},
                                         "Obj:A_n")}),
                             u8("x", "Obj:A_x")}),
                   sub("B", {u16("y", "Obj:B_y"), u8("z", "Obj:B_z")})},
        stdCrits());
}
// a valid value of the type, different for neighbouring k
inline i64 sampleVal(const PType &t, i64 k)
{
    if (t.k == T_STR) return strTab().get("s" + std::to_string(k % 10));
    if (t.k == T_ENUM) return t.lits[size_t(k) % t.lits.size()].second;
    if (t.k == T_BIT && t.width >= 63) return k;
    return t.mn + k % (t.mx - t.mn + 1);
}
struct WB // world builder
{
    World w;
    explicit WB(const string &name, std::shared_ptr<Structure> s = stdStructure())
    {
        w.name = name;
        w.S = s;
        w.init.main.assign(s->leaves.size(), 0);
        w.init.hw.assign(s->leaves.size(), 0);
        for (size_t l = 0; l < s->leaves.size(); l++) w.init.hw[l] = sampleVal(s->leaves[l].t, i64(l % 7 + 1));
        w.init.crit.assign(s->crits.size(), 0);
    }
    Dom &dom(const string &n, vector<string> els, bool aware = false)
    {
        Dom d;
        d.name = n, d.aware = aware;
        for (auto &e : els) d.els.push_back(w.S->byPath.at(e));
        w.init.doms.push_back(d);
        return w.init.doms.back();
    }
    int rule(const Rule &r) { return w.R.add(*w.S, r); }
    // configuration whose settings are base, base+1, ... (clamped to the types)
    Conf &conf(Dom &d, const string &n, int ruleId, i64 base, vector<string> order = {})
    {
        Conf c;
        c.name = n, c.rule = ruleId;
        vector<int> els;
        for (auto &o : order) els.push_back(w.S->byPath.at(o));
        for (int e : d.els)
            if (std::find(els.begin(), els.end(), e) == els.end()) els.push_back(e);
        for (int e : els) {
            Area a{e, {}};
            const Node &nd = w.S->nodes[e];
            for (int l = nd.leaf0; l < nd.leaf1; l++) {
                a.v.push_back(sampleVal(w.S->leaves[l].t, base * 16 + (l - nd.leaf0) + (e % 5)));
            }
            c.seq.push_back(a);
        }
        d.confs.push_back(c);
        return d.confs.back();
    }
    Rule is(const string &c, const string &v) { return rCrit(*w.S, c, M_IS, v); }
};
