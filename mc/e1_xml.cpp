// P08 exported settings restore the same system; P09 faulty settings documents.
#include "drivers.h"
#include "worldset.h"

// every kind and size of parameter, scalar and array, over two subsystems
std::shared_ptr<Structure> wideStructure()
{
    vector<std::pair<string, i64>> lits{{"zero", 0}, {"neg", -3}, {"big", 30000}, {"low", -32768}};
    vector<std::pair<string, i64>> lits8{{"on", 3}, {"off", 0}, {"minus", -1}};
    ND e16 = enumeration("e16", lits, "", 2);
    e16.t.size = 2;
    ND e32 = enumeration("e32", {{"min", INT32_MIN}, {"max", INT32_MAX}, {"one", 1}});
    e32.t.size = 4;
    return std::make_shared<Structure>(
        "Sys",
        vector<ND>{sub("A", {pb("num", {fixedPt("q34", 1, 3, 4), fixedPt("q15", 4, 15, 16, "", 2),
                                        fixedPt("q73", 2, 7, 3), floating("f"), floating("fa", "", 2)},
                                "Obj:A_num"),
                             pb("int", {integer("i8", 1, true), integer("u16", 2, false),
                                        integer("i32", 4, true), integer("u32", 4, false, "", 2)},
                                "Obj:A_int")}),
                   sub("B", {pb("txt", {strParam("s", 12), boolean("b"), boolean("ba", "", 3)}, "Obj:B_txt"),
                             pb("sel", {enumeration("e8", lits8), e16, e32}, "Obj:B_sel"),
                             bitBlock("bits", 4, {{"one", 0, 1}, {"mid", 3, 13}, {"top", 16, 16}}, "Obj:B_bits"),
                             pbArray("arr", 2, {u8("k"), strParam("n", 3)}, "Obj:B_arr")})},
        stdCrits());
}
static const char *strs[] = {"",     "a&b<c>\"d'", "  lead", "trail ", " ",     "\xc3\xa9t\xc3\xa9",
                             "l1\nl2", "\t",         "&amp;",  "]]>",    "x y z", "0x12"};
i64 edgeVal(const PType &t, i64 k)
{
    switch (t.k) {
    case T_STR: return strTab().get(string(strs[k % 12]).substr(0, t.maxLen));
    case T_ENUM: return t.lits[size_t(k) % t.lits.size()].second;
    case T_FIX: {
        i64 v[] = {t.mn, t.mx, 0, -1, 1, 0x55555555, -0x55555555};
        i64 x = v[k % 7];
        if (x > t.mx || x < t.mn) x = x < 0 ? t.mn / 3 : t.mx / 3;
        return (x >> t.shift()) * (i64(1) << t.shift());
    }
    case T_FLT: {
        uint32_t v[] = {0,          0x80000000, 0x3f800000, 0x3dcccccd, 0x7f7fffff,
                        0xff7fffff, 0x00800000, 0x40490fdb, 0x4b800001, 1};
        return v[k % 10];
    }
    default: {
        i64 v[] = {t.mn, t.mx, t.mn + 1, t.mx - 1, (t.mn + t.mx) / 2, t.mx / 3};
        i64 x = v[k % 6];
        return x < t.mn ? t.mn : x > t.mx ? t.mx : x;
    }
    }
}
static void edgeConf(World &w, Dom &d, const string &n, int rule, int base, vector<string> order = {})
{
    Conf c;
    c.name = n, c.rule = rule;
    vector<int> els;
    for (auto &o : order) els.push_back(w.S->byPath.at(o));
    for (int e : d.els)
        if (std::find(els.begin(), els.end(), e) == els.end()) els.push_back(e);
    for (int e : els) {
        Area a{e, {}};
        for (int l = w.S->nodes[e].leaf0; l < w.S->nodes[e].leaf1; l++)
            a.v.push_back(edgeVal(w.S->leaves[l].t, base + l));
        c.seq.push_back(a);
    }
    d.confs.push_back(c);
}
static World wideWorld(const string &name)
{
    WB b(name, wideStructure());
    World &w = b.w;
    auto &S = *w.S;
    for (size_t l = 0; l < S.leaves.size(); l++) w.init.hw[l] = edgeVal(S.leaves[l].t, i64(l + 2));
    auto &d1 = b.dom("D & <1>", {"/Sys/A/num", "/Sys/B/txt", "/Sys/B/bits/mid"});
    int r0 = b.rule(rAll({b.is("C1", "a"), rAny({rCrit(S, "C2", M_INC, "f1|f3"), rCrit(S, "C2", M_EXC, "f2"), rCrit(S, "C2", M_ISNOT, "<none>")})}));
    edgeConf(w, d1, "c 'one'", r0, 0);
    edgeConf(w, d1, "\"two\"", -1, 3, {"/Sys/B/bits/mid"});
    edgeConf(w, d1, "\xc3\xa9", b.rule(rAny({})), 5, {"/Sys/B/txt", "/Sys/A/num"});
    auto &d2 = b.dom("D2", {"/Sys/A/int", "/Sys/B/sel"}, true);
    edgeConf(w, d2, "x", b.rule(rAll({})), 1);
    edgeConf(w, d2, "y", b.rule(rAll({rAll({rAny({b.is("C1", "b")})}), rCrit(S, "C1", M_ISNOT, "c")})), 2, {"/Sys/B/sel"});
    b.dom("empty", {}, true);
    auto &d4 = b.dom("noconf", {"/Sys/B/arr/1"});
    (void)d4;
    auto &d5 = b.dom("noel", {});
    edgeConf(w, d5, "only", b.rule(rAny({b.is("C1", "a"), b.is("C1", "b")})), 0);
    return w;
}
static int p08(Checker &c)
{
    bool T = c.thorough;
    Ops rt{{"!xa"}, {"!xfa"}, {"!xd", "D & <1>"}, {"!xfd", "D & <1>"}, {"!xdd", "D2"}, {"!xd", "empty"},
           {"!xd", "noconf"}, {"!xfd", "noel"}, {"!xfresh"}, {"!xboot"}, {"!xns"}, {"!x1ns", "D2"},
           {"!x1ns", "D & <1>"}, {"!x1ns", "noconf"}, {"!xdup", "D2"}};
    Ops mode{{"setValueSpace", "raw"}, {"setValueSpace", "real"}, {"setOutputRawFormat", "hex"},
             {"setOutputRawFormat", "dec"}};
    {
        World w = wideWorld("P08wide");
        w.prefix = {{"setTuningMode", "on"}};
        Ops ed{{"renameDomain", "D2", "n<&>\"'"}, {"renameConfiguration", "D2", "x", " sp "},
               {"createConfiguration", "D & <1>", "new&"}, {"createDomain", ">D9"},
               {"createConfiguration", ">D9", "z"}, {"addElement", ">D9", "/Sys/B/arr"},
               {"createConfiguration", "noconf", "z"}, {"createConfiguration", "noconf", "y"},
               {"splitDomain", "D2", "/Sys/B/sel"}, {"splitDomain", "D & <1>", "/Sys/A/num"},
               {"setElementSequence", "D2", "x", "/Sys/B/sel"},
               {"setElementSequence", "D & <1>", "\"two\"", "/Sys/B/txt"},
               {"removeElement", "D & <1>", "/Sys/B/txt"}, {"addElement", "D & <1>", "/Sys/B/bits"},
               {"setSequenceAwareness", "D2", "false"}, {"setSequenceAwareness", "noel", "true"},
               {"saveConfiguration", "D2", "y"}, {"restoreConfiguration", "D & <1>", "\xc3\xa9"},
               {"restoreConfiguration", "D2", "x"}, {"clearRule", "D & <1>", "c 'one'"},
               {"setRule", "D2", "x", "Any{C2 Is f1|f2 , All{C2 Includes f3 , C1 Is c}}"},
               {"deleteConfiguration", "D & <1>", "c 'one'"}, {"deleteDomain", "noel"}};
        w.R.add(*w.S, rAny({rCrit(*w.S, "C2", M_IS, "f1|f2"), rAll({rCrit(*w.S, "C2", M_INC, "f3"), rCrit(*w.S, "C1", M_IS, "c")})}));
        c.explore(w, allOps(rt + mode + ed), T ? 4 : 3, T ? 60000 : 9000);
    }
    {
        // every rule of a family, set, exported and read back
        World w = sharedWorld("P08rules");
        w.prefix = {{"setTuningMode", "on"}};
        auto &S = *w.S;
        vector<Rule> leaves;
        for (auto v : {"a", "b", "c"})
            for (int m : {M_IS, M_ISNOT}) leaves.push_back(rCrit(S, "C1", m, v));
        for (auto v : {"f1", "f2", "f1|f2", "f2|f3", "f1|f2|f3", "<none>"})
            for (int m : {M_IS, M_ISNOT, M_INC, M_EXC}) leaves.push_back(rCrit(S, "C2", m, v));
        vector<Rule> all{rAll({}), rAny({}), rAll({rAny({})}), rAny({rAll({}), rAny({})})};
        for (size_t i = 0; i < leaves.size(); i++) {
            all.push_back(rAll({leaves[i]}));
            all.push_back(rAny({rAll({leaves[i]}), leaves[(i * 7 + 3) % leaves.size()]}));
            if (T)
                for (size_t j = 0; j < leaves.size(); j++) {
                    all.push_back(rAll({leaves[i], leaves[j]}));
                    all.push_back(rAny({leaves[j], rAll({leaves[i], rAny({leaves[j]})})}));
                }
        }
        Ops o{{"!xa"}, {"!xd", "Q1"}, {"!xfresh"}, {"getRule", "Q1", "s1"}};
        for (auto &r : all) {
            w.R.add(S, r);
            o.push_back({"setRule", "Q1", "s1", r.text(S)});
        }
        size_t nr = all.size();
        (void)nr;
        c.explore(w, [o](const State &, const Model &, int d) { return d == 0 ? o : Ops(o.begin(), o.begin() + 4); }, 2, 100000);
    }
    {
        // all values in all modes: live values set, saved, exported, re-imported, restored
        World w = wideWorld("P08values");
        w.prefix = {{"setTuningMode", "on"}};
        auto S = w.S;
        int K = T ? 12 : 7;
        Ops o = mode + Ops{{"!xa"}, {"!xd", "D2"}, {"!xfresh"}, {"restoreConfiguration", "D2", "y"}, {"saveConfiguration", "D2", "y"}};
        for (auto &l : S->leaves) {
            string dom = l.path.compare(0, 10, "/Sys/A/num") == 0 || l.path.compare(0, 10, "/Sys/B/txt") == 0 ? "D & <1>"
                         : l.path.compare(0, 10, "/Sys/A/int") == 0 || l.path.compare(0, 10, "/Sys/B/sel") == 0 ? "D2" : "";
            if (l.index || dom.empty()) continue;
            for (int k = 0; k < K; k++)
                o.push_back({"setConfigurationParameter", dom, dom == "D2" ? "y" : "\"two\"", S->nodes[l.node].path,
                             Structure::text(l.t, edgeVal(l.t, k))});
        }
        size_t nm = 9;
        c.explore(w, [o, nm](const State &, const Model &, int d) { return d <= 2 ? (d == 2 ? o : Ops(o.begin(), o.begin() + 4)) : Ops(o.begin() + 4, o.begin() + long(nm)); }, 4, T ? 4000 : 1200);
    }
    {
        // what is exported satisfies the schemas wherever names and numbers of things allow it
        WB b("P08schema", wideStructure());
        World &w = b.w;
        auto &S = *w.S;
        w.schemas = true;
        for (size_t l = 0; l < S.leaves.size(); l++) w.init.hw[l] = edgeVal(S.leaves[l].t, i64(l + 2));
        auto &d1 = b.dom("D1", {"/Sys/A/num", "/Sys/B/txt", "/Sys/B/bits/mid"});
        edgeConf(w, d1, "c_1", b.rule(rAll({b.is("C1", "a"), rAny({rCrit(S, "C2", M_INC, "f1|f3"), rCrit(S, "C2", M_EXC, "f2"), rCrit(S, "C2", M_ISNOT, "<none>")})})), 0);
        edgeConf(w, d1, "c-2", -1, 3, {"/Sys/B/bits/mid"});
        auto &d2 = b.dom("D2", {"/Sys/A/int", "/Sys/B/sel", "/Sys/B/arr/1"}, true);
        edgeConf(w, d2, "x.", b.rule(rAll({})), 1);
        edgeConf(w, d2, "\xc3\xa9", b.rule(rAny({rAll({}), rCrit(S, "C1", M_ISNOT, "c")})), 2, {"/Sys/B/sel"});
        w.prefix = {{"setTuningMode", "on"}};
        Ops ed = mode + Ops{{"createDomain", "D3"}, {"createConfiguration", "D3", "z"}, {"createConfiguration", "D1", "z"}, {"addElement", "D3", "/Sys/B/arr/0"}, {"addElement", "D1", "/Sys/B/bits/top"},
                            {"splitDomain", "D2", "/Sys/B/sel"}, {"splitDomain", "D1", "/Sys/A/num"}, {"splitDomain", "D1", "/Sys/A/num/q34"}, {"removeElement", "D1", "/Sys/B/txt"}, {"removeElement", "D2", "/Sys/B/arr/1"},
                            {"setElementSequence", "D2", "x.", "/Sys/B/sel"}, {"setSequenceAwareness", "D2", "false"}, {"setSequenceAwareness", "D1", "true"},
                            {"clearRule", "D1", "c_1"}, {"setRule", "D2", "x.", "Any{C2 Is f1|f2 , All{C2 Includes f3 , C1 Is c}}"}, {"deleteConfiguration", "D1", "c_1"},
                            {"deleteDomain", "D2"}, {"renameDomain", "D2", "n"}, {"renameConfiguration", "D2", "x.", "m"}};
        for (auto &l : S.leaves) {
            const string &p = S.nodes[l.node].path;
            string dom = p.compare(0, 10, "/Sys/A/num") == 0 || p.compare(0, 10, "/Sys/B/txt") == 0 ? "D1" : p.compare(0, 10, "/Sys/A/int") == 0 || p.compare(0, 10, "/Sys/B/sel") == 0 ? "D2" : "";
            if (l.index || dom.empty()) continue;
            std::set<string> seen;
            for (int k = 0; k < (T ? 12 : 10); k++) {
                string v = Structure::text(l.t, edgeVal(l.t, k));
                if (l.t.k == T_FLT && v == "-0") continue; // no number of the schema's
                if (seen.insert(v).second) ed.push_back({"setConfigurationParameter", dom, dom == "D2" ? "\xc3\xa9" : "c-2", p, v});
            }
        }
        w.R.add(S, rAny({rCrit(S, "C2", M_IS, "f1|f2"), rAll({rCrit(S, "C2", M_INC, "f3"), rCrit(S, "C1", M_IS, "c")})}));
        c.explore(w, [ed](const State &s, const Model &, int) {
            bool ok = !s.doms.empty();
            for (auto &d : s.doms) ok = ok && !d.confs.empty();
            return ok ? Ops{{"!xschema"}} + ed : ed;
        }, T ? 3 : 2, T ? 12000 : 260);
    }
    big(c, "P08");
    return c.finish("model_checking",
                    "every history of editing commands up to the depth over domains holding every parameter kind, "
                    "then every export/import round trip (string, file, whole, single, overwrite, delete, fresh start, "
                    "fresh import; real, raw, decimal, hexadecimal), complete state compared");
}
static Reg r08("P08", p08);
