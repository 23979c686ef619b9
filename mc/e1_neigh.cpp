// P11 neighbours of a written parameter, P12 subtree transfers, P13 client handles.
#include "drivers.h"
#include "import.h"
#include "mutate.h"
#include "worldset.h"
std::shared_ptr<Structure> wideStructure();
i64 edgeVal(const PType &, i64);

namespace {
// ------------------------------------------------------------ P11
ND kindOf(int k, const string &n)
{
    switch (k) {
    case 0: return u8(n);
    case 1: return u16(n);
    case 2: return integer(n, 4, true);
    case 3: return u8(n, "", 2);
    case 4: return integer(n, 2, true, "", 3);
    case 5: return boolean(n, "", 3);
    case 6: return bitBlock(n, 1, {{"lo", 0, 2}, {"mid", 3, 1}, {"hi", 4, 4}});
    case 7: return bitBlock(n, 4, {{"a", 0, 5}, {"b", 5, 13}, {"c", 31, 1}});
    case 8: return bitBlock(n, 8, {{"a", 0, 33}, {"b", 33, 30}, {"c", 63, 1}});
    case 9: return strParam(n, 2);
    case 10: return strParam(n, 0);
    case 11: return fixedPt(n, 2, 7, 8, "", 2);
    case 12: return floating(n);
    case 13: {
        ND d = enumeration(n, {{"x", -300}, {"y", 0}, {"z", 32767}});
        d.t.size = 2;
        return d;
    }
    case 14: return pb(n, {u8("u"), bitBlock("k", 1, {{"p", 0, 3}, {"q", 3, 5}})});
    case 15: return pbArray(n, 2, {u16("v"), strParam("s", 1)});
    case 16: return bitBlock(n, 2, {{"t", 15, 1}, {"m", 4, 7}, {"l", 0, 4}});
    default: return floating(n, "", 2);
    }
}
const int NK = 18;
struct Layout
{
    vector<int> kinds;
    int host, owner, seed;
};
// the values written: both ends and a pattern in between
vector<i64> someVals(const PType &t)
{
    if (t.k == T_STR) {
        vector<i64> r{0};
        if (t.maxLen) r.push_back(strTab().get(string(size_t(t.maxLen), 'w')));
        if (t.maxLen > 1) r.push_back(strTab().get("k"));
        return r;
    }
    if (t.k == T_ENUM) return {t.lits[0].second, t.lits[1].second, t.lits[2].second};
    if (t.k == T_FLT) return {0, i64(0xff7fffff), i64(0x7f7fffff)};
    if (t.k == T_FIX) return {t.mn, t.mx, 0x5555 & t.mx};
    if (t.mx == 1) return {0, 1};
    return {t.mn, t.mx, t.mn / 2 + t.mx / 3};
}
ND hosted(ND d, const string &obj)
{
    d.mapping = "Obj:" + obj;
    return d;
}
void p11ops(Ops &o, const Structure &S, const string &dom, bool tuning, bool raw)
{
    auto txt = [&](const PType &t, i64 v) { return Structure::text(t, v, raw); };
    for (size_t ni = 0; ni < S.nodes.size(); ni++) {
        const Node &n = S.nodes[ni];
        if (n.kind != "P") continue;
        auto vs = someVals(n.t);
        for (size_t k = 0; k < vs.size(); k++) {
            string one = txt(n.t, vs[k]), all = one;
            for (int i = 1; i < n.len; i++) all += " " + txt(n.t, vs[(k + size_t(i)) % vs.size()]);
            if (tuning) {
                o.push_back({"setParameter", n.path, all});
                for (int i = 0; i < n.len; i++) {
                    o.push_back({"setParameter", n.path + "/" + std::to_string(i), one});
                    // from the element on, as many as given
                    if (i + 1 < n.len) o.push_back({"setParameter", n.path + "/" + std::to_string(i), one + " " + txt(n.t, vs[(k + 1) % vs.size()])});
                }
                if (n.len > 1) o.push_back({"setParameter", n.path, one});
                if (!dom.empty())
                    for (auto cf : {"x", "y"}) {
                        o.push_back({"setConfigurationParameter", dom, cf, n.path, all});
                        if (n.len > 1) o.push_back({"setConfigurationParameter", dom, cf, n.path, one});
                    }
            } else if (!raw) {
                vector<string> v;
                for (auto kind : {"b", "u", "s", "d", "t"}) {
                    v.clear();
                    bool ok = true;
                    for (int i = 0; i < std::max(1, n.len); i++) {
                        string x;
                        i64 v0 = vs[(k + size_t(i)) % vs.size()], back;
                        ok = ok && Model::typedText(n.t, kind[0], v0, x) && Model::typedParse(n.t, kind[0], x, back);
                        if ((kind[0] == 'u' && v0 < 0) || (kind[0] == 's' && v0 > INT32_MAX)) ok = false; // not representable
                        v.push_back(x);
                    }
                    if (!ok) continue;
                    Op op{"!ht", kind, n.len ? "1" : "0", n.path};
                    op.insert(op.end(), v.begin(), v.end());
                    o.push_back(op);
                }
            }
        }
    }
}
World p11world(const Layout &L)
{
    vector<ND> kids;
    for (size_t i = 0; i < L.kinds.size(); i++) {
        ND d = kindOf(L.kinds[i], "e" + std::to_string(i));
        if (L.host == 1) d = hosted(d, "O" + std::to_string(i));
        kids.push_back(d);
    }
    ND blk = pb("k", kids);
    vector<ND> top{u8("before"), blk, u16("after")};
    ND outer;
    if (L.host == 0) {
        top[0].mapping = "Obj:Obefore", top[1].mapping = "Obj:Ok", top[2].mapping = "Obj:Oafter";
        outer = pb("o", top);
    } else if (L.host == 1) {
        top[0].mapping = "Obj:Obefore", top[2].mapping = "Obj:Oafter";
        outer = pb("o", top);
    } else
        outer = pb("o", top, "Obj:Oo");
    auto S = std::make_shared<Structure>("Sys", vector<ND>{sub("A", {outer})}, stdCrits());
    WB b("P11", S);
    World &w = b.w;
    for (size_t l = 0; l < S->leaves.size(); l++) {
        auto v = someVals(S->leaves[l].t);
        w.init.hw[l] = v[size_t(L.seed) % v.size()];
    }
    if (L.owner) {
        vector<string> els;
        for (size_t i = 0; i < L.kinds.size(); i++)
            if (L.owner == 1)
                els.push_back("/Sys/A/o/k/e" + std::to_string(i));
            else if (L.owner == 2) { // only the last parameter below each
                int n = S->byPath.at("/Sys/A/o/k/e" + std::to_string(i));
                while (S->nodes[n].kind != "P") n = S->nodes[n].kids.back();
                els.push_back(S->nodes[n].path);
            } else { // every parameter on its own
                int n = S->byPath.at("/Sys/A/o/k/e" + std::to_string(i));
                for (size_t k = 0; k < S->nodes.size(); k++)
                    if (S->nodes[k].kind == "P" && S->isAncestorOrSelf(n, int(k))) els.push_back(S->nodes[k].path);
            }
        auto &d = b.dom("D", els, L.owner == 3);
        for (int cf = 0; cf < 2; cf++) {
            Conf c;
            c.name = cf ? "y" : "x";
            c.rule = b.rule(rAll({b.is("C1", cf ? "b" : "a")}));
            for (int e : d.els) {
                Area a{e, {}};
                for (int l = S->nodes[e].leaf0; l < S->nodes[e].leaf1; l++) {
                    auto v = someVals(S->leaves[l].t);
                    a.v.push_back(v[size_t(L.seed + cf + 1) % v.size()]);
                }
                c.seq.push_back(a);
            }
            d.confs.push_back(c);
        }
    }
    return w;
}
bool runLayout(Ctx &c, World &w, const string &dom, bool raw, const Ops &before = {})
{
    w.dir.clear();
    w.name = "P11";
    Ops ops = before;
    if (raw) ops.push_back({"setValueSpace", "raw"});
    if (!dom.empty()) ops = ops + Ops{{"!crit", "C1", "1"}, {"!apply"}, {"!crit", "C1", "0"}, {"!apply"}};
    ops.push_back({"setTuningMode", "on"});
    p11ops(ops, *w.S, dom, true, raw);
    if (!dom.empty())
        for (auto &op : Ops{{"saveConfiguration", "D", "x"}, {"restoreConfiguration", "D", "y"}, {"saveConfiguration", "D", "y"}, {"restoreConfiguration", "D", "x"}}) ops.push_back(op);
    ops.push_back({"setTuningMode", "off"});
    p11ops(ops, *w.S, dom, false, raw);
    if (!dom.empty()) ops = ops + Ops{{"!crit", "C1", "1"}, {"!apply"}, {"!crit", "C1", "0"}, {"!apply"}};
    Checker::Run run(w, c);
    if (!run.fresh(true)) return false;
    for (auto &op : ops) {
        if (!run.step(op, true)) return false;
        c.sh->validated++, c.sh->transitions++, c.sh->states++;
    }
    return true;
}
} // namespace
// P14: every kind of parameter written in every way while an object refuses or a subsystem is dead
void p14writes(Checker &c)
{
    const int per = 5; // failing: one of three objects, the subsystem dead, two objects
    long n = long(NK) * 3 * 4 * per * 2;
    c.bounds.push_back("P14writes: " + std::to_string(n) + " layouts with failing hardware, every parameter written in every way");
    c.items_("P14writes", n, [&](Ctx &x, long i) {
        Layout L;
        L.kinds = {int(i % NK)}, L.host = int(i / NK % 3), L.owner = int(i / NK / 3 % 4), L.seed = int(i & 1);
        int f = int(i / NK / 12 % per);
        bool late = i / NK / 12 / per;
        World w = p11world(L);
        Ops before;
        if (late) before = {{"setTuningMode", "on"}, {"setAutoSync", "off"}, {"setTuningMode", "off"}};
        vector<string> objs;
        for (auto &o : w.S->objs) objs.push_back(o.name);
        if (f < 3) before.push_back({"!fail", objs[size_t(f) % objs.size()]});
        else if (f == 3) before.push_back({"!die", "A"});
        else before = before + Ops{{"!fail", objs[0]}, {"!fail", objs.back()}};
        return runLayout(x, w, L.owner ? "D" : "", (i & 7) == 7, before);
    }, 8);
}
namespace
{
int p11(Checker &c)
{
    bool T = c.thorough;
    vector<Layout> ls;
    int len = T ? 3 : 2;
    vector<vector<int>> seqs{{}};
    for (int i = 0; i < len; i++) {
        vector<vector<int>> nx;
        for (auto &s : seqs)
            for (int k = 0; k < NK; k++) {
                auto t = s;
                t.push_back(k);
                nx.push_back(t);
            }
        seqs = nx;
    }
    for (auto &s : seqs)
        for (int h = 0; h < 3; h++)
            for (int o = 0; o < 4; o++)
                for (int seed = 0; seed < 2; seed++) {
                    // three neighbours: one hosting and seed per ownership
                    if (T && (h != (s[0] + s[1] + s[2]) % 3 || seed != (s[0] + o) % 2)) continue;
                    ls.push_back({s, h, o, seed});
                }
    auto count = [&](const string &n, size_t k) {
        c.bounds.push_back(n + ": " + std::to_string(k) + " layouts");
    };
    count("P11mix", ls.size());
    c.items_("P11mix", long(ls.size()), [&](Ctx &x, long i) {
        World w = p11world(ls[size_t(i)]);
        return runLayout(x, w, ls[size_t(i)].owner ? "D" : "", (i & 3) == 3);
    }, 16);
    if (getenv("MC_VERBOSE")) fprintf(stderr, "mix %zu t=%.1f\n", ls.size(), c.elapsed());
    // two or three disjoint bit fields at every position and width of an 8-bit block, at the boundary ones of larger ones
    struct BL
    {
        int size;
        vector<std::tuple<string, int, int>> f;
    };
    vector<BL> bl;
    for (int size : {1, 2, 4, 8}) {
        int B = size * 8;
        std::set<int> cut;
        if (size == 1)
            for (int i = 0; i <= 8; i++) cut.insert(i);
        else
            for (int i : {0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, B - 1, B})
                if (i <= B) cut.insert(i);
        vector<int> cs(cut.begin(), cut.end());
        for (size_t a = 0; a < cs.size(); a++)
            for (size_t b = a + 1; b < cs.size(); b++)
                for (size_t d = b; d < cs.size(); d++)
                    for (size_t e = d + 1; e < cs.size(); e++) {
                        if (!T && size > 2 && (cs[d] != cs[b]) && e + 1 != cs.size() && a) continue;
                        bl.push_back({size, {{"f", cs[a], cs[b] - cs[a]}, {"g", cs[d], cs[e] - cs[d]}}});
                    }
    }
    count("P11bits", bl.size());
    c.items_("P11bits", long(bl.size()), [&](Ctx &x, long i) {
        auto &k = bl[size_t(i)];
        auto S = std::make_shared<Structure>(
            "Sys", vector<ND>{sub("A", {pb("o", {u8("before"), bitBlock("k", k.size, k.f), u8("after")}, "Obj:Oo")})}, stdCrits());
        WB b("P11b", S);
        World &w = b.w;
        for (size_t l = 0; l < S->leaves.size(); l++) w.init.hw[l] = i & 1 ? S->leaves[l].t.mx : S->leaves[l].t.mn;
        auto &d = b.dom("D", {i & 2 ? "/Sys/A/o/k/f" : "/Sys/A/o/k/g"});
        for (int cf = 0; cf < 2; cf++) {
            Conf q;
            q.name = cf ? "y" : "x";
            q.rule = b.rule(rAll({b.is("C1", cf ? "b" : "a")}));
            auto v = someVals(S->leaves[S->nodes[d.els[0]].leaf0].t);
            q.seq.push_back({d.els[0], {v[size_t(i + cf) % v.size()]}});
            d.confs.push_back(q);
        }
        return runLayout(x, w, "D", false);
    }, 16);
    c.transitions += c.validated - c.transitions;
    big(c, "P11");
    lasting(c, "P11");
    return c.finish("model_checking",
                    "every sequence of parameter kinds of the stated length in one block, under every hosting of hardware "
                    "objects and ownership, and every pair of bit fields at the enumerated cuts; every parameter and array element written "
                    "with both ends of its range and a value between, by text live and in configurations, by typed handle, "
                    "by save, restore and application; the complete state and every hardware access compared after each write");
}
Reg r11("P11", p11);

// ------------------------------------------------------------ P12
void setAll(Ops &o, const Structure &S, int k)
{
    for (auto &n : S.nodes) {
        if (n.kind != "P") continue;
        string t;
        for (int i = 0; i < std::max(1, n.len); i++)
            t += (i ? " " : "") + Structure::text(n.t, edgeVal(n.t, k + n.leaf0 + i));
        // blanks around a command argument are dropped: strings go through a handle
        if (n.t.k == T_STR)
            o = o + Ops{{"setTuningMode", "off"}, {"!ht", "t", "0", n.path, t}, {"setTuningMode", "on"}};
        else
            o.push_back({"setParameter", n.path, t});
    }
}
// all elements free, mode switches do not change values
World freeWorld(const string &name, std::shared_ptr<Structure> s)
{
    WB b(name, s);
    for (size_t l = 0; l < s->leaves.size(); l++) b.w.init.hw[l] = edgeVal(s->leaves[l].t, i64(l + 2));
    return b.w;
}
bool contentDoc(Ctx &c, Checker::Run &run, const string &path, const string &doc, bool viaHandle, const vector<i64> &orig)
{
    auto &r = *run.r;
    int el = run.m.S.byPath.at(path);
    XNode x;
    Reader rd(run.m, run.s, true);
    vector<i64> vals;
    bool raw = run.s.raw;
    if (!libParse(doc, x))
        rd.R.refuse("not XML");
    else {
        if (x.tag == "Component") rd.R.gray("another tag of a block");
        rd.content(x, el, raw, vals);
    }
    Verdict v = rd.R.v;
    string res;
    r.env.log.clear();
    bool ok;
    if (viaHandle) {
        auto h = r.handle(path);
        ok = h && h->setAsXML(doc, res);
    } else
        ok = r.cmd("setElementXML", {path, doc}, res);
    static const char *vn[] = {"matching", "not matching", "unclear", "unclear"};
    c.append(string("\n") + (viaHandle ? "handle setAsXML " : "setElementXML ") + path + " " + doc + "\n  read as " + vn[v] +
             (rd.R.why.empty() ? "" : " (" + rd.R.why + ")") + "; got " + (ok ? "success" : "refusal: " + res));
    if (ok && v == V_REFUSE) return c.violate("XML not matching the subtree was accepted: " + rd.R.why);
    if (!ok && v == V_ACCEPT) return c.violate("XML matching the subtree was refused: " + res);
    if (!ok && res.empty()) return c.violate("refused without an error");
    Outcome o;
    if (ok && v == V_WILD) { // not judged, but restored before going on
        for (size_t l = 0; l < run.m.S.leaves.size(); l++) {
            auto &lf = run.m.S.leaves[l];
            bool in = int(l) >= run.m.S.nodes[el].leaf0 && int(l) < run.m.S.nodes[el].leaf1;
            string got = r.cmdv("getParameter", {lf.path});
            if (!in && got != Structure::text(lf.t, run.s.main[l], run.s.raw, run.s.hex))
                return c.violate("a value outside the subtree changed: " + lf.path + " = " + got);
        }
        return true;
    }
    if (ok) {
        for (size_t k = 0; k < vals.size(); k++) run.s.main[size_t(run.m.S.nodes[el].leaf0) + k] = vals[k];
        if (run.s.autosync) run.m.send(run.s, run.m.S.syncers(el), o);
    }
    string d = cmpHw(o, r.hwLog());
    if (d.empty()) d = diffText(run.m.observe(run.s), r.observe());
    (void)orig;
    return d.empty() || c.violate(d);
}
int p12(Checker &c)
{
    bool T = c.thorough;
    struct WS
    {
        World w;
        vector<string> els;
    };
    vector<WS> ws;
    for (int k = 0; k < 2; k++) {
        auto S = k ? stdStructure() : wideStructure();
        WS x{freeWorld(k ? "P12std" : "P12wide", S), {}};
        for (auto &n : S->nodes) x.els.push_back(n.path);
        ws.push_back(x);
    }
    // 1: every element, channel pair and mode, over value sets
    struct It
    {
        int w, el;
        bool raw, hex, raw2, async;
    };
    vector<It> its;
    for (int w = 0; w < 2; w++)
        for (size_t e = 0; e < ws[size_t(w)].els.size(); e++)
            for (int m = 0; m < (T ? 16 : 4); m++) {
                int mm = T ? m : (m == 0 ? 0 : m == 1 ? 5 : m == 2 ? 3 : 8);
                its.push_back({w, int(e), bool(mm & 1), bool(mm & 2), bool(mm & 4), bool(mm & 8)});
            }
    c.bounds.push_back("P12pairs: " + std::to_string(its.size()) + " elements and modes, 8 channel pairs each");
    c.items_("P12pairs", long(its.size()), [&](Ctx &x, long i) {
        auto &it = its[size_t(i)];
        World w = ws[size_t(it.w)].w;
        string p = ws[size_t(it.w)].els[size_t(it.el)];
        Checker::Run run(w, x);
        if (!run.fresh(false)) return false;
        bool rootOrSub = run.m.S.nodes[run.m.S.byPath.at(p)].kind == "SUB" || run.m.S.nodes[run.m.S.byPath.at(p)].kind == "SYS";
        bool lone = run.m.S.nodes[run.m.S.byPath.at(p)].size == 0;
        int K = T ? 10 : 4;
        string bytes = "bB", xml = "xX";
        auto doOps = [&](const Ops &o, bool full) {
            for (auto &op : o) {
                if (!run.step(op, full && &op == &o.back())) return false;
                x.sh->transitions++, x.sh->validated++;
            }
            return true;
        };
        if (!doOps({{"setTuningMode", "on"}}, false)) return false;
        if (it.async && !doOps({{"setAutoSync", "off"}}, false)) return false;
        (void)rootOrSub;
        int step = 0;
        for (auto &fam : {xml, bytes})
            for (char rch : fam)
                for (char wch : fam)
                    for (int k = 0; k < K; k++) {
                        if (lone && fam == bytes) continue;
                        Ops o{{"setValueSpace", "real"}};
                        setAll(o, run.m.S, step);
                        o.push_back({"setValueSpace", it.raw ? "raw" : "real"});
                        o.push_back({"setOutputRawFormat", it.hex ? "hex" : "dec"});
                        o.push_back({"!grab", "0", p, string(1, rch)});
                        o.push_back({"setValueSpace", "real"});
                        if (k) setAll(o, run.m.S, step + k);
                        o.push_back({"setValueSpace", it.raw2 ? "raw" : "real"});
                        bool h = wch == 'X' || wch == 'B';
                        if (h) o.push_back({"setTuningMode", "off"});
                        if (!doOps(o, false)) return false;
                        if (!doOps({{"!put", "0", string(1, wch)}}, true)) return false;
                        if (h && !doOps({{"setTuningMode", "on"}}, false)) return false;
                        step += 3;
                        x.sh->states++;
                    }
        return true;
    }, 1);
    if (getenv("MC_VERBOSE")) fprintf(stderr, "pairs %zu t=%.1f\n", its.size(), c.elapsed());
    // 2: XML one edit away from what was read
    struct Mut
    {
        int w;
        string path;
        bool handle;
    };
    vector<Mut> ms;
    for (int w = 0; w < 2; w++)
        for (auto &p : ws[size_t(w)].els)
            if (p != "/Sys" || T)
                for (int h = 0; h < 2; h++) ms.push_back({w, p, bool(h)});
    c.bounds.push_back("P12edits: " + std::to_string(ms.size()) + " elements and channels, every document one edit away");
    c.items_("P12edits", long(ms.size()), [&](Ctx &x, long i) {
        auto &k = ms[size_t(i)];
        World w = ws[size_t(k.w)].w;
        Checker::Run run(w, x);
        if (!run.fresh(false)) return false;
        if (!k.handle && !run.step({"setTuningMode", "on"}, false)) return false;
        string doc;
        if (!run.r->cmd("getElementXML", {k.path}, doc)) return x.violate("getElementXML failed on " + k.path);
        vector<XNode> docs;
        XNode root = mk(doc);
        bool big = run.m.S.nodes[run.m.S.byPath.at(k.path)].leaf1 - run.m.S.nodes[run.m.S.byPath.at(k.path)].leaf0 > 8;
        mutate(root, big ? 0 : T ? 2 : 1, docs);
        vector<i64> orig = run.s.main;
        for (auto &d : docs) {
            if (strlen(x.sh->trace) > 30000) x.note("world " + w.name + (k.handle ? "" : " tuning on") + ": (earlier documents left out)");
            x.sh->states++, x.sh->transitions++, x.sh->validated++;
            if (!contentDoc(x, run, k.path, "<?xml version=\"1.0\"?>\n" + writeNode(d), k.handle, orig)) return false;
            // back to where it was
            if (run.s.main != orig || true) {
                if (!contentDoc(x, run, k.path, doc, k.handle, orig)) return false;
            }
        }
        for (auto t : {"", "<", "<a", "text", "<a></b>", "<?xml version=\"1.0\"?>"})
            if (!contentDoc(x, run, k.path, t, k.handle, orig)) return false;
        return true;
    }, 1, 200);
    if (getenv("MC_VERBOSE")) fprintf(stderr, "edits %zu t=%.1f\n", ms.size(), c.elapsed());
    // 3: wrong sizes, foreign elements, bad bytes
    for (int k = 0; k < 2; k++) {
        World w = ws[size_t(k)].w;
        w.name += "size";
        auto &S = *w.S;
        Ops o{{"setTuningMode", "on"}, {"setTuningMode", "off"}};
        for (auto &n : S.nodes) {
            std::set<int> sizes{0, 1, n.size - 1, n.size + 1, n.size * 2, n.size + 100};
            for (int z : sizes) {
                if (z < 0 || z == n.size) continue;
                o.push_back({"!badsub", n.path, "B", string(size_t(z), 'U')});
                o.push_back({"!badsub", n.path, "b", string(size_t(z), 'U')});
            }
        }
        for (auto bad : {"256", "-1", "x", "", "1.0", "0x", "0x100"}) {
            Op op{"setElementBytes", S.nodes[S.leaves[0].node].path};
            for (int i = 0; i < S.nodes[S.leaves[0].node].size; i++) op.push_back(i + 1 == S.nodes[S.leaves[0].node].size ? bad : "0");
            o.push_back(op);
        }
        // good ones, between the bad ones
        for (size_t n = 0; n < S.nodes.size(); n += 3) {
            if (!S.nodes[n].size || S.nodes[n].leaf1 - S.nodes[n].leaf0 > 6) continue;
            Op op{"setElementBytes", S.nodes[n].path};
            string bytes = S.nodeBytes(int(n), [&] {
                vector<i64> v;
                for (size_t l = 0; l < S.leaves.size(); l++) v.push_back(edgeVal(S.leaves[l].t, i64(l + n)));
                return v;
            }());
            for (unsigned char ch : bytes) op.push_back(std::to_string(ch));
            o.push_back(op);
            op.back() = "256";
            o.push_back(op);
        }
        o.push_back({"!badsub", "/Sys/Nope", "b", "a"});
        o.push_back({"!badsub", "/Sys/Nope", "x", "<a/>"});
        o.push_back({"!badsub", "", "x", "<a/>"});
        auto gen = [o](const State &s, const Model &, int) {
            Ops r;
            for (auto &op : o)
                if (op[0] != "!badsub" || !(s.tuning && (op[2] == "B" || op[2] == "X"))) r.push_back(op);
            return r;
        };
        c.explore(w, gen, 2);
    }
    // 4: histories: read, change, write back (also elsewhere), ownership and modes
    for (int k = 0; k < 2; k++) {
        WB b(k ? "P12own" : "P12hist", k ? stdStructure() : wideStructure());
        World &w = b.w;
        auto &S = *w.S;
        for (size_t l = 0; l < S.leaves.size(); l++) w.init.hw[l] = edgeVal(S.leaves[l].t, i64(l + 2));
        vector<string> els = k ? vector<string>{"/Sys/A/c", "/Sys/A/c/n/b", "/Sys/A/c/q", "/Sys/B", "/Sys/B/z"}
                               : vector<string>{"/Sys/A/num", "/Sys/B/arr", "/Sys/B/arr/1", "/Sys/B/txt", "/Sys/B/sel/e16"};
        if (k) {
            auto &d = b.dom("D", {"/Sys/A/c/n", "/Sys/B/z"});
            b.conf(d, "x", b.rule(rAll({b.is("C1", "a")})), 1);
            b.conf(d, "y", b.rule(rAll({b.is("C1", "b")})), 2);
        }
        Ops o{{"setTuningMode", "on"}, {"setTuningMode", "off"}, {"setAutoSync", "off"}, {"setAutoSync", "on"}, {"sync"},
              {"setValueSpace", "raw"}, {"setValueSpace", "real"}};
        if (k) o = o + critOps({0, 1}, {}) + Ops{{"!apply"}, {"restoreConfiguration", "D", "y"}, {"removeElement", "D", "/Sys/B/z"}};
        for (size_t e = 0; e < els.size(); e++) {
            for (auto ch : {"x", "b"}) o.push_back({"!grab", ch[0] == 'x' ? "0" : "1", els[e], ch});
            auto &n = S.nodes[S.byPath.at(els[e])];
            Op by{"setElementBytes", els[e]}, hb{"!hbytes", els[e]};
            string bytes = S.nodeBytes(S.byPath.at(els[e]), [&] {
                vector<i64> v;
                for (size_t l = 0; l < S.leaves.size(); l++) v.push_back(edgeVal(S.leaves[l].t, i64(l + e)));
                return v;
            }());
            for (unsigned char ch : bytes) by.push_back(std::to_string(ch)), hb.push_back(std::to_string(ch));
            (void)n;
            o.push_back(by), o.push_back(hb);
            o.push_back({"getElementBytes", els[e]});
            for (auto ch : {"x", "X"}) o.push_back({"!puton", "0", ch, els[e]});
        }
        for (auto ch : {"x", "X"}) o.push_back({"!put", "0", ch});
        for (auto ch : {"b", "B"}) o.push_back({"!put", "1", ch});
        c.explore(w, allOps(o), T ? 5 : 4, T ? 60000 : 8000);
    }
    // 5: bytes holding strings without a terminator
    {
        World w = freeWorld("P12text", std::make_shared<Structure>("Sys", vector<ND>{sub("A", {pb("o", {u8("before"), strParam("s", 3), strParam("z", 0), u8("after"), strParam("t", 2)}, "Obj:Oo")})}, stdCrits()));
        w.prefix = {{"setTuningMode", "on"}};
        Ops o{{"!grab", "0", "/Sys/A/o", "b"}, {"!put", "0", "b"}, {"!grab", "1", "/Sys/A/o", "x"}, {"!put", "1", "x"}};
        for (auto p : {"s", "z", "t"})
            for (string v : {"abcd", "abc", "ab", "a", "", "\xff\xfe\x01z"}) {
                Op op{"setElementBytes", string("/Sys/A/o/") + p};
                auto &n = w.S->nodes[w.S->byPath.at(op[1])];
                v.resize(size_t(n.size), v.size() > size_t(n.size) ? 'q' : '\0');
                if (p == string("s") && v[0] == '\xff') continue; // not a text for XML
                for (unsigned char ch : v) op.push_back(std::to_string(ch));
                if (v[0] != '\xff') o.push_back(op);
            }
        c.explore(w, allOps(o), T ? 5 : 4, T ? 100000 : 6000);
    }
    // 6: subtrees of every size
    {
        int N = T ? 520 : 140;
        c.bounds.push_back("P12sizes: arrays of 1 to " + std::to_string(N) + " elements of one and of two bytes, alone, between others, and the whole system, 8 channel pairs");
        c.items_("P12sizes", 2 * N, [&](Ctx &x, long i) {
            int n = int(i / 2) + 1;
            World w = freeWorld("P12sizes", std::make_shared<Structure>("Sys", vector<ND>{sub("A", {pb("o", {u8("before"), i % 2 ? u16("v", "", n) : u8("v", "", n), u8("after")}, "Obj:Oo")})}, stdCrits()));
            Checker::Run run(w, x);
            if (!run.fresh(false)) return false;
            auto doOps = [&](const Ops &o) {
                for (auto &op : o) {
                    if (!run.step(op, op[0] == "!put")) return false;
                    x.sh->transitions++, x.sh->validated++;
                }
                return true;
            };
            if (!doOps({{"setTuningMode", "on"}})) return false;
            int step = 1;
            for (auto p : {"/Sys/A/o/v", "/Sys/A/o", "/Sys"})
                for (string pair : {"bb", "bB", "Bb", "BB", "xx", "xX", "Xx", "XX"}) {
                    Ops o;
                    setAll(o, run.m.S, step);
                    o.push_back({"!grab", "0", p, pair.substr(0, 1)});
                    setAll(o, run.m.S, step + 1);
                    bool h = pair[1] == 'X' || pair[1] == 'B';
                    if (h) o.push_back({"setTuningMode", "off"});
                    o.push_back({"!put", "0", pair.substr(1)});
                    if (h) o.push_back({"setTuningMode", "on"});
                    step += 3;
                    if (!doOps(o)) return false;
                    x.sh->states++;
                }
            return true;
        }, 1);
    }
    big(c, "P12");
    return c.finish("model_checking",
                    "every element of two structures read and written back through every pair of channels (commands and handles, "
                    "XML and bytes), in every value space, over rotating values of every parameter; every document one edit away from the one read; "
                    "every wrong size; histories of reads, changes, ownership and mode switches up to the depth");
}
Reg r12("P12", p12);

// ------------------------------------------------------------ P13
int p13(Checker &c)
{
    bool T = c.thorough;
    for (int k = 0; k < 2; k++) {
        WB b(k ? "P13std" : "P13wide", k ? stdStructure() : wideStructure());
        World &w = b.w;
        auto &S = *w.S;
        for (size_t l = 0; l < S.leaves.size(); l++) w.init.hw[l] = edgeVal(S.leaves[l].t, i64(l + 2));
        string leafA = k ? "/Sys/A/c/p" : "/Sys/A/int/i8", blkA = k ? "/Sys/A/c" : "/Sys/A/int",
               bit = k ? "/Sys/A/c/n/b/lo" : "/Sys/B/bits/mid", bits = k ? "/Sys/A/c/n/b" : "/Sys/B/bits",
               other = k ? "/Sys/B/y" : "/Sys/B/txt/ba", sb = "/Sys/A";
        auto &d = b.dom("D0", {leafA});
        b.conf(d, "x", b.rule(rAll({b.is("C1", "a")})), 1);
        b.conf(d, "y", b.rule(rAll({b.is("C1", "b")})), 2);
        w.prefix.clear();
        for (auto &n : S.nodes) w.prefix.push_back({"!hget", n.path}); // creates the handle
        Ops own{{"setTuningMode", "on"}, {"setTuningMode", "off"}, {"createDomain", "E"}, {"deleteDomain", "E"}, {"deleteDomain", "D0"},
                {"removeElement", "D0", leafA}, {"deleteAllDomains"}, {"!crit", "C1", "1"}, {"!apply"}, {"setAutoSync", "off"},
                {"!xa"}, {"!xd", "D0"}};
        for (auto dn : {"D0", "E"})
            for (auto &e : {blkA, bit, bits, other, sb}) own.push_back({"addElement", dn, e});
        for (auto dn : {"D0", "E"})
            for (auto &e : {blkA, bits, sb}) own.push_back({"splitDomain", dn, e}), own.push_back({"removeElement", dn, e});
        vector<i64> start = w.started().first.main;
        Ops probe;
        for (auto &n : S.nodes) {
            bool neg = false, big = false; // what unsigned or signed reading makes of these is left open
            for (int l = n.leaf0; l < n.leaf1; l++) neg = neg || start[size_t(l)] < 0, big = big || start[size_t(l)] > INT32_MAX;
            probe.push_back({"!hget", n.path});
            probe.push_back({"!rogue", n.path});
            if (n.kind != "P") {
                probe.push_back({"!ht", "u", "0", n.path, "1"});
                probe.push_back({"!hg", "u", "0", n.path});
                probe.push_back({"!hg", "t", "1", n.path});
                continue;
            }
            vector<std::pair<string, string>> vals; // kind, value
            for (auto kind : {"b", "u", "s", "d", "t"}) {
                std::set<string> seen;
                for (int q = 0; q < (T ? 5 : 2); q++) {
                    string x;
                    if (!Model::typedText(n.t, kind[0], edgeVal(n.t, q + 1), x)) x = kind[0] == 't' ? "zz" : "1";
                    if ((kind[0] == 'u' && x[0] == '-') || (kind[0] == 's' && strtoll(x.c_str(), nullptr, 10) > INT32_MAX)) x = "1";
                    if (seen.insert(x).second) vals.push_back({kind, x});
                }
                if ((kind[0] == 'u' && neg) || (kind[0] == 's' && big)) continue;
                for (auto dim : {"0", "1"}) probe.push_back({"!hg", kind, dim, n.path});
            }
            for (auto &v : vals) {
                probe.push_back({"!ht", v.first, "0", n.path, v.second});
                std::set<int> lens{0, 1, std::max(1, n.len), std::max(1, n.len) + 1, std::max(1, n.len) - 1};
                for (int len : lens) {
                    Op op{"!ht", v.first, "1", n.path};
                    for (int i = 0; i < len; i++) op.push_back(v.second);
                    probe.push_back(op);
                }
            }
            // a different value for each element, one of them perhaps refused
            if (n.len > 1)
                for (auto kind : {"b", "u", "s", "d", "t"}) {
                    vector<string> good;
                    for (int q = 0; q < n.len + 2; q++) {
                        string x;
                        if (!Model::typedText(n.t, kind[0], edgeVal(n.t, q + 1), x)) break;
                        if ((kind[0] == 'u' && x[0] == '-') || (kind[0] == 's' && strtoll(x.c_str(), nullptr, 10) > INT32_MAX)) continue;
                        good.push_back(x);
                    }
                    if (good.size() < 2) continue;
                    for (size_t from = 0; from < 2; from++) {
                        Op op{"!ht", kind, "1", n.path};
                        for (size_t i = 0; i < size_t(n.len); i++) op.push_back(good[(from + i) % good.size()]);
                        probe.push_back(op);
                    }
                    string bad = n.t.k == T_INT && n.t.size < 4 ? "70000000" : n.t.k == T_ENUM && kind[0] == 't' ? "no such literal" : "";
                    if (bad.empty()) continue;
                    for (size_t at = 0; at < size_t(n.len); at++) {
                        Op op{"!ht", kind, "1", n.path};
                        for (size_t i = 0; i < size_t(n.len); i++) op.push_back(i == at ? bad : good[i % good.size()]);
                        probe.push_back(op);
                    }
                }
        }
        int D = T ? 4 : 3;
        c.explore(w, [=](const State &s, const Model &, int dep) {
            Ops r;
            bool changed = s.main != start;
            if (dep < D) r = own;
            if (!changed) r = r + probe;
            return r;
        }, D + 1, T ? 6000 : 1500);
    }
    // what a handle keeps from one use to the next: every history, none merged with another
    {
        auto S = stdStructure();
        struct Kept
        {
            World w;
            vector<Ops> steps;
        };
        auto ks = std::make_shared<vector<Kept>>();
        const vector<string> els{"/Sys/A/c/p", "/Sys/A/c/n/b/lo", "/Sys/A/c/n/b", "/Sys/A/c/n", "/Sys/A/c", "/Sys/A", "/Sys/B/y", "/Sys"};
        for (auto &e : els)
            for (int has = 0; has < 2; has++) { // with a configuration or without
                if (!T && has != (&e - &els[0]) % 2) continue;
                WB b("P13kept", S);
                auto &d = b.dom("D0", {e == "/Sys/B/y" ? "/Sys/A/x" : "/Sys/B/y"});
                if (has) b.conf(d, "x", b.rule(rAll({})), 1);
                auto &n = S->nodes[size_t(S->byPath.at(e))];
                b.w.prefix = {{"!grab", "0", e, "x"}, {"!grab", "1", e, "b"}, {"!rogue", e}};
                Kept k{b.w, {}};
                if (n.kind == "P") {
                    k.steps.push_back({{"!ht", "u", "0", e, "3"}});
                    k.steps.push_back({{"!ht", "t", "0", e, "5"}});
                }
                k.steps.push_back({{"!put", "0", "X"}});
                if (n.t.k != T_BIT) k.steps.push_back({{"!put", "1", "B"}}); // (bits have no bytes of their own)
                k.steps.push_back({{"!rogue", e}});
                // ownership of the element, one above, one below
                vector<string> near{e};
                size_t up = e.rfind('/');
                if (up) near.push_back(e.substr(0, up));
                for (auto &m : S->nodes)
                    if (m.path.size() > e.size() && m.path.compare(0, e.size() + 1, e + "/") == 0) {
                        near.push_back(m.path);
                        break;
                    }
                auto tuned = [&](const Op &op) { k.steps.push_back({{"setTuningMode", "on"}, op, {"setTuningMode", "off"}}); };
                for (auto &p : near) {
                    if (p == "/Sys") {
                        if (e == p) continue;
                    }
                    tuned({"addElement", "D0", p});
                    tuned({"removeElement", "D0", p});
                    tuned({"splitDomain", "D0", p});
                }
                tuned({"deleteDomain", "D0"});
                tuned({"deleteAllDomains"});
                tuned({"createDomain", "D0"});
                k.steps.push_back({{"setTuningMode", "on"}});
                k.steps.push_back({{"setTuningMode", "off"}});
                ks->push_back(k);
            }
        int D = T ? 5 : 4;
        c.bounds.push_back("P13kept: " + std::to_string(ks->size()) + " worlds, for one element each: every history of " + std::to_string(D) +
                           " writes through its handle, ownership and mode changes; none merged");
        struct It
        {
            size_t k, a, b;
        };
        auto its = std::make_shared<vector<It>>();
        for (size_t k = 0; k < ks->size(); k++)
            for (size_t a = 0; a < (*ks)[k].steps.size(); a++)
                for (size_t q = 0; q < (*ks)[k].steps.size(); q++) its->push_back({k, a, q});
        c.items_("P13kept", long(its->size()), [ks, its, D](Ctx &x, long item) {
            auto &it = (*its)[size_t(item)];
            Kept &k = (*ks)[it.k];
            size_t n = k.steps.size();
            long all = 1;
            for (int i = 2; i < D; i++) all *= long(n);
            for (long h = 0; h < all; h++) {
                Checker::Run run(k.w, x);
                if (!run.fresh(false)) return false;
                vector<size_t> seq{it.a, it.b};
                long r = h;
                for (int i = 2; i < D; i++, r /= long(n)) seq.push_back(size_t(r % long(n)));
                for (size_t i = 0; i < seq.size(); i++)
                    for (auto &op : k.steps[seq[i]]) {
                        x.sh->transitions++;
                        if (!run.step(op, false)) return false;
                    }
                x.sh->states++;
                x.sh->validated++;
                string d = diffText(run.m.observe(run.s), run.r->observe());
                if (!d.empty()) return x.violate("at the end: " + d);
            }
            return true;
        }, 4);
    }
    lasting(c, "P13");
    return c.finish("model_checking",
                    "handles on every element created first, then every ownership and mode history up to the depth, and in each state every accessor: "
                    "every type, scalar and array, right and wrong lengths (none, one less, one more), values at the ends of the range");
}
Reg r13("P13", p13);
} // namespace
