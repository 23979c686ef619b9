// P22: the C interface. All call sequences up to a depth over valid and invalid
// calls, each checked against the reference model behind a small model of the
// interface's own state (started or not, last error).
#include "drivers.h"
#include "worldset.h"
#include "ParameterFramework.h"

namespace
{
struct Call
{
    // start V | setc name v | getc name | apply | bind path | unbind path | geti/gets path | seti/sets path v
    vector<string> a;
    string text() const { return Checker::opText(a); }
};
struct Files
{
    string ok, badXml, wrongRoot, noStructure, badSettings, noPlugin;
};
World cWorld(const string &name)
{
    auto S = std::make_shared<Structure>(
        "Sys",
        vector<ND>{sub("A", {pb("c", {ranged(u8("p", "Obj:A_p"), 0, 100), u8("q", "Obj:A_q", 2)}), u8("x", "Obj:A_x"),
                             ranged(integer("s", 2, true, "Obj:A_s"), -300, 300), boolean("b", "Obj:A_b"),
                             enumeration("e", {{"one", 1}, {"two", 2}, {"ten", 10}}, "Obj:A_e"),
                             strParam("t", 6, "Obj:A_t"), integer("w", 4, false, "Obj:A_w"),
                             fixedPt("f", 2, 3, 4, "Obj:A_f"), u8("r", "Obj:A_r", 2),
                             bitBlock("k", 1, {{"lo", 0, 4}, {"hi", 4, 4}}, "Obj:A_k")}),
                   sub("B", {u16("y", "Obj:B_y")})},
        stdCrits());
    WB b(name, S);
    Dom &d = b.dom("D1", {"/Sys/A/c", "/Sys/B/y"});
    b.conf(d, "K1", b.rule(rAll({b.is("C1", "b")})), 1);
    b.conf(d, "K2", b.rule(rAll({rCrit(*S, "C2", M_INC, "f1|f3")})), 2);
    b.conf(d, "K3", b.rule(rAny({b.is("C1", "c")})), 3);
    b.w.tuningAllowed = false;
    return b.w;
}
void logCb(void *ctx, PfwLogLevel, const char *line) { *static_cast<size_t *>(ctx) += strlen(line); }

struct CApi
{
    World &W;
    Model m;
    State s;
    bool started = false;
    int c3 = 0;          // state of the additional criterion of one start variant
    bool withC3 = false;
    std::map<string, PfwParameterHandler *> h;
    PfwHandler *pfw;
    Env env;
    Files F;
    size_t logged = 0;
    Ctx &c;
    string last;
    CApi(World &w, Ctx &cx) : W(w), m(*w.S, w.R), c(cx)
    {
        m.tuningAllowed = false;
        W.files();
        F.ok = W.dir + "/config.xml";
        F.badXml = W.dir + "/badxml.xml", F.wrongRoot = W.dir + "/wrongroot.xml";
        F.noStructure = W.dir + "/nostructure.xml", F.badSettings = W.dir + "/badsettings.xml";
        F.noPlugin = W.dir + "/noplugin.xml";
        string cfg = readFile(F.ok);
        auto rep = [&](const string &a, const string &b) {
            string r = cfg;
            auto p = r.find(a);
            if (p == string::npos) abort();
            return r.replace(p, a.size(), b);
        };
        struct stat st;
        if (stat(F.noPlugin.c_str(), &st)) {
            writeFile(F.badXml, cfg.substr(0, cfg.size() / 2));
            writeFile(F.wrongRoot, "<?xml version=\"1.0\"?><Other/>");
            writeFile(F.noStructure, rep("/structure.xml", "/nothere.xml"));
            writeFile(F.badSettings, rep("/settings.xml", "/settings2.xml"));
            string set = readFile(W.dir + "/settings.xml");
            auto p = set.find("/Sys/A/c\"");
            if (p == string::npos) abort();
            writeFile(W.dir + "/settings2.xml", set.replace(p, 9, "/Sys/A/zz\""));
            writeFile(F.noPlugin, rep("libmcplugin.so", "libnothere.so"));
        }
        create();
    }
    void create()
    {
        env = Env();
        for (size_t b = 0; b < W.S->objs.size(); b++) env.shadow[W.S->objs[b].name] = W.S->objBytes(int(b), W.init.hw);
        pfw = pfwCreate();
        s = W.init;
        started = false, c3 = 0, withC3 = false;
    }
    void destroy()
    {
        for (auto &x : h) pfwUnbindParameter(x.second);
        h.clear();
        Env *saved = g_env;
        g_env = &env;
        pfwDestroy(pfw);
        g_env = saved;
    }
    ~CApi() { destroy(); }
    bool bad(const string &w) { return c.violate(w); }
    // message of the last call
    bool report(const Call &k, bool ok)
    {
        const char *e = pfwGetLastError(pfw);
        if (!e) return bad("null error after " + k.text());
        last = e;
        if (ok && *e) return bad("error left after success of " + k.text() + ": " + last);
        if (!ok && !*e) return bad("no error after failure of " + k.text());
        if (last != pfwGetLastError(pfw)) return bad("reading the error changes it");
        return true;
    }
    bool doStart(const string &v, bool &ok, bool &expect)
    {
        static const char *va[] = {"a", "b", "c", nullptr}, *vb[] = {"f1", "f2", "f3", nullptr},
                          *dup[] = {"a", "b", "a", nullptr}, *none[] = {"f1", "none", nullptr}, *empty[] = {nullptr};
        static vector<string> names;
        static vector<const char *> many;
        if (names.empty()) {
            for (int i = 0; i < 32; i++) names.push_back("v" + std::to_string(i));
            for (auto &n : names) many.push_back(n.c_str());
            many.push_back(nullptr);
        }
        vector<const char *> m31(many.begin() + 1, many.end());
        vector<PfwCriterion> cr = {{"C1", false, va}, {"C2", true, vb}};
        string f = F.ok;
        PfwLogger lg = {&logged, logCb}, quiet = {nullptr, nullptr};
        const PfwLogger *pl = &lg;
        bool good = true, extra = false;
        if (v == "ok") {
        } else if (v == "nolog") pl = &quiet;
        else if (v == "stdlog") pl = nullptr;
        else if (v == "extra") cr.push_back({"C3", true, m31.data()}), extra = true;
        else if (v == "extrax") cr.push_back({"C3", false, many.data()}), extra = true;
        else if (v == "emptyvals") cr.push_back({"C3", false, empty}), extra = true;
        else {
            good = false;
            if (v == "nofile") f = W.dir + "/nothere_config.xml";
            else if (v == "emptypath") f = "";
            else if (v == "badxml") f = F.badXml;
            else if (v == "wrongroot") f = F.wrongRoot;
            else if (v == "nostructure") f = F.noStructure;
            else if (v == "badsettings") f = F.badSettings;
            else if (v == "noplugin") f = F.noPlugin;
            else if (v == "nullname") cr[0].name = nullptr;
            else if (v == "nullvalues") cr[0].values = nullptr;
            else if (v == "latenull") cr.push_back({nullptr, false, va});
            else if (v == "dupname") cr.push_back({"C1", true, vb});
            else if (v == "dupvalue") cr[0].values = dup;
            else if (v == "none") cr[1].values = none;
            else if (v == "many") cr.push_back({"C3", true, many.data()});
            else if (v == "nocriteria") cr.clear();
            else if (v == "nocriteria2") cr.pop_back();
            else abort();
        }
        expect = good && !started;
        bool was = started;
        Env *saved = g_env;
        g_env = &env;
        if (!was) env.log.clear();
        PfwCriterion dummy{};
        ok = pfwStart(pfw, f.c_str(), cr.empty() ? &dummy : cr.data(), cr.size(), pl);
        g_env = saved;
        if (ok && expect) {
            started = true, withC3 = extra, c3 = 0;
            Model mm(*W.S, W.R);
            mm.tuningAllowed = false;
            s = W.init;
            Outcome o = mm.start(s);
            string d = cmpHw(o, hwLog());
            if (!d.empty()) return bad("at start: " + d);
        }
        return true;
    }
    vector<HwEvent> hwLog()
    {
        vector<HwEvent> r = env.log;
        for (auto &e : r) e.bytes = W.S->canonObj(e.obj, e.bytes);
        return r;
    }
    int critIdx0(const string &n)
    {
        for (size_t i = 0; i < W.S->crits.size(); i++)
            if (W.S->crits[i].name == n) return int(i);
        return -1;
    }
    bool isParam(const string &p)
    {
        auto it = W.S->byPath.find(p);
        return it != W.S->byPath.end() && W.S->nodes[size_t(it->second)].isParam();
    }
    bool can(const Call &k)
    {
        const string &o = k.a[0];
        if (o == "unbind" || o == "geti" || o == "gets" || o == "seti" || o == "sets") return h.count(k.a[1]) != 0;
        return true;
    }
    bool step(const Call &k)
    {
        const string &o = k.a[0];
        bool ok = false, expect = false;
        Outcome mo;
        string val;
        env.log.clear();
        if (o == "start") {
            if (!doStart(k.a[1], ok, expect)) return false;
            if (ok != expect) return bad(k.text() + (ok ? " succeeded" : " failed: " + string(pfwGetLastError(pfw))));
            return report(k, ok);
        }
        if (o == "!fail" || o == "!heal") {
            if (o == "!fail") env.failWrite.insert(k.a[1]);
            else env.failWrite.erase(k.a[1]);
            m.exec(s, {o, k.a[1]});
            return true;
        }
        if (o == "setc") {
            int v = atoi(k.a[2].c_str());
            ok = pfwSetCriterion(pfw, k.a[1].c_str(), v);
            bool isC3 = k.a[1] == "C3";
            int ci = critIdx0(k.a[1]);
            expect = started && (ci >= 0 || (isC3 && withC3));
            if (expect && !ok && outOfRange(k.a[1], v)) expect = false; // may be refused
            if (expect) {
                if (isC3) c3 = v;
                else m.exec(s, {"!crit", k.a[1], std::to_string(v)});
            }
        } else if (o == "getc") {
            int v = -77;
            ok = pfwGetCriterion(pfw, k.a[1].c_str(), &v);
            bool isC3 = k.a[1] == "C3";
            int ci = critIdx0(k.a[1]);
            expect = started && (ci >= 0 || (isC3 && withC3));
            int want = isC3 ? c3 : ci >= 0 ? s.crit[size_t(ci)] : 0;
            if (ok && expect && v != want)
                return bad(k.text() + ": got " + std::to_string(v) + " expected " + std::to_string(want));
        } else if (o == "apply") {
            ok = pfwApplyConfigurations(pfw);
            expect = started;
            if (started) mo = m.exec(s, {"!apply"});
        } else if (o == "bind") {
            auto p = pfwBindParameter(pfw, k.a[1].c_str());
            ok = p != nullptr;
            expect = started && isParam(k.a[1]);
            if (p) {
                if (h.count(k.a[1])) pfwUnbindParameter(p);
                else h[k.a[1]] = p;
            }
        } else if (o == "unbind") {
            pfwUnbindParameter(h[k.a[1]]);
            h.erase(k.a[1]);
            return true; // cannot fail, reports nothing
        } else {
            auto p = h[k.a[1]];
            bool set = o[0] == 's', str = o[3] == 's';
            Op op{set ? "!ht" : "!hg", str ? "t" : "s", "0", k.a[1]};
            if (set) op.push_back(k.a[2]);
            mo = m.exec(s, op);
            expect = mo.ok;
            if (!set && !str) {
                int32_t v = -77;
                ok = pfwGetIntParameter(p, &v);
                val = std::to_string(v);
            } else if (!set) {
                char *v = reinterpret_cast<char *>(8);
                ok = pfwGetStringParameter(p, &v);
                if (!ok && v) return bad(k.text() + ": failed without a null string");
                if (ok && !v) return bad(k.text() + ": no string");
                if (ok) val = v, pfwFree(v);
            } else if (!str)
                ok = pfwSetIntParameter(p, int32_t(strtoll(k.a[2].c_str(), nullptr, 10)));
            else
                ok = pfwSetStringParameter(p, k.a[2].c_str());
            // an unsigned value with no int32_t representation: no promise on what is read
            if (!set && !str && mo.ok && atoll(mo.val.c_str()) > INT32_MAX) expect = ok, val = mo.val;
            if (ok == expect && ok && !set && val != mo.val)
                return bad(k.text() + ": got '" + val + "' expected '" + mo.val + "'");
        }
        if (ok != expect)
            return bad(k.text() + (ok ? " succeeded" : " failed: " + string(pfwGetLastError(pfw))) + ", expected " +
                       (expect ? "success" : "failure"));
        string d = cmpHw(mo, hwLog());
        if (!d.empty()) return bad(k.text() + ": " + d);
        return report(k, ok);
    }
    bool outOfRange(const string &n, int v)
    {
        if (n == "C1") return v < 0 || v > 2;
        if (n == "C2") return v < 0 || v > 7;
        return true;
    }
    // everything observable through the interface
    bool observe(const string &after)
    {
        if (!started) return true;
        for (size_t i = 0; i < W.S->crits.size(); i++) {
            int v = -77;
            if (!pfwGetCriterion(pfw, W.S->crits[i].name.c_str(), &v) || v != s.crit[i])
                return bad("after " + after + ": criterion " + W.S->crits[i].name + " is " + std::to_string(v));
        }
        if (withC3) {
            int v = -77;
            if (!pfwGetCriterion(pfw, "C3", &v) || v != c3) return bad("after " + after + ": criterion C3 is " + std::to_string(v));
        }
        for (auto &n : W.S->nodes) {
            if (!n.isParam() || n.len) continue;
            auto p = pfwBindParameter(pfw, n.path.c_str());
            if (!p) return bad("cannot bind " + n.path);
            char *v = nullptr;
            bool ok = pfwGetStringParameter(p, &v);
            string got = ok ? v : "", want = m.getText(n.path, s.main);
            pfwFree(v);
            pfwUnbindParameter(p);
            if (!ok || got != want) return bad("after " + after + ": " + n.path + " is " + got + ", expected " + want);
        }
        for (size_t b = 0; b < W.S->objs.size(); b++) {
            string n = W.S->objs[b].name, got = W.S->canonObj(n, env.shadow[n]), want = W.S->objBytes(int(b), s.hw);
            if (got != W.S->canonObj(n, want)) return bad("after " + after + ": hardware " + n + " differs");
        }
        return true;
    }
    string key() { return (started ? s.key() + "#" + std::to_string(c3) + std::to_string(withC3) : string("-")); }
};
typedef vector<Call> Calls;
Calls operator+(Calls a, const Calls &b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
Calls mk(std::initializer_list<vector<string>> l)
{
    Calls r;
    for (auto &x : l) r.push_back({x});
    return r;
}
// all sequences of the alphabet, n calls after a fixed beginning
bool sequences(Checker &c, World &W, const string &name, const Calls &al, int depth, const Calls &pre = {})
{
    size_t k = al.size();
    size_t lead = depth >= 3 ? 2 : 1;
    long items = long(k);
    if (lead == 2) items *= long(k);
    c.bounds.push_back(name + ": all sequences of " + std::to_string(depth) + " of " + std::to_string(k) + " calls" +
                       (pre.empty() ? "" : " after " + std::to_string(pre.size()) + " fixed ones"));
    return c.items_(name, items, [&, lead](Ctx &cx, long it) {
        alarm(200);
        static std::map<string, string> messages; // state and call -> error text
        vector<size_t> ix;
        if (lead == 2) ix = {size_t(it) / k, size_t(it) % k};
        else ix = {size_t(it)};
        ix.resize(size_t(depth), 0);
        std::unique_ptr<CApi> api;
        for (;;) {
            // one execution of the sequence ix
            string t = "fresh handle";
            for (auto &p : pre) t += "\n" + p.text();
            cx.note(t);
            if (!api) api.reset(new CApi(W, cx));
            else api->destroy(), api->create();
            CApi &a = *api;
            if (*pfwGetLastError(a.pfw)) return cx.violate("error on a fresh handle");
            for (auto &p : pre)
                if (!a.step(p)) return false;
            size_t ran = 0;
            for (size_t d = 0; d < ix.size(); d++) {
                const Call &q = al[ix[d]];
                if (!a.can(q)) {
                    ran = d + 1;
                    break;
                }
                cx.append("\n" + q.text());
                string key = a.key() + q.text();
                if (!a.step(q)) return false;
                cx.sh->states++;
                auto m = messages.emplace(key, a.last);
                if (q.a[0] != "unbind" && q.a[0][0] != '!' && m.first->second != a.last)
                    return cx.violate("the error of " + q.text() + " depends on earlier failures: '" + m.first->second +
                                      "' / '" + a.last + "'");
                ran = d + 1;
            }
            if (!a.observe(al[ix[ran - 1]].text())) return false;
            cx.sh->validated++;
            // next sequence, skipping those with the same infeasible prefix
            for (size_t d = ran; d < ix.size(); d++) ix[d] = k - 1;
            size_t p = ix.size();
            while (p > lead && ix[p - 1] + 1 == k) ix[--p] = 0;
            if (p == lead) return true;
            ix[p - 1]++;
        }
    }, 1, 200);
}
// two handles at once: each behaves, and reports, as it would alone
void twoHandles(Checker &c, World &W)
{
    const Calls al = mk({{"start", "ok"}, {"start", "nolog"}, {"start", "dupname"}, {"start", "extra"}, {"setc", "C1", "1"}, {"setc", "CX", "1"}, {"getc", "C3"}, {"apply"},
                         {"bind", "/Sys/A/x"}, {"bind", "/Sys/A"}, {"seti", "/Sys/A/x", "5"}, {"seti", "/Sys/A/x", "300"}, {"gets", "/Sys/A/c/p"}, {"gets", "/Sys/A/x"},
                         {"unbind", "/Sys/A/x"}, {"!again"}});
    long k = long(al.size()), all = 2 * k;
    const Calls pre = mk({{"start", "ok"}, {"bind", "/Sys/A/x"}, {"bind", "/Sys/A/c/p"}});
    int depth = c.thorough ? 4 : 3;
    c.bounds.push_back("two handles: all interleaved sequences of " + std::to_string(depth) + " of " + std::to_string(k) + " calls on each of two handles, none, one or both started before");
    c.items_("handles", 3 * all, [&, k, all, depth, pre, al](Ctx &cx, long it) {
        alarm(200);
        int before = int(it / all);
        vector<long> ix(size_t(depth), 0);
        ix[0] = it % all;
        for (;;) {
            cx.note(before == 0 ? "two fresh handles" : before == 1 ? "handle 0 started" : "both handles started");
            CApi a(W, cx), b(W, cx);
            CApi *h[2] = {&a, &b};
            for (int i = 0; i < before; i++)
                for (auto &p : pre)
                    if (!h[i]->step(p)) return false;
            size_t ran = ix.size();
            for (size_t d = 0; d < ix.size(); d++) {
                int i = int(ix[d] / k);
                const Call &q = al[size_t(ix[d] % k)];
                bool ok = q.a[0] == "!again" ? true : h[i]->can(q);
                if (!ok) {
                    ran = d + 1;
                    break;
                }
                cx.append("\nhandle " + std::to_string(i) + ": " + q.text());
                string err = pfwGetLastError(h[1 - i]->pfw);
                size_t logged = h[1 - i]->logged;
                vector<HwEvent> log = h[1 - i]->env.log;
                if (q.a[0] == "!again") h[i]->destroy(), h[i]->create();
                else if (!h[i]->step(q)) return false;
                cx.sh->states++, cx.sh->transitions++;
                if (err != pfwGetLastError(h[1 - i]->pfw)) return cx.violate("the error of the other handle changed from '" + err + "' to '" + pfwGetLastError(h[1 - i]->pfw) + "'");
                if (logged != h[1 - i]->logged) return cx.violate("logged to the other handle's logger");
                if (log.size() != h[1 - i]->env.log.size()) return cx.violate("the hardware of the other handle was written");
            }
            if (!a.observe("all on handle 0") || !b.observe("all on handle 1")) return false;
            cx.sh->validated++;
            for (size_t d = ran; d < ix.size(); d++) ix[d] = all - 1;
            size_t p = ix.size();
            while (p > 1 && ix[p - 1] + 1 == all) ix[--p] = 0;
            if (p == 1) return true;
            ix[p - 1]++;
        }
    }, 1, 200);
}
const string xmlHead = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
// many criteria, many values, many bound parameters, many strings held
void manyOf(Checker &c)
{
    const vector<int> counts{1, 2, 9, 10, 11, 15, 16, 17, 30, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 600};
    c.bounds.push_back("many: " + std::to_string(counts.size()) + " counts up to 600 of criteria, of values of an exclusive and up to 31 of an inclusive criterion, and of parameters bound and strings held");
    c.items_("many", long(counts.size()) * 3, [counts](Ctx &cx, long it) {
        int n = counts[size_t(it / 3)], kind = int(it % 3);
        if (kind == 2 && n > 31) return true;
        // 0: n criteria of 3 values; 1: one exclusive criterion of n values; 2: one inclusive criterion of n values
        cx.note(kind == 0 ? std::to_string(n) + " criteria of 3 values" : "one criterion of " + std::to_string(n) + (kind == 1 ? " exclusive values" : " inclusive values"));
        int nc = kind == 0 ? n : 1, nv = kind == 0 ? 3 : n;
        vector<string> cn, vn;
        for (int i = 0; i < nc; i++) cn.push_back("K" + std::to_string(i));
        for (int i = 0; i < nv; i++) vn.push_back("v" + std::to_string(i));
        vector<const char *> vals;
        for (auto &v : vn) vals.push_back(v.c_str());
        vals.push_back(nullptr);
        vector<PfwCriterion> cr;
        for (auto &q : cn) cr.push_back({q.c_str(), kind == 2, vals.data()});
        string dir = g_scratch + "/cmany" + std::to_string(n) + "_" + std::to_string(kind) + "_" + std::to_string(getpid());
        mkdir(dir.c_str(), 0755);
        string structure, confs, settings;
        for (int i = 0; i < n; i++)
            structure += "<IntegerParameter Name=\"p" + std::to_string(i) + "\" Size=\"16\" Mapping=\"Obj:o" + std::to_string(i) + "\"/>";
        structure += "<IntegerParameter Name=\"chosen\" Size=\"16\" Mapping=\"Obj:chosen\"/>";
        // configuration j: criterion j has its last value / the criterion has (holds) value j
        for (int j = 0; j <= n; j++) {
            string rule = j == n ? "" : "<SelectionCriterionRule SelectionCriterion=\"K" + std::to_string(kind ? 0 : j) + "\" MatchesWhen=\"" + (kind == 2 ? "Includes" : "Is") +
                                            "\" Value=\"v" + std::to_string(kind ? j : 2) + "\"/>";
            string name = j == n ? "other" : "c" + std::to_string(j);
            confs += "<Configuration Name=\"" + name + "\"><CompoundRule Type=\"All\">" + rule + "</CompoundRule></Configuration>";
            settings += "<Configuration Name=\"" + name + "\"><ConfigurableElement Path=\"/Sys/A/chosen\"><IntegerParameter Name=\"chosen\">" + std::to_string(j + 1) +
                        "</IntegerParameter></ConfigurableElement></Configuration>";
        }
        writeFile(dir + "/structure.xml", string(xmlHead) + "<SystemClass Name=\"Sys\"><Subsystem Name=\"A\" Type=\"MC\"><ComponentLibrary/><InstanceDefinition>" + structure +
                                              "</InstanceDefinition></Subsystem></SystemClass>\n");
        writeFile(dir + "/settings.xml", string(xmlHead) + "<ConfigurableDomains SystemClassName=\"Sys\"><ConfigurableDomain Name=\"D\"><Configurations>" + confs +
                                             "</Configurations><ConfigurableElements><ConfigurableElement Path=\"/Sys/A/chosen\"/></ConfigurableElements><Settings>" + settings +
                                             "</Settings></ConfigurableDomain></ConfigurableDomains>\n");
        writeFile(dir + "/config.xml", string(xmlHead) + "<ParameterFrameworkConfiguration SystemClassName=\"Sys\" ServerPort=\"5000\" TuningAllowed=\"false\"><SubsystemPlugins><Location Folder=\"" +
                                           g_pluginDir + "\"><Plugin Name=\"libmcplugin.so\"/></Location></SubsystemPlugins><StructureDescriptionFileLocation Path=\"structure.xml\"/>"
                                           "<SettingsConfiguration><ConfigurableDomainsFileLocation Path=\"settings.xml\"/></SettingsConfiguration></ParameterFrameworkConfiguration>\n");
        Env env;
        g_env = &env;
        PfwHandler *pfw = pfwCreate();
        size_t logged = 0;
        PfwLogger lg = {&logged, logCb};
        auto fail = [&](const string &w) { return cx.violate(w + " (last error: " + pfwGetLastError(pfw) + ")"); };
        if (!pfwStart(pfw, (dir + "/config.xml").c_str(), cr.data(), cr.size(), &lg)) return fail("start refused");
        vector<int> st(size_t(nc), 0);
        vector<PfwParameterHandler *> h;
        vector<char *> held;
        vector<string> want;
        auto chosen = pfwBindParameter(pfw, "/Sys/A/chosen");
        if (!chosen) return fail("cannot bind");
        auto check = [&]() {
            for (int i = 0; i < nc; i++) {
                int v = -77;
                if (!pfwGetCriterion(pfw, cn[size_t(i)].c_str(), &v) || v != st[size_t(i)])
                    return fail("criterion " + cn[size_t(i)] + " is " + std::to_string(v) + ", expected " + std::to_string(st[size_t(i)]));
            }
            int w = n + 1;
            for (int j = n - 1; j >= 0; j--)
                if (kind == 0 ? st[size_t(j)] == 2 : kind == 1 ? st[0] == j : (st[0] >> j & 1) != 0) w = j + 1;
            if (!pfwApplyConfigurations(pfw)) return fail("apply failed");
            int32_t v = -1;
            if (!pfwGetIntParameter(chosen, &v)) return fail("cannot read");
            cx.sh->transitions++;
            if (v != w) return fail("configuration " + std::to_string(v - 1) + " chosen, expected " + std::to_string(w - 1));
            return true;
        };
        if (!check()) return false;
        for (int i = 0; i < n; i++) {
            int q = kind ? 0 : i, v = kind == 0 ? 1 : kind == 1 ? i : int(1u << i);
            cx.note(cn[size_t(q)] + " := " + std::to_string(v));
            if (!pfwSetCriterion(pfw, cn[size_t(q)].c_str(), v)) return fail("criterion refused");
            st[size_t(q)] = v;
            if (!check()) return false;
            if (kind == 0) {
                if (!pfwSetCriterion(pfw, cn[size_t(q)].c_str(), 2)) return fail("criterion refused");
                st[size_t(q)] = 2;
                if (!check()) return false;
                st[size_t(q)] = 1;
                if (!pfwSetCriterion(pfw, cn[size_t(q)].c_str(), 1)) return fail("criterion refused");
            } else if (kind == 2) {
                int more = st[0] | 1 << (n - 1 - i) | 1;
                if (!pfwSetCriterion(pfw, "K0", more)) return fail("criterion refused");
                st[0] = more;
                if (!check()) return false;
            }
        }
        // each bound, set to a value of its own, read, and all the strings kept
        for (int i = 0; i < n; i++) {
            auto p = pfwBindParameter(pfw, ("/Sys/A/p" + std::to_string(i)).c_str());
            if (!p) return fail("cannot bind parameter " + std::to_string(i));
            h.push_back(p);
            if (!pfwSetIntParameter(p, i * 7)) return fail("cannot set parameter " + std::to_string(i));
        }
        for (int i = 0; i < n; i++) {
            char *t = nullptr;
            if (!pfwGetStringParameter(h[size_t(i)], &t) || !t) return fail("cannot read parameter " + std::to_string(i));
            held.push_back(t), want.push_back(std::to_string(i * 7));
        }
        for (int i = 0; i < n; i++) {
            if (want[size_t(i)] != held[size_t(i)]) return fail("string " + std::to_string(i) + " is " + held[size_t(i)] + ", expected " + want[size_t(i)]);
            int32_t v = -1;
            if (!pfwGetIntParameter(h[size_t(i)], &v) || v != i * 7) return fail("parameter " + std::to_string(i) + " reads " + std::to_string(v));
        }
        for (auto t : held) pfwFree(t);
        for (auto p : h) pfwUnbindParameter(p);
        if (!pfwGetIntParameter(chosen, &n)) return fail("cannot read after the others were unbound");
        pfwUnbindParameter(chosen);
        pfwDestroy(pfw);
        cx.sh->states++, cx.sh->validated++;
        return true;
    }, 1);
}
int p22(Checker &c)
{
    World W = cWorld("capi");
    const Calls starts = mk({{"start", "ok"}, {"start", "nolog"}, {"start", "stdlog"}, {"start", "extra"}, {"start", "extrax"},
                             {"start", "emptyvals"}, {"start", "nofile"}, {"start", "emptypath"}, {"start", "badxml"},
                             {"start", "wrongroot"}, {"start", "nostructure"}, {"start", "badsettings"}, {"start", "noplugin"},
                             {"start", "nullname"}, {"start", "nullvalues"}, {"start", "latenull"}, {"start", "dupname"},
                             {"start", "dupvalue"}, {"start", "none"}, {"start", "many"}, {"start", "nocriteria"},
                             {"start", "nocriteria2"}});
    const Calls misuse = mk({{"start", "ok"}, {"start", "nofile"}, {"start", "dupname"}, {"start", "badsettings"},
                             {"setc", "C1", "1"}, {"setc", "C1", "7"}, {"setc", "C2", "5"}, {"setc", "CX", "1"},
                             {"getc", "C1"}, {"getc", ""}, {"apply"}, {"bind", "/Sys/A/x"}, {"bind", "/Sys/A/c/p"},
                             {"bind", "/Sys/A"}, {"bind", ""}, {"seti", "/Sys/A/x", "5"}, {"seti", "/Sys/A/x", "300"},
                             {"seti", "/Sys/A/c/p", "5"}, {"geti", "/Sys/A/x"}, {"sets", "/Sys/A/x", "12"},
                             {"sets", "/Sys/A/x", "zz"}, {"gets", "/Sys/A/c/p"}, {"unbind", "/Sys/A/x"}});
    // every start variant before and after anything
    Calls mix = starts + mk({{"setc", "C1", "2"}, {"setc", "C3", "1"}, {"getc", "C3"}, {"getc", "C2"}, {"apply"},
                             {"bind", "/Sys/A/x"}, {"seti", "/Sys/A/x", "9"}, {"bind", "/nothere"}});
    sequences(c, W, "starts", mix, 3);
    sequences(c, W, "misuse", misuse, c.thorough ? 5 : 4);
    // started: criteria and configurations
    Calls crit = mk({{"apply"}});
    for (auto v : {"0", "1", "2", "3", "-1", "2147483647"}) crit.push_back({{"setc", "C1", v}});
    for (auto v : {"0", "1", "4", "5", "7", "8", "-1"}) crit.push_back({{"setc", "C2", v}});
    crit = crit + mk({{"getc", "C1"}, {"getc", "C2"}, {"getc", "C"}, {"setc", "", "1"}, {"setc", "c1", "1"}});
    sequences(c, W, "criteria", crit, c.thorough ? 4 : 3, mk({{"start", "ok"}}));
    // every kind of parameter, every access
    vector<string> paths;
    for (auto &n : W.S->nodes)
        if (n.isParam()) paths.push_back(n.path);
    vector<string> ints = {"0", "1", "2", "10", "100", "101", "255", "256", "-1", "-300", "-301", "300", "301",
                           "2147483647", "-2147483648"};
    vector<string> strs = {"0", "1", "7", "0x10", "255", "256", "-1", "two", "ten", "ONE", "", "abc", "sixsix", "sevense", "1.5",
                           "-4.0625", "3.9375", "9", "4294967295", " 1", "1 2", "300", "x&<"};
    Calls acc;
    for (auto &p : paths) {
        acc.push_back({{"geti", p}});
        acc.push_back({{"gets", p}});
        for (auto &v : ints) acc.push_back({{"seti", p, v}});
        for (auto &v : strs) acc.push_back({{"sets", p, v}});
    }
    Calls bindAll = mk({{"start", "ok"}});
    for (auto &p : paths) bindAll.push_back({{"bind", p}});
    // pairs of accesses of the same parameter, with failures in between
    c.bounds.push_back("access: " + std::to_string(paths.size()) + " parameters, all ordered pairs of the " +
                       std::to_string(acc.size() / paths.size()) + " accesses of each, after a failed call or not");
    size_t per = acc.size() / paths.size();
    c.items_("access", long(acc.size()), [&](Ctx &cx, long it) {
        CApi a(W, cx);
        cx.note("started, all bound");
        for (auto &p : bindAll)
            if (!a.step(p)) return false;
        size_t base = size_t(it) / per * per;
        std::map<string, string> msg;
        for (int pass = 0; pass < 3; pass++)
            for (size_t j = base; j < base + per; j++) {
                cx.note("started, all bound\n" + acc[size_t(it)].text() + (pass ? "\na failing call\n" : "\n") + acc[j].text());
                if (!a.step(acc[size_t(it)])) return false;
                if (pass == 1 && !a.step({{"setc", "CX", "1"}})) return false;
                if (pass == 2 && !a.step({{"sets", "/Sys/A/x", "bad value"}})) return false;
                if (!a.step(acc[j])) return false;
                cx.sh->validated++, cx.sh->states++;
                auto m = msg.emplace(acc[j].text(), a.last);
                if (m.first->second != a.last)
                    return cx.violate("the error of " + acc[j].text() + " depends on earlier failures: '" + m.first->second +
                                      "' / '" + a.last + "'");
                if (pass == 0 && !a.observe(acc[j].text())) return false;
            }
        return true;
    });
    // hardware failures, reported by the accesses
    Calls hl = mk({{"!fail", "A_x"}, {"!heal", "A_x"}, {"!fail", "A_p"}, {"!heal", "A_p"}, {"bind", "/Sys/A/x"}, {"seti", "/Sys/A/x", "1"},
                   {"sets", "/Sys/A/x", "2"}, {"gets", "/Sys/A/x"}, {"seti", "/Sys/A/b", "1"}, {"sets", "/Sys/A/b", "1"},
                   {"sets", "/Sys/A/t", "ab"}, {"!fail", "A_b"}, {"!fail", "A_t"}, {"setc", "C1", "1"}, {"apply"}});
    sequences(c, W, "hardware", hl, c.thorough ? 5 : 4, mk({{"start", "ok"}, {"bind", "/Sys/A/x"}, {"bind", "/Sys/A/b"}, {"bind", "/Sys/A/t"}}));
    // bindings
    Calls bl = mk({{"bind", ""}, {"bind", "/"}, {"bind", "/Sys"}, {"bind", "/Sys/A"}, {"bind", "/Sys/A/k"}, {"bind", "/Sys/A/c"},
                   {"bind", "Sys/A/x"}, {"bind", "/Sys/A/r/0"}, {"bind", "/Sys/A/xx"}, {"bind", "/sys/A/x"}, {"bind", "/Other/A/x"},
                   {"bind", "/Sys/A/x"}, {"bind", "/Sys/A/r"}, {"bind", "/Sys/A/k/hi"}, {"unbind", "/Sys/A/x"}, {"unbind", "/Sys/A/r"},
                   {"geti", "/Sys/A/x"}, {"geti", "/Sys/A/r"}, {"gets", "/Sys/A/r"}, {"seti", "/Sys/A/r", "1"}, {"seti", "/Sys/A/k/hi", "3"},
                   {"start", "ok"}});
    sequences(c, W, "binding", bl, c.thorough ? 4 : 3, mk({{"start", "ok"}}));
    twoHandles(c, W);
    manyOf(c);
    c.transitions += c.states;
    c.sample("start dupname; start ok; bind /Sys/A/x; seti /Sys/A/x 300; each step's result, message and effect compared");
    return c.finish("exhaustive within bounds",
                    "every sequence is executed through the C interface; result, presence and independence of the error message, "
                    "values, criteria and hardware are compared with the reference model after the calls");
}
Reg r22("P22", p22);
} // namespace
