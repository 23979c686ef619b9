// P09: faulty settings documents. Every document within an edit distance of
// valid ones is read by an independent reader and given to the framework.
#include "drivers.h"
#include "import.h"
#include "mutate.h"
#include "worldset.h"

std::shared_ptr<Structure> wideStructure();
i64 edgeVal(const PType &, i64);
namespace {
enum Chan { SET_ALL, FILE_ALL, FILE_ALL_NS, SET_ONE_OVER, SET_ONE, FILE_ONE_OVER };
const char *chanName[] = {"setDomainsWithSettingsXML", "importDomainsWithSettingsXML", "importDomainsXML",
                          "setDomainWithSettingsXML overwrite", "setDomainWithSettingsXML",
                          "importDomainWithSettingsXML overwrite"};
struct Case
{
    string doc;
    Chan ch;
    bool tuning = true;
};
string liveOnly(const string &obs)
{
    std::istringstream is(obs);
    string l, r;
    while (std::getline(is, l))
        for (auto p : {"tuning=", "value ", "hw ", "crit "})
            if (l.compare(0, strlen(p), p) == 0) {
                r += l + "\n";
                break;
            }
    return r;
}
bool runCase(Ctx &c, World &W, const Case &k, const string &good)
{
    Checker::Run run(W, c);
    if (!run.fresh(false)) return false;
    if (k.tuning && !run.step({"setTuningMode", "on"}, false)) return false;
    bool single = k.ch >= SET_ONE_OVER, over = k.ch != SET_ONE;
    c.append(string("\n") + (k.tuning ? "" : "(tuning off) ") + chanName[k.ch] + " " + k.doc);
    Reading rd = readDoc(run.m, run.s, k.doc, single, k.ch != FILE_ALL_NS);
    State acc = run.s;
    bool canAccept = k.tuning && rd.v != V_REFUSE, mustAccept = k.tuning && rd.v == V_ACCEPT;
    if (canAccept && rd.v != V_WILD) {
        if (!single) {
            acc.doms = rd.doms;
        } else {
            int d = run.m.dom(acc, rd.doms[0].name);
            if (d >= 0 && !over) {
                canAccept = mustAccept = false;
                rd.why = "existing domain";
            }
            if (d >= 0) acc.doms.erase(acc.doms.begin() + d);
            acc.doms.push_back(rd.doms[0]);
        }
    }
    if (!k.tuning) rd.why = "not in tuning mode";
    auto &r = *run.r;
    r.env.log.clear();
    string res, f = g_scratch + "/import.xml";
    bool ok = false;
    if (k.ch == FILE_ALL || k.ch == FILE_ALL_NS || k.ch == FILE_ONE_OVER) writeFile(f, k.doc);
    switch (k.ch) {
    case SET_ALL: ok = r.cmd("setDomainsWithSettingsXML", {k.doc}, res); break;
    case FILE_ALL: ok = r.cmd("importDomainsWithSettingsXML", {f}, res); break;
    case FILE_ALL_NS: ok = r.cmd("importDomainsXML", {f}, res); break;
    case SET_ONE_OVER: ok = r.cmd("setDomainWithSettingsXML", {k.doc, "overwrite"}, res); break;
    case SET_ONE: ok = r.cmd("setDomainWithSettingsXML", {k.doc}, res); break;
    case FILE_ONE_OVER: ok = r.cmd("importDomainWithSettingsXML", {f, "overwrite"}, res); break;
    }
    c.append(string("\n  read as: ") + (mustAccept ? "valid" : !canAccept ? "faulty" : "unclear") +
             (rd.why.empty() ? "" : " (" + rd.why + ")") + "; got " + (ok ? "success" : "refusal: " + res));
    if (ok && !canAccept) return c.violate("a faulty document was accepted: " + rd.why);
    if (!ok && mustAccept) return c.violate("a valid document was refused: " + res);
    if (!ok && res.empty()) return c.violate("a document was refused without an error");
    if (!r.env.log.empty()) return c.violate("an import accessed the hardware: " + evText(r.env.log[0]));
    string obs = r.observe(), d;
    if (ok && rd.v == V_WILD) {
        d = diffText(liveOnly(run.m.observe(run.s)), liveOnly(obs));
        if (!d.empty()) return c.violate("an accepted import changed live data: " + d);
    } else if (ok) {
        d = diffText(run.m.observe(acc), obs);
        if (!d.empty()) return c.violate("after an accepted import: " + d);
        run.s = acc;
    } else {
        State cleared = run.s;
        cleared.doms.clear();
        d = diffText(run.m.observe(run.s), obs);
        if (!d.empty()) {
            if (single || !k.tuning) return c.violate("after a refused import: " + d);
            if (!diffText(run.m.observe(cleared), obs).empty())
                return c.violate("after a refused import of all domains: " + d);
            run.s = cleared;
        }
    }
    c.sh->validated++;
    // still usable
    if (!k.tuning) return true;
    if (!(ok && rd.v == V_WILD) && run.m.dom(run.s, "U") < 0)
        for (auto &op : Ops{{"createDomain", "U"}, {"addElement", "U", "/Sys/B"}, {"createConfiguration", "U", "k"}, {"restoreConfiguration", "U", "k"}})
            if (!run.step(op, op[0] == "restoreConfiguration")) return false;
    c.append("\nsetDomainsWithSettingsXML <valid document>");
    if (!r.cmd("setDomainsWithSettingsXML", {good}, res)) return c.violate("a valid document was refused afterwards: " + res);
    run.s.doms = readDoc(run.m, run.s, good, false, true).doms;
    return run.step({"setTuningMode", "off"}, true);
}

int p09(Checker &c)
{
    bool T = c.thorough;
    auto family = [&](const string &name, World &W, const vector<Case> &cases, const string &good) {
        if (c.failed) return;
        c.bounds.push_back(name + ": " + std::to_string(cases.size()) + " documents and channels");
        c.states += cases.size(), c.transitions += cases.size();
        for (size_t i = 0; i < cases.size() && c.samples.size() < 12; i += cases.size() / 3 + 1)
            c.sample(name + ": " + chanName[cases[i].ch] + " " + cases[i].doc);
        c.items_(name, long(cases.size()), [&](Ctx &x, long i) { return runCase(x, W, cases[size_t(i)], good); }, 8);
        if (getenv("MC_VERBOSE")) fprintf(stderr, "%s %zu t=%.1f\n", name.c_str(), cases.size(), c.elapsed());
    };
    // base: two domains over nested blocks, arrays and bit fields
    WB b("P09");
    World &W = b.w;
    auto &S = *W.S;
    auto &d1 = b.dom("D1", {"/Sys/A/c/n", "/Sys/A/c/q"});
    b.conf(d1, "x", b.rule(rAll({b.is("C1", "a"), rAny({rCrit(S, "C2", M_INC, "f1|f3")})})), 1);
    b.conf(d1, "y", -1, 2, {"/Sys/A/c/q"});
    auto &d2 = b.dom("D2", {"/Sys/B"}, true);
    b.conf(d2, "x", b.rule(rAny({rCrit(S, "C2", M_EXC, "f2")})), 3);
    W.files();
    Model m(S, W.R);
    string good = m.domainsXml(W.init);
    XNode all = mk(good), one = all.kids[0];
    auto docsOf = [&](const XNode &D, int full) {
        vector<XNode> v;
        mutate(D, full, v);
        vector<string> r{writeNode(D)};
        std::set<string> seen{r[0]};
        for (auto &n : v) {
            string t = writeNode(n);
            if (seen.insert(t).second) r.push_back(t);
        }
        return r;
    };
    auto allDocs = docsOf(all, T ? 2 : 1), oneDocs = docsOf(one, 2);
    {
        vector<Case> cs;
        for (auto &d : allDocs) cs.push_back({d, SET_ALL});
        family("all", W, cs, good);
        cs.clear();
        for (auto &d : oneDocs) cs.push_back({d, SET_ONE_OVER});
        family("one", W, cs, good);
    }
    {
        // the other channels, and tuning off
        vector<Case> cs;
        for (auto &d : T ? allDocs : docsOf(all, 0)) {
            cs.push_back({d, FILE_ALL}), cs.push_back({d, FILE_ALL_NS});
            cs.push_back({d, SET_ALL, false}), cs.push_back({d, FILE_ALL, false});
        }
        for (auto &d : T ? oneDocs : docsOf(one, 0)) {
            cs.push_back({d, FILE_ONE_OVER}), cs.push_back({d, SET_ONE});
            cs.push_back({d, SET_ONE, false}), cs.push_back({d, FILE_ONE_OVER, false});
        }
        // a domain given to the importer of all domains and the reverse
        for (auto ch : {SET_ALL, FILE_ALL, FILE_ALL_NS, SET_ONE, SET_ONE_OVER, FILE_ONE_OVER})
            for (auto d : {writeNode(all), writeNode(one), string(), string("<a/>"), string("text"), string("<")})
                cs.push_back({d, ch});
        family("channels", W, cs, good);
    }
    {
        // truncated and corrupted bytes
        vector<Case> cs;
        string doc = "<ConfigurableDomains SystemClassName=\"Sys\">" +
                     m.domainXml(Dom{"D2", true, {S.byPath.at("/Sys/B/z")},
                                     {Conf{"x", d2.confs[0].rule, {Area{S.byPath.at("/Sys/B/z"), {7}}}}}, -1}) +
                     "</ConfigurableDomains>";
        for (size_t i = 0; i <= doc.size(); i++) {
            cs.push_back({doc.substr(0, i), SET_ALL});
            if (i < doc.size()) {
                cs.push_back({doc.substr(0, i) + doc.substr(i + 1), SET_ALL});
                for (char ch : string(T ? "<>\"/&= x0A\x01\xff" : "<\"& 0"))
                    if (doc[i] != ch) {
                        string d2x = doc;
                        d2x[i] = ch;
                        cs.push_back({d2x, SET_ALL});
                    }
            }
        }
        string sd = doc.substr(doc.find("<ConfigurableDomain "));
        sd = sd.substr(0, sd.find("</ConfigurableDomains>"));
        for (size_t i = 0; i <= sd.size(); i++) cs.push_back({sd.substr(0, i), i % 2 ? SET_ONE_OVER : FILE_ONE_OVER});
        family("bytes", W, cs, good);
    }
    {
        // two edits on small documents
        Dom sd{"D1", true, {S.byPath.at("/Sys/A/c/q")},
               {Conf{"x", W.R.add(S, rAll({b.is("C1", "a")})), {Area{S.byPath.at("/Sys/A/c/q"), {7, 8}}}}}, -1};
        vector<XNode> once;
        XNode small = mk(m.domainXml(sd));
        mutate(small, T ? 1 : 0, once);
        vector<Case> cs;
        std::set<string> seen;
        for (auto &o : once) {
            vector<XNode> tw;
            mutate(o, 0, tw);
            if (T) mutate(o, 1, tw);
            for (auto &t2 : tw) {
                string t = writeNode(t2);
                if (seen.insert(t).second) cs.push_back({t, SET_ONE_OVER});
            }
        }
        if (getenv("MC_VERBOSE")) fprintf(stderr, "pairs %zu\n", cs.size());
        family("pairs", W, cs, good);
    }
    if (!c.failed) {
        // every kind and size of parameter
        WB wb("P09wide", wideStructure());
        auto &w = wb.w;
        for (size_t l = 0; l < w.S->leaves.size(); l++) w.init.hw[l] = edgeVal(w.S->leaves[l].t, i64(l + 2));
        auto &wd = wb.dom("D1", {"/Sys/A", "/Sys/B"});
        Conf cf;
        cf.name = "x";
        for (int e : wd.els) {
            Area ar{e, {}};
            for (int l = w.S->nodes[e].leaf0; l < w.S->nodes[e].leaf1; l++) ar.v.push_back(edgeVal(w.S->leaves[l].t, l));
            cf.seq.push_back(ar);
        }
        wd.confs.push_back(cf);
        w.files();
        Model wm(*w.S, w.R);
        string wgood = wm.domainsXml(w.init);
        XNode wx = mk(wgood);
        wx = wx.kids[0];
        vector<Path> ps;
        paths(wx, {}, ps);
        vector<Case> cs;
        for (auto &p : ps) {
            if (!isParamTag(at(wx, p, p.size()).tag)) continue;
            for (auto vs : {"", "Raw", "Real"})
                for (auto &t : alpha(1).texts) {
                    XNode d = wx;
                    auto &n = at(d, p, p.size());
                    n.text = t;
                    if (*vs) n.attrs.push_back({"ValueSpace", vs});
                    cs.push_back({writeNode(d), SET_ONE_OVER});
                }
        }
        family("values", w, cs, wgood);
    }
    return c.finish("model_checking",
                    "every document one edit away (drop, duplicate, swap, unwrap, rename, insert, graft, attributes, "
                    "texts, bytes, truncation) from valid settings documents, given through every import channel; "
                    "outcome, complete state and later use compared with an independent reader");
}
Reg r09("P09", p09);
}
