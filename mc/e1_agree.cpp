// P20: the command handler, the remote interface and the application interface agree with each
// other (each agrees with the model), commands lacking arguments and unknown ones are refused.
#include "drivers.h"
#include "worldset.h"

static const Ops MODES{{"setTuningMode", "on"}, {"setTuningMode", "off"}, {"setAutoSync", "on"},
                       {"setAutoSync", "off"},  {"sync"},                 {"!apply"},
                       {"setValueSpace", "raw"}, {"setValueSpace", "real"}};
static Ops editOps()
{
    return Ops{{"createDomain", "N"},
               {"createDomain", "D1"},
               {"deleteDomain", "D2"},
               {"deleteDomain", "zz"},
               {"renameDomain", "D1", "R"},
               {"renameDomain", "D1", "D2"},
               {"deleteAllDomains"},
               {"setSequenceAwareness", "D1", "true"},
               {"setSequenceAwareness", "D3", "false"},
               {"setSequenceAwareness", "zz", "true"},
               {"setSequenceAwareness", "D1", "maybe"},
               {"addElement", "D3", "/Sys/B/z"},
               {"addElement", "D1", "/Sys/A/c"},
               {"addElement", "zz", "/Sys/B/z"},
               {"addElement", "D1", "/Sys/none"},
               {"removeElement", "D2", "/Sys/A/c/n"},
               {"removeElement", "D2", "/Sys/A/x"},
               {"splitDomain", "D2", "/Sys/A/c/n"},
               {"splitDomain", "D1", "/Sys/A/x"},
               {"createConfiguration", "D1", "k"},
               {"createConfiguration", "D1", "c1"},
               {"deleteConfiguration", "D1", "c1"},
               {"deleteConfiguration", "D1", "zz"},
               {"renameConfiguration", "D2", "e1", "r"},
               {"renameConfiguration", "D2", "e1", "e2"},
               {"saveConfiguration", "D1", "c2"},
               {"saveConfiguration", "zz", "c2"},
               {"restoreConfiguration", "D1", "c2"},
               {"restoreConfiguration", "D1", "zz"},
               {"setElementSequence", "D1", "c1", "/Sys/A/x", "/Sys/A/c/p"},
               {"setElementSequence", "D1", "c1", "/Sys/A/x", "/Sys/B/z"},
               {"setRule", "D1", "c1", "All{C1 Is b}"},
               {"setRule", "D1", "c1", "Any{C1 Is b,", "C2 Includes f1}"},
               {"setRule", "D1", "c1", "C1 Is nothing"},
               {"setRule", "zz", "c1", "C1 Is a"},
               {"clearRule", "D1", "c1"},
               {"clearRule", "D1", "zz"},
               {"setParameter", "/Sys/A/c/p", "33"},
               {"setParameter", "/Sys/A/c/p", "200"},
               {"setParameter", "/Sys/A/c/q", "7", "8"},
               {"setParameter", "/Sys/zz", "1"},
               {"setConfigurationParameter", "D1", "c1", "/Sys/A/c/p", "44"},
               {"setConfigurationParameter", "D1", "c1", "/Sys/A/c/p", "444"},
               {"setConfigurationParameter", "D3", "g1", "/Sys/A/c/q", "8", "6"},
               {"setConfigurationParameter", "D1", "c1", "/Sys/B/z", "1"},
               {"setElementBytes", "/Sys/A/c/n", "1", "2"},
               {"setElementBytes", "/Sys/A/c/n", "1"},
               {"!setxml", "/Sys/A/c/n", "5", "1", "2"},
               {"!xa"},
               {"!xd", "D1"},
               {"!xdup", "D1"},
               {"!xdd", "D2"},
               {"!xfa"},
               {"!xfd", "D2"},
               {"!xns"}};
}
static Ops readOps()
{
    return Ops{{"getTuningMode"},
               {"getAutoSync"},
               {"getValueSpace"},
               {"listDomains"},
               {"listConfigurations", "D1"},
               {"listConfigurations", "zz"},
               {"listDomainElements", "D2"},
               {"getSequenceAwareness", "D3"},
               {"getSequenceAwareness", "zz"},
               {"getRule", "D1", "c1"},
               {"getRule", "D1", "zz"},
               {"getElementSequence", "D1", "c1"},
               {"getParameter", "/Sys/A/c/p"},
               {"getParameter", "/Sys/A/c/q"},
               {"getParameter", "/Sys/zz"},
               {"getParameter", "/Sys/A/c"},
               {"getConfigurationParameter", "D1", "c1", "/Sys/A/x"},
               {"getConfigurationParameter", "D3", "g2", "/Sys/A/c/q"},
               {"getConfigurationParameter", "D1", "c1", "/Sys/B/z"},
               {"getElementBytes", "/Sys/A/c"}};
}

// command and the least number of arguments it takes, with usable ones
struct Known
{
    const char *name;
    size_t min;
    vector<string> args;
};
static const vector<Known> &known()
{
    static const vector<Known> k{
        {"version", 0, {}},
        {"status", 0, {}},
        {"setTuningMode", 1, {"on"}},
        {"getTuningMode", 0, {}},
        {"setValueSpace", 1, {"raw"}},
        {"getValueSpace", 0, {}},
        {"setOutputRawFormat", 1, {"hex"}},
        {"getOutputRawFormat", 0, {}},
        {"setAutoSync", 1, {"off"}},
        {"getAutoSync", 0, {}},
        {"sync", 0, {}},
        {"listCriteria", 0, {}},
        {"listDomains", 0, {}},
        {"dumpDomains", 0, {}},
        {"createDomain", 1, {"New"}},
        {"deleteDomain", 1, {"D1"}},
        {"deleteAllDomains", 0, {}},
        {"renameDomain", 2, {"D1", "New"}},
        {"setSequenceAwareness", 2, {"D1", "true"}},
        {"getSequenceAwareness", 1, {"D1"}},
        {"listDomainElements", 1, {"D1"}},
        {"addElement", 2, {"D1", "/Sys/B/z"}},
        {"removeElement", 2, {"D1", "/Sys/A/x"}},
        {"splitDomain", 2, {"D2", "/Sys/A/c/n"}},
        {"listConfigurations", 1, {"D1"}},
        {"createConfiguration", 2, {"D1", "k"}},
        {"deleteConfiguration", 2, {"D1", "c1"}},
        {"renameConfiguration", 3, {"D1", "c1", "k"}},
        {"saveConfiguration", 2, {"D1", "c2"}},
        {"restoreConfiguration", 2, {"D1", "c2"}},
        {"setElementSequence", 3, {"D1", "c1", "/Sys/A/x", "/Sys/A/c/p"}},
        {"getElementSequence", 2, {"D1", "c1"}},
        {"setRule", 3, {"D1", "c1", "All{C1 Is b}"}},
        {"clearRule", 2, {"D1", "c1"}},
        {"getRule", 2, {"D1", "c1"}},
        {"listElements", 1, {"/Sys/A"}},
        {"listParameters", 1, {"/Sys/A"}},
        {"getElementStructureXML", 1, {"/Sys/A/c"}},
        {"getElementBytes", 1, {"/Sys/A/c"}},
        {"setElementBytes", 2, {"/Sys/A/c/p", "3"}},
        {"getElementXML", 1, {"/Sys/A/c"}},
        {"setElementXML", 2, {"/Sys/A/c/p", "<IntegerParameter Name=\"p\">7</IntegerParameter>"}},
        {"dumpElement", 1, {"/Sys/A/c"}},
        {"getElementSize", 1, {"/Sys/A/c"}},
        {"showProperties", 1, {"/Sys/A/c/p"}},
        {"getParameter", 1, {"/Sys/A/c/p"}},
        {"setParameter", 2, {"/Sys/A/c/p", "9"}},
        {"listBelongingDomains", 1, {"/Sys/A/c/p"}},
        {"listAssociatedDomains", 1, {"/Sys/A/c/p"}},
        {"getConfigurationParameter", 3, {"D1", "c1", "/Sys/A/x"}},
        {"setConfigurationParameter", 4, {"D1", "c1", "/Sys/A/x", "9"}},
        {"showMapping", 1, {"/Sys/A/c/p"}},
        {"listAssociatedElements", 0, {}},
        {"listConflictingElements", 0, {}},
        {"listRogueElements", 0, {}},
        {"exportDomainsXML", 1, {"@/x.xml"}},
        {"importDomainsXML", 1, {"@/settings.xml"}},
        {"exportDomainsWithSettingsXML", 1, {"@/x.xml"}},
        {"exportDomainWithSettingsXML", 2, {"D1", "@/x.xml"}},
        {"importDomainsWithSettingsXML", 1, {"@/settings.xml"}},
        {"importDomainWithSettingsXML", 1, {"@/one.xml"}},
        {"getDomainsWithSettingsXML", 0, {}},
        {"getDomainWithSettingsXML", 1, {"D1"}},
        {"setDomainsWithSettingsXML", 1, {"<ConfigurableDomains/>"}},
        {"setDomainWithSettingsXML", 1, {"<ConfigurableDomain/>"}},
        {"getSystemClassXML", 0, {}},
        {"getDomainsXML", 0, {}},
        {"help", 0, {}}};
    return k;
}

vector<string> commandNames()
{
    vector<string> r;
    for (auto &k : known()) r.push_back(k.name);
    return r;
}
static World agreeWorld(const string &name)
{
    World w = baseWorld(name);
    const Structure &S = *w.S;
    w.R.add(S, rAll({rCrit(S, "C1", M_IS, "b")}));
    w.R.add(S, rAny({rCrit(S, "C1", M_IS, "b"), rCrit(S, "C2", M_INC, "f1")}));
    return w;
}
static bool sameObs(Ctx &x, Real &r, const string &before, const string &what)
{
    string d = diffText(before, r.observe());
    if (!d.empty()) return x.violate("after " + what + ": " + d);
    if (!r.env.log.empty()) return x.violate(what + " reached the hardware");
    return true;
}
// lines of a text, as a set
static string sortedLines(const string &t)
{
    vector<string> l = splitWs(t, "\n");
    for (auto &x : l) {
        // "path [d1, d2]" and "path contained in multiple domains: d1, d2"
        auto p = x.find('[');
        size_t b = string::npos, e = string::npos;
        if (p != string::npos) b = p + 1, e = x.find(']', p);
        auto q = x.find("domains: ");
        if (q != string::npos) b = q + 9, e = x.size();
        if (b != string::npos && e != string::npos) {
            vector<string> d = splitWs(x.substr(b, e - b), ", ");
            std::sort(d.begin(), d.end());
            x = x.substr(0, b) + join(d, ", ") + x.substr(e);
        }
    }
    std::sort(l.begin(), l.end());
    return join(l, "\n");
}
static string browse(const Structure &S, const State &s, const string &cmd, int node = -1)
{
    auto domsOf = [&](int n, bool up) {
        vector<string> r;
        for (; n >= 0; n = S.nodes[size_t(n)].parent) {
            for (auto &d : s.doms)
                if (std::find(d.els.begin(), d.els.end(), n) != d.els.end()) r.push_back(d.name);
            if (!up) break;
        }
        std::sort(r.begin(), r.end());
        return r;
    };
    vector<string> out;
    if (cmd == "listBelongingDomains") out = domsOf(node, true);
    if (cmd == "listAssociatedDomains") out = domsOf(node, false);
    for (int n = 0; n < int(S.nodes.size()); n++) {
        auto own = domsOf(n, false), bel = domsOf(n, true);
        if (cmd == "listAssociatedElements" && !own.empty())
            out.push_back(S.nodes[size_t(n)].path + " [" + join(own, ", ") + "]");
        if (cmd == "listConflictingElements" && !own.empty() && bel.size() > 1)
            out.push_back(S.nodes[size_t(n)].path + " contained in multiple domains: " + join(bel, ", "));
        if (cmd == "listRogueElements") {
            auto free = [&](int k) {
                if (!domsOf(k, true).empty()) return false;
                for (int c = 0; c < int(S.nodes.size()); c++)
                    for (int a = c; a >= 0; a = S.nodes[size_t(a)].parent)
                        if (a == k && !domsOf(c, false).empty()) return false;
                return true;
            };
            int up = S.nodes[size_t(n)].parent;
            if (free(n) && !(up >= 0 && free(up))) out.push_back(S.nodes[size_t(n)].path);
        }
    }
    std::sort(out.begin(), out.end());
    return join(out, "\n");
}

// every command that reads, on everything there is and some that is not
static vector<Op> readersOf(const Structure &S, const State &s)
{
    vector<Op> reads;
    for (auto c0 : {"version", "status", "listCriteria", "listDomains", "dumpDomains", "listAssociatedElements",
                    "listConflictingElements", "listRogueElements", "getSystemClassXML", "help",
                    "getDomainsWithSettingsXML", "getDomainsXML", "getTuningMode", "getAutoSync",
                    "getValueSpace", "getOutputRawFormat"})
        reads.push_back({c0});
    reads.push_back({"listCriteria", "CSV"});
    reads.push_back({"listCriteria", "xml"});
    reads.push_back({"listCriteria", "YAML"});
    vector<string> paths{"/", "/Sys/zz", "", "Sys/A"};
    for (auto &n : S.nodes) paths.push_back(n.path);
    for (auto &p : paths)
        for (auto c0 : {"listElements", "listParameters", "getElementStructureXML", "getElementBytes",
                        "getElementXML", "dumpElement", "getElementSize", "showProperties", "getParameter",
                        "listBelongingDomains", "listAssociatedDomains", "showMapping"})
            reads.push_back({c0, p});
    vector<string> doms{"zz"};
    for (auto &d : s.doms) doms.push_back(d.name);
    for (auto &d : doms) {
        for (auto c0 : {"listConfigurations", "listDomainElements", "getSequenceAwareness", "getDomainWithSettingsXML"})
            reads.push_back({c0, d});
        vector<string> confs{"zz"};
        for (auto &dd : s.doms)
            if (dd.name == d)
                for (auto &k : dd.confs) confs.push_back(k.name);
        for (auto &k : confs) {
            reads.push_back({"getElementSequence", d, k});
            reads.push_back({"getRule", d, k});
            for (auto &l : S.leaves) reads.push_back({"getConfigurationParameter", d, k, l.path});
        }
    }
    return reads;
}

static int p20(Checker &c)
{
    bool T = c.thorough;
    // every edit, from every state two or three operations away from the start, on each channel
    for (char ch : {'A', 'N', 'C'}) {
        World w = agreeWorld(string("P20edit-") + ch);
        w.chan = ch;
        c.explore(w, allOps(MODES + critOps({1}, {1}) + editOps() + readOps()), T ? 4 : 3, T ? 60000 : 2500);
    }
    // every way to write a byte, at every place of an element
    for (char ch : {'A', 'N'}) {
        World w = agreeWorld(string("P20bytes-") + ch);
        w.chan = ch;
        vector<string> t{"0x", "x", "0X10", "-1", "-0", "1.0", "1e1", "0x1g", "12x", "4294967297", "4294967295", "18446744073709551616", "18446744073709551617", "0x100000001",
                         "0x10000000000000001", "0xfffffffff", "00", "007", "08", "0255", "0x00ff", "0xFf", "0x0100", "65536", "65537", "511", "512", "1,2"};
        for (int i = 0; i < (T ? 1030 : 270); i++) {
            char b[16];
            snprintf(b, sizeof b, "0x%x", i);
            t.push_back(std::to_string(i)), t.push_back(b);
        }
        Ops o{{"setTuningMode", "on"}, {"setAutoSync", "off"}};
        for (auto &x : t) {
            o.push_back({"setElementBytes", "/Sys/B/z", x});
            if (ch == 'A') o.push_back({"setElementBytes", "/Sys/A/c/n", x, "7"}), o.push_back({"setElementBytes", "/Sys/A/c/n", "9", x});
        }
        c.explore(w, allOps(o), 2, 3000);
    }
    for (char ch : {'A', 'N'}) {
        World w = sharedWorld(string("P20shared-") + ch);
        w.chan = ch;
        w.R.add(*w.S, rAll({}));
        Ops e{{"setParameter", "/Sys/A/c/n/u", "33"}, {"setParameter", "/Sys/A/c/n/b/hi", "1"},
              {"restoreConfiguration", "U2", "c2"},   {"saveConfiguration", "U1", "c1"},
              {"deleteConfiguration", "U1", "c1"},    {"setConfigurationParameter", "U2", "c1", "/Sys/A/x", "77"},
              {"setSequenceAwareness", "Q2", "false"}, {"setRule", "Q2", "t1", "All{}"}};
        c.explore(w, allOps(MODES + critOps({0, 1}, {0, 1}) + e), T ? 6 : 4, T ? 60000 : 4000);
        World d = deepWorld(string("P20deep-") + ch, true);
        d.chan = ch;
        Ops f{{"setParameter", "/Sys/P/arr/1/v", "33"}, {"setParameter", "/Sys/Q/k/s", "xyz"}, {"setParameter", "/Sys/Q/k/s", "two words"},
              {"setParameter", "/Sys/Q/k/e", "low"}, {"setParameter", "/Sys/Q/k/e", "7"}, {"getParameter", "/Sys/Q/k/e"},
              {"getParameter", "/Sys/Q/k/s"}, {"restoreConfiguration", "V", "k1"}, {"setElementBytes", "/Sys/Q/k/bb", "1", "0x80"},
              {"getElementBytes", "/Sys/Q/k"}, {"!xa"}};
        c.explore(d, allOps(MODES + critOps({0, 1}, {0, 1}) + f), T ? 6 : 4, T ? 60000 : 4000);
    }

    // unknown commands and missing arguments, in several states
    vector<vector<Op>> states{{},
                              {{"setTuningMode", "on"}},
                              {{"setTuningMode", "on"}, {"setAutoSync", "off"}, {"setParameter", "/Sys/A/c/p", "33"}},
                              {{"!crit", "C1", "1"}, {"!apply"}, {"setTuningMode", "on"}, {"setValueSpace", "raw"}},
                              {{"setTuningMode", "on"}, {"deleteAllDomains"}}};
    vector<Op> bad;
    for (auto &k : known())
        for (size_t n = 0; n < k.min; n++) {
            Op o{k.name};
            o.insert(o.end(), k.args.begin(), k.args.begin() + long(n));
            bad.push_back(o);
        }
    size_t tooFew = bad.size();
    for (auto &k : known()) {
        string s = k.name;
        vector<string> names{s + "x", s.substr(0, s.size() - 1), "x" + s, s + " " + s, s + "\n1"};
        string u = s;
        u[0] = char(toupper(u[0]) == u[0] ? tolower(u[0]) : toupper(u[0]));
        names.push_back(u);
        string l;
        for (char ch : s) l += char(tolower(ch));
        if (l != s) names.push_back(l);
        for (auto &n : names) {
            bool real = false;
            for (auto &q : known()) real = real || n == q.name;
            if (real) continue;
            Op o{n};
            o.insert(o.end(), k.args.begin(), k.args.end());
            bad.push_back(o);
        }
    }
    bad.push_back({""});
    bad.push_back({"", "on"});
    bad.push_back({"nope"});
    bad.push_back({"/Sys/A/c/p", "1"});
    World rw[2] = {agreeWorld("P20refuse-C"), agreeWorld("P20refuse-N")};
    rw[1].chan = 'N';
    long nItems = long(states.size() * 2);
    c.bounds.push_back("refusals: " + std::to_string(tooFew) + " commands lacking arguments, " +
                       std::to_string(bad.size() - tooFew) + " unknown commands, " +
                       std::to_string(states.size()) + " states, command handler and network");
    c.items_("P20refuse", nItems, [&](Ctx &x, long i) {
        World w = rw[i & 1];
        Checker::Run run(w, x);
        if (!run.fresh(false)) return false;
        for (auto &o : states[size_t(i / 2)])
            if (!run.step(o, false)) return false;
        string before = run.r->observe();
        for (auto &o : bad) {
            x.note(Checker::opText(o));
            run.r->env.log.clear();
            string out;
            Op p = o;
            for (auto &a : p)
                if (a.substr(0, 2) == "@/") a = w.dir + a.substr(1);
            bool ok = run.r->cmd(p[0], vector<string>(p.begin() + 1, p.end()), out);
            if (ok) return x.violate("accepted: " + Checker::opText(o));
            if (splitWs(out).empty()) return x.violate("refused without explanation: " + Checker::opText(o));
            if (!sameObs(x, *run.r, before, Checker::opText(o))) return false;
            x.sh->transitions++, x.sh->validated++;
        }
        x.sh->states++;
        return true;
    });

    // readers: the same answers from the handler, the network and the application interface, in
    // every state of a small exploration; browsing lists against the model
    World bw = agreeWorld("P20read");
    Ops bo{{"setTuningMode", "on"},       {"setValueSpace", "raw"},
           {"setOutputRawFormat", "hex"}, {"!crit", "C1", "1"},
           {"!apply"},                    {"addElement", "D1", "/Sys/A/c"},
           {"addElement", "D3", "/Sys/B"}, {"removeElement", "D2", "/Sys/B/y"},
           {"addElement", "D2", "/Sys/A"}, {"splitDomain", "D2", "/Sys/A/c/n"},
           {"deleteDomain", "D1"},        {"deleteAllDomains"},
           {"createDomain", "N"},         {"renameDomain", "D1", "R"},
           {"createConfiguration", "D1", "k"}, {"setParameter", "/Sys/A/c/p", "33"},
           {"setSequenceAwareness", "D1", "true"}, {"clearRule", "D1", "c1"}};
    Checker::Graph g = c.bfs(bw, allOps(bo), T ? 5 : 4, T ? 20000 : 1500);
    c.bounds.push_back("readers: " + std::to_string(g.st.size()) + " states, every element and configuration, handler against network, application interface and model");
    c.states += g.st.size();
    c.items_("P20read", long(g.st.size()), [&](Ctx &x, long i) {
        World w = bw;
        w.chan = 'N';
        vector<Op> path;
        for (int k = int(i); g.parent[size_t(k)] >= 0; k = g.parent[size_t(k)]) path.push_back(g.via[size_t(k)]);
        std::reverse(path.begin(), path.end());
        Checker::Run run(w, x);
        if (!run.fresh(false)) return false;
        for (auto &o : path)
            if (!run.step(o, false)) return false;
        Real &r = *run.r;
        const Structure &S = *w.S;
        string before = r.observe();
        vector<Op> reads = readersOf(S, run.s);
        for (auto &o : reads) {
            x.note(Checker::opText(o));
            vector<string> a(o.begin() + 1, o.end());
            string n1, c1, a1;
            r.env.log.clear();
            bool nOk = r.netCmd(o[0], a, n1), cOk = r.ch->process(o[0], a, c1);
            if (nOk != cOk || n1 != c1)
                return x.violate(Checker::opText(o) + ": network answers " + (nOk ? "ok" : "failure") + " '" + n1 +
                                 "', command handler " + (cOk ? "ok" : "failure") + " '" + c1 + "'");
            bool aOk;
            // "/" names the root for a handle only
            if (!(o.size() == 2 && o[1] == "/") && r.apiCmd(o[0], a, a1, aOk)) {
                if (o[0] == "showMapping" && aOk && c1 != a1 && c1 == a1 + "\n") c1 = a1;
                if (aOk != cOk || (aOk && a1 != c1))
                    return x.violate(Checker::opText(o) + ": application interface answers " + (aOk ? "ok" : "failure") +
                                     " '" + a1 + "', command handler " + (cOk ? "ok" : "failure") + " '" + c1 + "'");
            }
            if (!cOk && splitWs(c1).empty()) return x.violate("refused without explanation: " + Checker::opText(o));
            bool el = o.size() == 2 && S.byPath.count(o[1]);
            bool list = o[0] == "listBelongingDomains" || o[0] == "listAssociatedDomains";
            if ((list && el) || o[0] == "listAssociatedElements" || o[0] == "listConflictingElements" ||
                o[0] == "listRogueElements") {
                string e = browse(S, run.s, o[0], el ? S.byPath.at(o[1]) : -1), got = sortedLines(c1);
                if (!cOk || e != got)
                    return x.violate(Checker::opText(o) + ": expected '" + e + "' got '" + got + "'");
            }
            if (o[0] == "getElementSize" && el) {
                string e;
                auto h = r.handle(o[1]);
                size_t sz = h ? h->getSize() : 0;
                if (!cOk || c1 != std::to_string(sz) + " byte(s)")
                    return x.violate(Checker::opText(o) + ": '" + c1 + "', handle says " + std::to_string(sz));
            }
            if (o[0] == "getElementBytes" && el && cOk) {
                vector<uint8_t> b, q;
                string e;
                auto h = r.handle(o[1]);
                for (auto &t : splitWs(c1)) q.push_back(uint8_t(strtol(t.c_str(), nullptr, 0)));
                if (!h || !h->getAsBytes(b, e) || b != q)
                    return x.violate(Checker::opText(o) + ": '" + c1 + "' differs from the handle's");
            }
            if (!r.env.log.empty()) return x.violate(Checker::opText(o) + " reached the hardware");
            x.sh->transitions++, x.sh->validated++;
        }
        return sameObs(x, r, before, "reading everything");
    });
    // nothing that is read leaves a trace: each answer after a change is that of an instance that was never read before
    struct Edge
    {
        int from;
        size_t op;
    };
    vector<Edge> edges;
    for (size_t j = 0; j < g.ops.size(); j++) {
        if (g.ops[j]->empty()) continue;
        for (size_t k = 0; k < g.succ[j].size(); k++)
            if (g.succ[j][k] != int(j)) edges.push_back({int(j), k});
    }
    c.bounds.push_back("changes between readers: " + std::to_string(edges.size()));
    c.items_("P20between", long(edges.size()), [&](Ctx &x, long i) {
        const Edge &e = edges[size_t(i)];
        vector<Op> path;
        for (int k = e.from; g.parent[size_t(k)] >= 0; k = g.parent[size_t(k)]) path.push_back(g.via[size_t(k)]);
        std::reverse(path.begin(), path.end());
        path.push_back((*g.ops[size_t(e.from)])[e.op]);
        vector<string> answers[2];
        vector<Op> reads;
        for (int eager = 0; eager < 2; eager++) {
            World w = bw;
            w.chan = 'C';
            Checker::Run run(w, x);
            if (!run.fresh(false)) return false;
            const Structure &S = *w.S;
            auto readAll = [&](vector<string> *keep) {
                reads = readersOf(S, run.s);
                for (auto &o : reads) {
                    string t;
                    bool ok = run.r->ch->process(o[0], vector<string>(o.begin() + 1, o.end()), t);
                    // (the order of the elements is not told)
                    bool any = o[0].compare(0, 5, "listA") == 0 || o[0].compare(0, 5, "listB") == 0 || o[0] == "listConflictingElements" || o[0] == "listRogueElements";
                    if (keep) keep->push_back((ok ? "ok " : "failure ") + (any ? sortedLines(t) : t));
                    bool el = o.size() == 2 && S.byPath.count(o[1]);
                    if (o[0] == "listAssociatedElements" || o[0] == "listConflictingElements" || o[0] == "listRogueElements" ||
                        (el && (o[0] == "listBelongingDomains" || o[0] == "listAssociatedDomains"))) {
                        string want = browse(S, run.s, o[0], el ? S.byPath.at(o[1]) : -1);
                        if (!ok || want != sortedLines(t))
                            return x.violate(Checker::opText(o) + ": expected '" + want + "' got '" + sortedLines(t) + "'");
                    }
                    x.sh->transitions++;
                }
                return true;
            };
            for (auto &o : path) {
                if (eager && !readAll(nullptr)) return false;
                if (!run.step(o, false)) return false;
            }
            if (!readAll(&answers[eager])) return false;
        }
        for (size_t k = 0; k < reads.size(); k++)
            if (answers[0][k] != answers[1][k])
                return x.violate(Checker::opText(reads[k]) + " answers otherwise when everything was read before the last changes: " + diffText(answers[0][k], answers[1][k]));
        x.sh->states++, x.sh->validated++;
        return true;
    });
    big(c, "P20");
    lasting(c, "P20");
    return c.finish("exhaustive-bounded",
                    "Breadth-first enumeration of command sequences; each reached state rebuilt on instances driven "
                    "through the command handler, the network and the application interface, every outcome and "
                    "observable compared with the same model; enumeration of all commands with each insufficient "
                    "number of arguments and of unknown names; of all readers over all elements, domains and "
                    "configurations in each state, compared between channels.");
}
static Reg r20("P20", p20);
