// P16: starting. Configuration, structure, settings and plugins with every single fault of
// bounded families and pairs of faults in different files, under every combination of the
// failure policies: started or not, as an independent reading of the files tells, and completely.
#include "drivers.h"
#include "structwalk.h"
#include "worldset.h"
#include <algorithm>
#include <dlfcn.h>
#include <libxml/xinclude.h>
#include <libxml/xmlschemas.h>
#include <sys/socket.h>
#include <netinet/in.h>

namespace
{
vector<int> g_entered;  // the chain plugins entered with success
bool g_loaded = false;  // some stay loaded after their system is gone
}
extern "C" void mcChain(int id, int mask)
{
    for (int i = 0; i < 4; i++)
        if (mask >> i & 1 && (i == id || std::find(g_entered.begin(), g_entered.end(), i) == g_entered.end()))
            throw std::runtime_error("chain: plugin " + std::to_string(i) + " is needed");
    g_entered.push_back(id);
}
namespace
{
struct Policy
{
    int missing = -1, settings = -1; // fatal: -1 as by default (yes), 0 no, 1 yes
    bool schemas = false;
    bool missingFatal() const { return missing != 0; }
    bool settingsFatal() const { return settings != 0; }
    string text() const
    {
        auto t = [](int v) { return v < 0 ? "default" : v ? "yes" : "no"; };
        return string("missing subsystem fatal: ") + t(missing) + ", settings fatal: " + t(settings) + ", schemas " + (schemas ? "checked" : "not checked");
    }
};
vector<Policy> policies(bool all)
{
    vector<Policy> r;
    for (int m : all ? vector<int>{-1, 0, 1} : vector<int>{-1, 0})
        for (int s : all ? vector<int>{-1, 0, 1} : vector<int>{-1, 0})
            for (bool v : {false, true}) {
                Policy p;
                p.missing = m, p.settings = s, p.schemas = v;
                r.push_back(p);
            }
    return r;
}
struct Doc
{
    string name, text;
    bool present = true;
};
struct Case
{
    Doc conf, st, incA, set;
};
string repo()
{
    const char *r = getenv("REPO");
    return r ? r : "/repo";
}
void mute(void *, const char *, ...) {}
// what the schemas, as they are, say of a file
bool schemaValid(const string &file)
{
    xmlDocPtr d = xmlReadFile(file.c_str(), nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
    if (!d) return false;
    xmlXIncludeProcess(d);
    static std::map<string, xmlSchemaPtr> cache;
    string root = xmlDocGetRootElement(d) ? (const char *)xmlDocGetRootElement(d)->name : "";
    if (!cache.count(root)) {
        string f = repo() + "/schemas/" + root + ".xsd";
        auto pc = access(f.c_str(), R_OK) ? nullptr : xmlSchemaNewParserCtxt(f.c_str());
        cache[root] = pc ? xmlSchemaParse(pc) : nullptr;
        if (pc) xmlSchemaFreeParserCtxt(pc);
    }
    bool ok = false;
    if (cache[root]) {
        auto vc = xmlSchemaNewValidCtxt(cache[root]);
        xmlSchemaSetValidErrors(vc, mute, mute, nullptr);
        ok = xmlSchemaValidateDoc(vc, d) == 0;
        xmlSchemaFreeValidCtxt(vc);
    }
    xmlFreeDoc(d);
    return ok;
}

// ---- reading of the configuration
struct Conf
{
    SVerdict v = S_A;
    string why;
    vector<string> plugins;
    bool settings = false, settingsX = false;
    string structurePath, settingsPath, sys;
    void worse(SVerdict w, const string &y)
    {
        if (w > v) v = w, why = y;
    }
};
const char *const confTags[] = {"SubsystemPlugins", "Location", "Plugin", "StructureDescriptionFileLocation", "SettingsConfiguration", "ConfigurableDomainsFileLocation"};
Conf readConf(const string &text, const string &dir)
{
    Conf c;
    XNode x;
    if (!libParse(text, x)) {
        c.worse(S_R, "configuration: not XML");
        return c;
    }
    if (x.tag != "ParameterFrameworkConfiguration") {
        c.worse(S_R, "configuration: root");
        return c;
    }
    auto only = [&](const XNode &n, std::initializer_list<const char *> known) {
        for (auto &a : n.attrs) {
            bool k = false;
            for (auto o : known) k = k || a.first == o;
            if (!k) c.worse(S_X, "attribute " + a.first);
        }
    };
    auto path = [&](const XNode &n, bool &odd) {
        string p = n.at("Path");
        if (p.empty()) c.worse(S_R, "configuration: no path");
        odd = p.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789./_-") != string::npos || p.substr(0, 2) == "//" || p.find("..") != string::npos;
        return p[0] == '/' ? p : dir + "/" + p;
    };
    only(x, {"SystemClassName", "ServerPort", "TuningAllowed"});
    c.sys = x.at("SystemClassName");
    if (c.sys.empty()) c.worse(S_X, "no system class name");
    if (x.at("TuningAllowed") != "true" && x.at("TuningAllowed") != "false") c.worse(S_X, "TuningAllowed");
    if (x.at("TuningAllowed").find_first_of("yY%/.") != string::npos) c.worse(S_R, "TuningAllowed");
    string port = x.at("ServerPort");
    if (port.empty() || port.size() > 5 || port.find_first_not_of("0123456789") != string::npos || port[0] == '0') c.worse(S_X, "ServerPort");
    if (port.find_first_of("ghijklmnopqrstuvwyzGHIJKLMNOPQRSTUVWYZ%/.") != string::npos || (port.size() == 5 && port.find_first_not_of("0123456789") == string::npos && port > "65535")) c.worse(S_R, "ServerPort");
    int nP = 0, nS = 0, nC = 0;
    for (auto &k : x.kids) {
        if (k.tag == "SubsystemPlugins") {
            only(k, {});
            if (nP++) c.worse(S_X, "plugins given twice");
            for (auto &l : k.kids) {
                if (l.tag != "Location") {
                    c.worse(S_R, "a " + l.tag + " in the plugins");
                    continue;
                }
                only(l, {"Folder"});
                for (auto &p : l.kids) {
                    if (p.tag != "Plugin") c.worse(S_X, "a " + p.tag + " in a location");
                    only(p, {"Name"});
                    c.plugins.push_back(l.at("Folder").empty() ? p.at("Name") : l.at("Folder") + "/" + p.at("Name"));
                }
            }
        } else if (k.tag == "StructureDescriptionFileLocation") {
            only(k, {"Path"});
            if (nS++) c.worse(S_X, "structure given twice");
            bool odd = false;
            c.structurePath = path(k, odd);
            if (odd) c.worse(S_X, "path of the structure");
            if (!k.kids.empty()) c.worse(S_X, "content of a location");
        } else if (k.tag == "SettingsConfiguration") {
            only(k, {});
            if (nC++) c.worse(S_X, "settings given twice");
            c.settings = true;
            int nD = 0;
            for (auto &l : k.kids) {
                if (l.tag != "ConfigurableDomainsFileLocation") {
                    c.worse(S_R, "a " + l.tag + " in the settings");
                    continue;
                }
                only(l, {"Path"});
                if (nD++) c.worse(S_X, "domains given twice");
                c.settingsPath = path(l, c.settingsX);
                if (!l.kids.empty()) c.worse(S_X, "content of a location");
            }
            if (!nD) c.settingsX = true;
        } else
            c.worse(S_R, "a " + k.tag + " in the configuration");
    }
    if (!nP) c.worse(S_R, "no plugins element");
    if (!nS) c.worse(S_R, "no structure");
    return c;
}

struct Lab
{
    string dir, plugins;
    World W;        // the valid system
    string structure, incA, settings, conf;
    explicit Lab()
    {
        dir = g_scratch + "/start";
        plugins = dir + "/plugins";
        mkdir(dir.c_str(), 0755), mkdir(plugins.c_str(), 0755);
        string so = readFile(g_pluginDir + "/libmcplugin.so");
        writeFile(plugins + "/copy.so", so);
        writeFile(plugins + "/text.so", "this is not a library\n");
        writeFile(plugins + "/empty.so", "");
        writeFile(plugins + "/half.so", so.substr(0, 700));
        W = world({"MC", "MC"});
        structure = "<SystemClass Name=\"Sys\"><SubsystemInclude Path=\"A.xml\"/>" + sub(1, "MC") + "</SystemClass>";
        incA = sub(0, "MC");
        Model m(*W.S, W.R);
        settings = m.domainsXml(W.init);
        settings = settings.substr(settings.find("?>") + 2);
        conf = "<ParameterFrameworkConfiguration SystemClassName=\"Sys\" ServerPort=\"5000\" TuningAllowed=\"true\"><SubsystemPlugins><Location Folder=\"" + g_pluginDir +
               "\"><Plugin Name=\"libmcplugin.so\"/></Location></SubsystemPlugins><StructureDescriptionFileLocation Path=\"structure.xml\"/>"
               "<SettingsConfiguration><ConfigurableDomainsFileLocation Path=\"settings.xml\"/></SettingsConfiguration></ParameterFrameworkConfiguration>";
    }
    string sub(int i, const string &type) const
    {
        XNode x;
        if (!XParser::parse(W.S->xml, x)) abort();
        XNode s = x.kids[size_t(i)];
        for (auto &a : s.attrs)
            if (a.first == "Type") a.second = type;
        return writeNode(s);
    }
    // the system with the given types of subsystems: others than MC are virtual
    static World world(const vector<string> &types)
    {
        bool vA = types[0] != "MC", vB = types[1] != "MC";
        auto o = [](bool v, const char *n) { return v ? string() : string("Obj:") + n; };
        auto S = std::make_shared<Structure>(
            "Sys",
            vector<ND>{sub_("A", {pb("c", {ranged(u8("p", o(vA, "A_p")), 3, 100), u8("q", o(vA, "A_q"), 2),
                                           pb("n", {u8("u"), bitBlock("b", 1, {{"lo", 0, 4}, {"hi", 4, 4}})}, o(vA, "A_n"))}),
                                  u8("x", o(vA, "A_x"))}, vA ? "Obj:V_A" : ""),
                       sub_("B", {u16("y", o(vB, "B_y")), u8("z", o(vB, "B_z"))}, vB ? "Obj:V_B" : "")},
            stdCrits());
        WB b("start", S);
        auto &d1 = b.dom("D1", {"/Sys/A/c/n", "/Sys/A/c/q"});
        b.conf(d1, "x", b.rule(rAll({b.is("C1", "a")})), 1);
        b.conf(d1, "y", -1, 2, {"/Sys/A/c/q"});
        auto &d2 = b.dom("D2", {"/Sys/B/y"}, true);
        b.conf(d2, "x", b.rule(rAny({rCrit(*S, "C2", M_EXC, "f2")})), 3);
        auto &d3 = b.dom("D3", {"/Sys/A/x"});
        b.conf(d3, "x", b.rule(rAll({b.is("C1", "b")})), 4);
        return b.w;
    }
    static ND sub_(const string &n, vector<ND> k, const string &map) { return ::sub(n, k, map); }
    Case good() const { return {{"good", conf, true}, {"good", structure, true}, {"good", incA, true}, {"good", settings, true}}; }
};

struct Expect
{
    enum { YES, NO, ANY } start = YES;
    string why;
    bool domains = true; // the settings are taken over (YES only)
    vector<Dom> doms;
    bool domsWild = false;
    bool blind = false; // nothing is known of the settings
    bool tree = false; // the structure is not the standard one: compared by its reading
    vector<string> types{"", ""};
    std::shared_ptr<StructDoc> sd;
    std::shared_ptr<World> w;
    SVerdict sv = S_A;
};
// several files read as one description
bool assemble(const Case &k, const Doc &st, XNode &out, string &why)
{
    if (!st.present || !libParse(st.text, out)) {
        why = "structure: not XML";
        return false;
    }
    for (auto &n : out.kids)
        if (n.tag == "SubsystemInclude") {
            XNode in;
            if (n.at("Path") != "A.xml" || !k.incA.present || !libParse(k.incA.text, in)) {
                why = "included file: missing or not XML";
                return false;
            }
            if (in.tag != "Subsystem") {
                why = "included file: root";
                return false;
            }
            n = in;
        }
    return true;
}
Expect expect(Lab &L, const Case &k, const Policy &p, const string &dir)
{
    Expect e;
    auto no = [&](const string &w) {
        e.start = Expect::NO, e.why = w;
        return e;
    };
    auto any = [&](const string &w) {
        e.start = Expect::ANY, e.why = w;
        return e;
    };
    if (!k.conf.present) return no("no configuration");
    Conf c = readConf(k.conf.text, dir);
    if (c.v == S_R) return no(c.why);
    if (p.schemas && !schemaValid(dir + "/config.xml")) return no("configuration against its schema");
    if (c.v == S_X) return any(c.why);
    // plugins
    bool mc = false, allFound = true;
    for (auto &f : c.plugins) {
        bool good = f == g_pluginDir + "/libmcplugin.so" || f == L.plugins + "/copy.so";
        mc = mc || good, allFound = allFound && good;
    }
    if (!allFound && p.missingFatal()) return no("a plugin is missing");
    // structure
    auto is = [&](const string &q, const char *f) { return q == dir + "/" + f || q == dir + "/./" + f; };
    auto file = [&](const string &q) -> const Doc * {
        return is(q, "config.xml") ? &k.conf : is(q, "structure.xml") ? &k.st : is(q, "A.xml") ? &k.incA : is(q, "settings.xml") ? &k.set : nullptr;
    };
    const Doc *std_ = file(c.structurePath);
    if (!std_) return no("no structure file: " + c.structurePath);
    XNode x;
    string why;
    if (!assemble(k, *std_, x, why)) return no(why);
    e.sd.reset(new StructDoc(x, c.sys, mc ? std::set<string>{"MC"} : std::set<string>(), !p.missingFatal()));
    e.sv = e.sd->v;
    if (e.sv == S_R) return no("structure: " + e.sd->why);
    if (p.schemas) {
        if (!schemaValid(c.structurePath)) return no("structure against its schema");
        XNode top;
        libParse(std_->text, top);
        for (auto &n : top.kids)
            if (n.tag == "SubsystemInclude" && !schemaValid(dir + "/A.xml")) return no("included file against its schema");
    }
    if (e.sv == S_X || e.sv == S_E) any("structure: " + e.sd->why);
    // is it the standard one, but for the types?
    {
        XNode y = mk(L.W.S->xml);
        XNode z = x;
        if (z.kids.size() == 2)
            for (size_t i = 0; i < 2; i++)
                for (auto *n : {&y, &z})
                    for (auto &a : n->kids[i].attrs)
                        if (a.first == "Type") {
                            if (n == &z) e.types[i] = mc && a.second == "MC" ? "MC" : "V";
                            a.second = "";
                        }
        e.tree = writeNode(y) != writeNode(z);
    }
    // settings
    string bad;
    bool unsure = false;
    e.domains = false;
    if (c.settings) {
        if (c.settingsX)
            unsure = e.blind = true, bad = "where the settings are";
        else if (!file(c.settingsPath) || !file(c.settingsPath)->present)
            bad = "no settings file";
        else if (p.schemas && !schemaValid(c.settingsPath))
            bad = "settings against their schema";
        else if (e.tree)
            unsure = true, bad = "settings of another structure";
        else {
            e.w.reset(new World(Lab::world(e.types)));
            World &w = *e.w; // with the rules read
            Model m(*w.S, w.R);
            State live = w.init;
            XNode sx;
            if (libParse(file(c.settingsPath)->text, sx) && (sx.tag != "ConfigurableDomains" || sx.at("SystemClassName") != "Sys")) bad = "settings: root";
            Reading rd = readDoc(m, live, file(c.settingsPath)->text, false, true, true);
            if (rd.v == V_REFUSE)
                bad = "settings: " + rd.why;
            else if (bad.empty()) {
                if (rd.v != V_ACCEPT) unsure = true, bad = "settings: " + rd.why;
                e.domains = true, e.doms = rd.doms, e.domsWild = rd.v == V_WILD;
            }
        }
        if (!bad.empty() && !unsure && p.settingsFatal()) return no(bad);
        if (unsure) {
            if (p.settingsFatal()) any(bad);
            if (!e.domains) e.domsWild = true;
        }
        if (e.domains && unsure && !p.settingsFatal()) e.domsWild = true; // with its domains or without any
    }
    if (e.start == Expect::YES) e.why = bad;
    return e;
}
struct Try
{
    Lab &L;
    Ctx &c;
    string dir;
    int seq = 0;
    Try(Lab &l, Ctx &x) : L(l), c(x) { dir = L.dir + "/case"; mkdir(dir.c_str(), 0755); }
    void put(const string &n, const Doc &d)
    {
        if (d.present)
            writeFile(dir + "/" + n, d.text.empty() || d.text[0] != '<' || d.text.compare(0, 2, "<?") == 0 ? d.text : xmlHead + d.text);
        else
            unlink((dir + "/" + n).c_str());
    }
    bool remote(bool tuning, int forbid, int taken, int settings)
    {
        const char *const sets[] = {"load", "fail", "may fail"}, *const ports[] = {"free", "in use", "in use by another system"};
        for (int attempt = 0; attempt < 50; attempt++) {
            int port = freePort(attempt), fd = -1;
            World w = Lab::world({"MC", "MC"});
            w.dir = dir;
            c.note(string("tuning ") + (tuning ? "allowed" : "not allowed") + ", remote access " + (forbid < 0 ? "left as it is" : forbid ? "forbidden" : "allowed") + ", port " + ports[taken] + ", settings that " + sets[settings]);
            Case k = L.good();
            k.conf.text = subst2(subst2(k.conf.text, "\"5000\"", "\"" + std::to_string(port) + "\""), "TuningAllowed=\"true\"", string("TuningAllowed=\"") + (tuning ? "true" : "false") + "\"");
            if (settings) k.set.text = "<ConfigurableDomains/>";
            put("config.xml", k.conf), put("structure.xml", k.st), put("A.xml", k.incA), put("settings.xml", k.set);
            std::unique_ptr<Real> other;
            if (taken == 1) {
                fd = socket(AF_INET6, SOCK_STREAM, 0);
                sockaddr_in6 a;
                memset(&a, 0, sizeof a);
                a.sin6_family = AF_INET6;
                a.sin6_port = htons(uint16_t(port));
                if (bind(fd, (sockaddr *)&a, sizeof a) != 0 || listen(fd, 1) != 0) {
                    close(fd);
                    continue;
                }
            } else if (taken == 2) {
                World v = w;
                v.dir.clear(), v.name = "other";
                v.chan = 'N', v.port = port;
                other.reset(new Real(v, Real::Later()));
                other->pf->setForceNoRemoteInterface(false);
                other->startNow();
                if (!other->started) {
                    if (other->error.find("listen") == string::npos) return c.violate("the other system is not started: " + other->error);
                    continue;
                }
            }
            Real r(w, Real::Later());
            // by default remote access is allowed
            r.pf.reset(new CParameterMgrFullConnector(dir + "/config.xml"));
            r.criteria();
            string err;
            if (r.pf->getForceNoRemoteInterface()) return c.violate("remote access forbidden by default");
            if (forbid >= 0) r.pf->setForceNoRemoteInterface(forbid);
            if (settings == 2) r.pf->setFailureOnFailedSettingsLoad(false, err);
            r.startNow();
            c.sh->transitions++;
            bool listens = tuning && forbid != 1, want = settings != 1 && !(listens && taken);
            if (listens && !taken && settings != 1 && !r.started && r.error.find("listen") != string::npos) continue; // somebody was faster
            if (r.started != want) return c.violate(r.started ? "started" : "not started: " + r.error);
            if (!r.started && r.error.empty()) return c.violate("not started, without an error");
            if (!taken) {
                string why;
                NetClient n;
                bool open = n.open(port, why);
                if (open != (want && listens)) return c.violate(open ? "the port is open" : "the port is not open: " + why);
                if (open) {
                    NetAnswer a;
                    if (!n.send(netRequest("getTuningMode", {})) || !n.answer(a, why) || !a.ok) return c.violate("no answer on the port: " + why);
                }
            }
            if (fd >= 0) close(fd);
            c.sh->validated++;
            return true;
        }
        return c.violate("no free port found");
    }
    // plugins that need others: whom each needs, how it looks for them, where the MC plugin stands
    bool chain(const vector<int> &needs, bool thrown, size_t at, bool apart, bool fatal)
    {
        size_t n = needs.size();
        // a plugin can be loaded once those it needs are
        int can = 0;
        for (bool more = true; more;) {
            more = false;
            for (size_t i = 0; i < n; i++)
                if (!(can >> i & 1) && !(needs[i] & ~can)) can |= 1 << i, more = true;
        }
        bool all = can + 1 == 1 << n;
        Case k = L.good();
        string list, text;
        for (size_t i = 0; i <= n; i++) {
            if (i == at) {
                list += (apart ? "<Location Folder=\"" + g_pluginDir + "\"><Plugin Name=\"libmcplugin.so\"/></Location>" : "<Plugin Name=\"libmcplugin.so\"/>");
                text += " MC";
            }
            if (i == n) break;
            string so = string(thrown ? "t" : "d") + std::to_string(i) + "-" + std::to_string(needs[i]) + ".so";
            text += " " + std::to_string(i) + "(needs";
            for (size_t j = 0; j < n; j++)
                if (needs[i] >> j & 1) text += i == j ? " what is not there" : " " + std::to_string(j);
            text += ")";
            list += apart ? "<Location Folder=\"" + g_pluginDir + "/chain\"><Plugin Name=\"" + so + "\"/></Location>" : "<Plugin Name=\"chain/" + so + "\"/>";
        }
        if (!apart) list = "<Location Folder=\"" + g_pluginDir + "\">" + list + "</Location>";
        k.conf.text = subst2(k.conf.text, "<Location Folder=\"" + g_pluginDir + "\"><Plugin Name=\"libmcplugin.so\"/></Location>", list);
        c.note("plugins:" + text + (thrown ? "; needs looked for by the plugin" : "; needs looked for by the loader") + (apart ? ", each in a location" : ", in one location") + ", missing subsystem fatal: " + (fatal ? "yes" : "no"));
        put("config.xml", k.conf), put("structure.xml", k.st), put("A.xml", k.incA), put("settings.xml", k.set);
        World w = Lab::world({"MC", "MC"});
        w.dir = dir;
        g_entered.clear();
        {
            Real r(w, Real::Later());
            if (!fatal) r.pf->setFailureOnMissingSubsystem(false);
            r.startNow();
            c.sh->transitions++;
            if (r.started != (all || !fatal)) return c.violate(r.started ? "started although a plugin cannot be loaded" : "not started: " + r.error);
            if (!r.started && r.error.empty()) return c.violate("not started, without an error");
            if (!r.started && !r.env.log.empty()) return c.violate("not started, but the hardware was accessed: " + evText(r.env.log[0]));
            for (size_t i = 0; i < n; i++) {
                long times = std::count(g_entered.begin(), g_entered.end(), int(i));
                if (times != (can >> i & 1)) return c.violate("plugin " + std::to_string(i) + " is entered with success " + std::to_string(times) + " times");
            }
            if (r.started) {
                c.sh->distinct++;
                Model m(*w.S, w.R);
                State s = w.init;
                m.start(s);
                string d = diffText(m.observe(s), r.observe());
                if (!d.empty()) return c.violate(d);
            }
        }
        c.sh->validated++;
        // the next system is to find none of them
        for (size_t i = 0; i < n; i++)
            if (void *h = dlopen(("chain" + std::to_string(i) + ".so").c_str(), RTLD_NOLOAD | RTLD_LAZY)) {
                dlclose(h);
                g_loaded = true;
            }
        return true;
    }
    static string subst2(string s, const string &a, const string &b)
    {
        size_t p = s.find(a);
        if (p == string::npos) abort();
        return s.replace(p, a.size(), b);
    }
    bool run(const Case &k, const Policy &p)
    {
        put("config.xml", k.conf), put("structure.xml", k.st), put("A.xml", k.incA), put("settings.xml", k.set);
        Expect e = expect(L, k, p, dir);
        c.note(p.text() + "\nexpected: " + (e.start == Expect::YES ? "started" : e.start == Expect::NO ? "not started" : "either") + (e.why.empty() ? "" : " (" + e.why + ")") +
               "\nconfiguration: " + (k.conf.present ? k.conf.text : "missing") + "\nstructure: " + (k.st.present ? k.st.text : "missing") +
               "\nA.xml: " + (k.incA.present ? k.incA.text : "missing") + "\nsettings: " + (k.set.present ? k.set.text : "missing"));
        c.sh->transitions++;
        World w = e.w ? *e.w : Lab::world(e.types[0].empty() || e.tree ? vector<string>{"MC", "MC"} : e.types);
        w.dir = dir;
        Real r(w, Real::Later());
        string err;
        // each setter comes with and without an error text
        bool plain = k.st.text.size() & 1;
        if (plain) {
            if (p.missing >= 0) r.pf->setFailureOnMissingSubsystem(p.missing);
            if (p.settings >= 0) r.pf->setFailureOnFailedSettingsLoad(p.settings);
        } else {
            if (p.missing >= 0 && !r.pf->setFailureOnMissingSubsystem(p.missing, err)) return c.violate("policy refused");
            if (p.settings >= 0 && !r.pf->setFailureOnFailedSettingsLoad(p.settings, err)) return c.violate("policy refused");
        }
        r.pf->setSchemaUri(repo() + "/schemas");
        if (p.schemas && !r.pf->setValidateSchemasOnStart(true, err)) return c.violate("policy refused");
        if (r.pf->getFailureOnMissingSubsystem() != p.missingFatal() || r.pf->getFailureOnFailedSettingsLoad() != p.settingsFatal() || r.pf->getValidateSchemasOnStart() != p.schemas)
            return c.violate("a policy is not the one set");
        try {
            r.startNow();
        } catch (std::exception &x) {
            return c.violate(string("starting threw: ") + x.what());
        }
        if (r.pf->isStarted() != r.started) return c.violate("isStarted differs from the result of start");
        if (r.started && e.start == Expect::NO) return c.violate("started although " + e.why);
        if (!r.started && e.start == Expect::YES) return c.violate("not started: " + r.error);
        if (!r.started) {
            if (r.error.empty()) return c.violate("not started, without an error");
            if (!r.env.log.empty()) return c.violate("not started, but the hardware was accessed: " + evText(r.env.log[0]));
            c.sh->validated++;
            return true;
        }
        c.sh->distinct++;
        // policies are for before the start
        string why[3];
        if (r.pf->setFailureOnMissingSubsystem(!p.missingFatal(), why[0]) || r.pf->setFailureOnFailedSettingsLoad(!p.settingsFatal(), why[1]) || r.pf->setValidateSchemasOnStart(!p.schemas, why[2]) ||
            why[0].empty() || why[1].empty() || why[2].empty())
            return c.violate("a policy is not refused with a reason after the start");
        if (r.pf->setFailureOnMissingSubsystem(!p.missingFatal(), err) || r.pf->setFailureOnFailedSettingsLoad(!p.settingsFatal(), err) || r.pf->setValidateSchemasOnStart(!p.schemas, err) ||
            r.pf->getFailureOnMissingSubsystem() != p.missingFatal() || r.pf->getFailureOnFailedSettingsLoad() != p.settingsFatal() || r.pf->getValidateSchemasOnStart() != p.schemas)
            return c.violate("a policy is changed after the start");
        if (e.blind || (e.start == Expect::ANY && !e.sd)) {
            // only that it works
            r.observe();
            return true;
        }
        if (e.tree || e.sv != S_A) {
            if (e.sv == S_X) {
                string o;
                r.cmd("dumpElement", {"/Sys"}, o);
                return true;
            }
            string j = judge(*r.pf, r.env, *e.sd, e.sv, nullptr, !e.domsWild);
            if (!j.empty()) return c.violate(j);
            c.sh->validated++;
            return true;
        }
        // the standard structure: everything is known
        Model m(*w.S, w.R);
        vector<vector<Dom>> maybe;
        if (e.domains) maybe.push_back(e.doms);
        if (!e.domains || e.domsWild) maybe.push_back({});
        string obs = r.observe(), first;
        for (auto &doms : maybe) {
            State s = w.init;
            s.doms = doms;
            Outcome o = m.start(s);
            for (auto &g : o.hw) g.erase(std::remove_if(g.begin(), g.end(), [](const HwEvent &h) { return h.obj[0] == 'V'; }), g.end());
            vector<HwEvent> log = r.hwLog();
            string d = diffText(m.observe(s), obs);
            if (d.empty()) d = cmpHw(o, log);
            if (d.empty()) {
                c.sh->validated++;
                return true;
            }
            if (first.empty()) first = d;
        }
        if (e.domsWild && e.domains) return true;
        return c.violate("after start" + (e.why.empty() ? string() : " (" + e.why + ")") + ": " + first);
    }
};
// every configuration one edit away
void confEdits(const Lab &L, vector<Doc> &out)
{
    XNode D = mk(L.conf);
    vector<string> tags(std::begin(confTags), std::end(confTags));
    for (auto t : {"ParameterFrameworkConfiguration", "Bogus", "SystemClass", "Subsystem", "ConfigurableDomains", "SubsystemInclude"}) tags.push_back(t);
    vector<string> vals{"", "Sys", "B", "nope.xml", "structure.xml", "./settings.xml", "settings.xml", "./structure.xml", "sub/../settings.xml", "A.xml", "config.xml",
                        "libmcplugin.so", "text.so", "copy.so", "empty.so", "half.so", "nope.so", g_pluginDir, L.plugins, "/nowhere", "true", "false", "maybe", "TRUE", "1", "0", "5001", "65536", "-1",
                        "99999999999", "%", "%zz", "%41", "a:b", ":", "::", "//", "/", "#f", "settings.xml#f", "settings.xml?q", "?", "[", "\\", " ", "a b", "\xc3\xa9", ".", "..", "x]", "//[", "http:", "http://["};
    vector<XNode> smalls;
    for (auto &t : tags) {
        smalls.push_back(mk("<" + t + "/>"));
        if (t.find("Location") != string::npos && t.size() > 8) smalls.push_back(mk("<" + t + " Path=\"settings.xml\"/>"));
    }
    smalls.push_back(mk("<Plugin Name=\"libmcplugin.so\"/>"));
    smalls.push_back(mk("<Plugin Name=\"nope.so\"/>"));
    smalls.push_back(mk("<Location Folder=\"" + L.plugins + "\"><Plugin Name=\"copy.so\"/></Location>"));
    smalls.push_back(mk("<Location Folder=\"" + L.plugins + "\"><Plugin Name=\"text.so\"/></Location>"));
    smalls.push_back(mk("<Location Folder=\"" + L.plugins + "\"/>"));
    std::set<string> seen;
    auto emit = [&](const XNode &n, const string &what) {
        string t = writeNode(n);
        if (seen.insert(t).second) out.push_back({what, t, true});
    };
    emit(D, "good");
    vector<Path> ps;
    paths(D, {}, ps);
    for (auto &p : ps) {
        XNode c;
        const XNode &n = at(D, p, p.size());
        if (!p.empty()) {
            size_t i = p.back(), up = p.size() - 1;
            auto edit = [&](auto f) {
                c = D;
                f(at(c, p, up).kids);
                emit(c, "edit");
            };
            edit([&](vector<XNode> &k) { k.erase(k.begin() + long(i)); });
            edit([&](vector<XNode> &k) { k.insert(k.begin() + long(i), XNode(k[i])); });
            if (i + 1 < at(D, p, up).kids.size()) edit([&](vector<XNode> &k) { std::swap(k[i], k[i + 1]); });
            if (!n.kids.empty())
                edit([&](vector<XNode> &k) {
                    auto kids = k[i].kids;
                    k.erase(k.begin() + long(i));
                    k.insert(k.begin() + long(i), kids.begin(), kids.end());
                });
            for (auto &s : smalls) edit([&](vector<XNode> &k) { k.insert(k.begin() + long(i), s); });
            for (auto &q : ps) { // replaced by another part
                bool related = true;
                for (size_t j = 0; j < std::min(p.size(), q.size()); j++) related = related && p[j] == q[j];
                if (!related) edit([&](vector<XNode> &k) { k[i] = at(D, q, q.size()); });
            }
        }
        for (auto &s : smalls) {
            c = D;
            at(c, p, p.size()).kids.push_back(s);
            emit(c, "edit");
        }
        for (auto &t : tags) {
            c = D;
            at(c, p, p.size()).tag = t;
            emit(c, "edit");
        }
        for (size_t a = 0; a < n.attrs.size(); a++) {
            c = D;
            auto &as = at(c, p, p.size()).attrs;
            as.erase(as.begin() + long(a));
            emit(c, "edit");
            for (auto &v : vals) {
                c = D;
                at(c, p, p.size()).attrs[a].second = v;
                emit(c, "edit");
            }
        }
        if (!n.attr("Name"))
            for (string v : {"SubsystemPlugins", "SettingsConfiguration", "x", ""}) {
                c = D;
                at(c, p, p.size()).attrs.push_back({"Name", v});
                emit(c, "edit");
                for (int end : {0, 1}) // and in another order
                    if (p.size() == 1) {
                        XNode m = c;
                        auto k = m.kids[p[0]];
                        m.kids.erase(m.kids.begin() + long(p[0]));
                        m.kids.insert(end ? m.kids.end() : m.kids.begin(), k);
                        emit(m, "edit");
                    }
            }
        c = D;
        at(c, p, p.size()).text = "junk";
        emit(c, "edit");
    }
}
Doc missing() { return {"missing", "", false}; }
Doc raw(const string &n, const string &t) { return {n, t, true}; }
string subst(string s, const string &a, const string &b)
{
    size_t p = s.find(a);
    if (p == string::npos) abort();
    return s.replace(p, a.size(), b);
}
vector<Doc> confs(const Lab &L)
{
    vector<Doc> r{raw("good", L.conf), missing(), raw("empty", ""), raw("cut", L.conf.substr(0, L.conf.size() / 2))};
    const string &c = L.conf;
    r.push_back(raw("no settings", subst(c, c.substr(c.find("<SettingsC"), c.find("</SettingsC") + 24 - c.find("<SettingsC")), "")));
    r.push_back(raw("no plugin", subst(c, "<Plugin Name=\"libmcplugin.so\"/>", "")));
    r.push_back(raw("plugin not found", subst(c, "libmcplugin.so", "nope.so")));
    r.push_back(raw("folder not found", subst(c, g_pluginDir, "/nowhere")));
    r.push_back(raw("one more plugin, not found", subst(c, "<Plugin Name", "<Plugin Name=\"nope.so\"/><Plugin Name")));
    r.push_back(raw("a text as plugin", subst(c, "</Location>", "</Location><Location Folder=\"" + L.plugins + "\"><Plugin Name=\"text.so\"/></Location>")));
    r.push_back(raw("plugin twice", subst(c, "</Location>", "</Location><Location Folder=\"" + L.plugins + "\"><Plugin Name=\"copy.so\"/></Location>")));
    r.push_back(raw("settings elsewhere", subst(c, "settings.xml", "nope.xml")));
    r.push_back(raw("structure elsewhere", subst(c, "structure.xml", "nope.xml")));
    r.push_back(raw("settings: the structure", subst(c, "settings.xml", "structure.xml")));
    r.push_back(raw("structure: the settings", subst(c, "structure.xml", "settings.xml")));
    r.push_back(raw("another system", subst(c, "\"Sys\"", "\"Other\"")));
    r.push_back(raw("no plugins element", subst(c, c.substr(c.find("<SubsystemP"), c.find("</SubsystemP") + 19 - c.find("<SubsystemP")), "")));
    r.push_back(raw("unknown element", subst(c, "<StructureD", "<Bogus/><StructureD")));
    return r;
}
vector<std::pair<Doc, Doc>> structures(const Lab &L) // the system class and the included file
{
    auto st = [&](const string &b, const string &inc = "<SubsystemInclude Path=\"A.xml\"/>") { return raw(b, "<SystemClass Name=\"Sys\">" + inc + b + "</SystemClass>"); };
    Doc good = raw("good", L.structure), A = raw("good", L.incA);
    string B = L.sub(1, "MC");
    vector<std::pair<Doc, Doc>> r{{good, A}, {missing(), A}, {good, missing()}, {raw("empty", ""), A}, {good, raw("empty", "")}};
    r.push_back({raw("cut", L.structure.substr(0, L.structure.size() - 9)), A});
    r.push_back({good, raw("cut", L.incA.substr(0, L.incA.size() - 5))});
    for (string t : {"Virtual", "Foo", "", "mc"}) {
        r.push_back({st(L.sub(1, t)), A});
        r.push_back({good, raw("type", L.sub(0, t))});
        r.push_back({st(L.sub(1, t)), raw("type", L.sub(0, t == "Virtual" ? "Foo" : t))});
    }
    r.push_back({raw("root", subst(subst(L.structure, "<SystemClass", "<Systemclass"), "</SystemClass", "</Systemclass")), A});
    r.push_back({raw("name", subst(L.structure, "\"Sys\"", "\"Sis\"")), A});
    r.push_back({good, raw("root", L.structure)});
    r.push_back({good, raw("root", L.settings)});
    r.push_back({raw("the settings", L.settings), A});
    r.push_back({st(B, "<SubsystemInclude Path=\"nope.xml\"/>"), A});
    r.push_back({st(B, "<SubsystemInclude/>"), A});
    r.push_back({st(B, "<SubsystemInclude Path=\"\"/>"), A});
    r.push_back({st(B, "<SubsystemInclude Path=\"structure.xml\"/>"), A});
    r.push_back({st(B, L.incA), A});
    r.push_back({st("<SubsystemInclude Path=\"A.xml\"/>" + B), A});
    r.push_back({st("<Bogus/>" + B), A});
    r.push_back({st(subst(B, "Obj:B_y", "Nope:B_y")), A});
    r.push_back({good, raw("mapping", subst(L.incA, "Obj:A_x", "Nope:A_x"))});
    r.push_back({st(subst(B, " Mapping=\"Obj:B_y\"", "")), A});
    r.push_back({st(subst(B, "Size=\"16\"", "Size=\"17\"")), A});
    r.push_back({st(B, ""), A});
    r.push_back({good, raw("xi", "<xi:include xmlns:xi=\"http://www.w3.org/2001/XInclude\" href=\"nope.xml\"/>")});
    return r;
}
vector<Doc> settingsDocs(const Lab &L)
{
    const string &s = L.settings;
    vector<Doc> r{raw("good", s), missing(), raw("empty", ""), raw("text", "nothing"), raw("cut", s.substr(0, s.size() * 3 / 4)), raw("the structure", L.structure)};
    r.push_back(raw("another system", subst(s, "\"Sys\"", "\"Sis\"")));
    r.push_back(raw("no domain", "<ConfigurableDomains SystemClassName=\"Sys\"/>"));
    r.push_back(raw("last domain: unknown element", subst(s, "/Sys/A/x", "/Sys/A/no")));
    r.push_back(raw("last domain: same name", subst(s, "\"D3\"", "\"D1\"")));
    r.push_back(raw("unknown criterion", subst(s, "SelectionCriterion=\"C2\"", "SelectionCriterion=\"C9\"")));
    size_t v = s.rfind("</IntegerParameter>");
    r.push_back(raw("last value out of its range", s.substr(0, s.rfind('>', v) + 1) + "999" + s.substr(v)));
    r.push_back(raw("unknown element", subst(s, "</ConfigurableDomains>", "<Bogus/></ConfigurableDomains>")));
    return r;
}
} // namespace

int p16(Checker &c)
{
    std::unique_ptr<Lab> Lp, shape(new Lab);
    auto lab = [&]() -> Lab & {
        if (!Lp) Lp.reset(new Lab);
        return *Lp;
    };
    bool T = c.thorough;
    auto all = policies(true), few = policies(false);
    auto &pol = T ? all : few;
    auto family = [&](const string &name, long n, const string &bound, std::function<bool(Try &, long)> f, long chunk = 8) {
        c.bounds.push_back(name + ": " + bound);
        c.states += uint64_t(n);
        c.items_(name, n, [&](Ctx &x, long i) {
            static std::map<string, int> seen;
            Try t(lab(), x);
            return f(t, i);
        }, chunk);
    };
    // (1) configurations one edit away, under all policies
    {
        vector<Doc> edits;
        confEdits(*shape, edits);
        family("configurations", long(edits.size()), std::to_string(edits.size()) + " configurations at most one edit away from a valid one, under each of " + std::to_string(pol.size()) + " combinations of policies", [&](Try &t, long i) {
            // the documents name this worker's own folders
            static vector<Doc> mine;
            if (mine.empty()) confEdits(t.L, mine);
            Case k = t.L.good();
            k.conf = mine[size_t(i)];
            for (auto &p : pol)
                if (!t.run(k, p)) return false;
            return true;
        });
    }
    // (2) pairs of faults in different files, under all policies
    {
        size_t nc = confs(*shape).size(), ns = structures(*shape).size(), nd = settingsDocs(*shape).size();
        long n = long(nc * ns * nd);
        family("pairs", n, std::to_string(nc) + " configurations, " + std::to_string(ns) + " structures and " + std::to_string(nd) + " settings: all " +
                               (T ? "triples" : "pairs of them that differ from the valid system in at most two") + ", under all 18 combinations of policies", [&](Try &t, long i) {
            static vector<Doc> cs = confs(t.L), ds = settingsDocs(t.L);
            static auto ss = structures(t.L);
            size_t a = size_t(i) % nc, b = size_t(i) / nc % ns, d = size_t(i) / nc / ns;
            if (!T && (a != 0) + (b != 0) + (d != 0) > 2) return true;
            Case k{cs[a], ss[b].first, ss[b].second, ds[d]};
            for (auto &p : all)
                if (!t.run(k, p)) return false;
            return true;
        }, 16);
    }
    // (3) files cut at every place
    {
        const size_t lens[4] = {shape->conf.size(), shape->structure.size(), shape->incA.size(), shape->settings.size()};
        long n = long(lens[0] + lens[1] + lens[2] + lens[3]);
        family("cuts", n, "each of the four files cut at every place (" + std::to_string(n) + "), under " + std::to_string(few.size()) + " combinations of policies", [&](Try &t, long i) {
            size_t at = size_t(i);
            int f = 0;
            while (at >= lens[f]) at -= lens[f++];
            Case k = t.L.good();
            Doc &d = f == 0 ? k.conf : f == 1 ? k.st : f == 2 ? k.incA : k.set;
            if (at > d.text.size()) return true;
            d.text = d.text.substr(0, at);
            for (auto &p : few)
                if (!t.run(k, p)) return false;
            return true;
        }, 32);
    }
    // (4) settings one edit away
    {
        vector<XNode> m;
        mutate(mk(shape->settings), T ? 1 : 0, m);
        family("settings", long(m.size()), std::to_string(m.size()) + " settings one edit away from valid ones, under " + std::to_string(few.size()) + " combinations of policies", [&](Try &t, long i) {
            Case k = t.L.good();
            k.set.text = writeNode(m[size_t(i)]);
            for (auto &p : few)
                if (!t.run(k, p)) return false;
            return true;
        });
    }
    // (5) structures one edit away, missing subsystems allowed
    {
        vector<XNode> m;
        XNode D = mk(shape->structure);
        vector<Path> ps;
        paths(D, {}, ps);
        for (auto &p : ps) {
            XNode k;
            if (!p.empty()) {
                k = D;
                auto &v = at(k, p, p.size() - 1).kids;
                v.erase(v.begin() + long(p.back()));
                m.push_back(k);
                k = D;
                auto &u = at(k, p, p.size() - 1).kids;
                u.insert(u.begin() + long(p.back()), XNode(u[p.back()]));
                m.push_back(k);
            }
            for (auto tag : {"SystemClass", "Subsystem", "SubsystemInclude", "ComponentLibrary", "InstanceDefinition", "ComponentType", "ParameterBlock", "IntegerParameter", "Component", "Bogus"}) {
                k = D;
                at(k, p, p.size()).tag = tag;
                m.push_back(k);
                k = D;
                at(k, p, p.size()).kids.push_back(mk(string("<") + tag + "/>"));
                m.push_back(k);
            }
            const auto &as = at(D, p, p.size()).attrs;
            for (size_t a = 0; a < as.size(); a++)
                for (string v : {"", "Foo", "A", "A.xml", "nope.xml", "Obj", "Obj:x", "300", "%", ":", "//["}) {
                    k = D;
                    at(k, p, p.size()).attrs[a].second = v;
                    m.push_back(k);
                }
        }
        family("structures", long(m.size()), std::to_string(m.size()) + " structures one edit away from a valid one, under " + std::to_string(few.size()) + " combinations of policies", [&](Try &t, long i) {
            Case k = t.L.good();
            k.st.text = writeNode(m[size_t(i)]);
            for (auto &p : few)
                if (!t.run(k, p)) return false;
            return true;
        });
    }
    // (6) the remote port: open exactly when tuning is allowed and remote access not forbidden
    family("remote port", 2 * 3 * 3 * 3, "tuning allowed or not, remote access forbidden, allowed or left as it is, port free, in use or in use by this user's other system, with settings that load, that fail and that may fail", [&](Try &t, long i) {
        return t.remote(i % 2, int(i / 2 % 3) - 1, int(i / 6 % 3), int(i / 18));
    }, 2);
    // (7) plugins that need others
    {
        long per = 1 << 9, n = per * 2;
        family("plugins", n, "three plugins, each needing any of the others or what is not there, looked for by the loader or by the plugin itself, at every place of the one that the structure needs, in one location or each in its own, a missing subsystem fatal or not", [&](Try &t, long i) {
            if (g_loaded && i >= 512) return true;
            bool thrown = i < 512;
            vector<int> needs{int(i & 7), int(i >> 3 & 7), int(i >> 6 & 7)};
            for (size_t at = 0; at <= 3; at++)
                for (int k = 0; k < 4; k++)
                    if ((T || at % 2 == size_t(k & 1)) && !t.chain(needs, thrown, at, k & 1, k & 2)) return false;
            return true;
        });
        if (T) {
            long m = 1 << 13;
            family("plugins, four", m, "four plugins, each needing any of the others, in the same ways", [&](Try &t, long i) {
                bool thrown = i & 1;
                if (g_loaded && !thrown) return true;
                vector<int> needs;
                long q = i >> 1;
                for (int k = 0; k < 4; k++, q >>= 3) needs.push_back(int((q & 7 & ((1 << k) - 1)) | (q & 7 & ~((1 << k) - 1)) << 1));
                for (int k = 0; k < 4; k++)
                    if (!t.chain(needs, thrown, size_t(i / 4 % 5), k & 1, k & 2)) return false;
                return true;
            });
        }
    }
    return c.finish("model_checking", "started exactly when the files and policies allow it, completely and as described");
}
static Reg r16("P16", p16);
