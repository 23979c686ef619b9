// Binding to the implementation: builds instances from a world, executes the
// same operations as the model and observes the result through public interfaces.
#pragma once
#include "core.h"
#include "xmlmini.h"
#include "ParameterMgrFullConnector.h"
#include "CommandHandlerInterface.h"
#include "ElementHandle.h"
#include "SelectionCriterionInterface.h"
#include "SelectionCriterionTypeInterface.h"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

extern Env *g_env;            // environment captured by subsystems being created
extern string g_scratch;      // private scratch directory of this process
extern string g_pluginDir;

inline void writeFile(const string &p, const string &c)
{
    std::ofstream f(p, std::ios::binary | std::ios::trunc);
    f << c;
}
inline string readFile(const string &p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

struct World
{
    string name;
    std::shared_ptr<Structure> S;
    RuleTab R;
    State init; // before start: criteria, domains (settings document), hw contents
    bool tuningAllowed = true;
    bool withSettings = true;
    bool schemas = false; // files checked against the schemas at start
    vector<Op> prefix; // ops executed right after start, unexplored
    string dir;
    string settingsOverride; // raw settings document when not generated
    char chan = 'C';         // how commands are issued: C handler, A application interface, N network
    int port = 0;            // of the remote interface, when it is used
    void files()
    {
        if (!dir.empty()) return;
        dir = g_scratch + "/" + name;
        mkdir(dir.c_str(), 0755);
        Model m(*S, R);
        writeFile(dir + "/structure.xml", S->xml);
        writeFile(dir + "/settings.xml",
                  settingsOverride.empty() ? m.domainsXml(init) : settingsOverride);
        writeConfig();
    }
    void writeConfig()
    {
        writeFile(dir + "/config.xml",
                  string("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"
                         "<ParameterFrameworkConfiguration SystemClassName=\"") +
                      S->sys + "\" ServerPort=\"" + std::to_string(port ? port : 5000) + "\" TuningAllowed=\"" +
                      (tuningAllowed ? "true" : "false") +
                      "\"><SubsystemPlugins><Location Folder=\"" + g_pluginDir +
                      "\"><Plugin Name=\"libmcplugin.so\"/></Location></SubsystemPlugins>"
                      "<StructureDescriptionFileLocation Path=\"" + dir + "/structure.xml\"/>" +
                      (withSettings ? "<SettingsConfiguration><ConfigurableDomainsFileLocation Path=\"" +
                                          dir + "/settings.xml\"/></SettingsConfiguration>"
                                    : string()) +
                      "</ParameterFrameworkConfiguration>\n");
    }
    std::pair<State, Outcome> started() const
    {
        Model m(*S, const_cast<RuleTab &>(R));
        m.tuningAllowed = tuningAllowed;
        State s = init;
        Outcome o = m.start(s);
        return {s, o};
    }
};

struct RealOutcome
{
    bool ok = true;
    string val;
    vector<HwEvent> hw;
};

#include "net.h"
#include "client.h"
struct Real
{
    World &W;
    const Structure &S;
    Env env;
    std::unique_ptr<CParameterMgrFullConnector> pf;
    std::unique_ptr<CommandHandlerInterface> ch;
    std::map<string, ElementHandle *> handles;
    string error;
    bool started = false;
    uint64_t badXmlSeq = 0;
    NetClient net;

    struct Later {}; // constructed now, started by startNow()
    Real(World &w, Later) : W(w), S(*w.S)
    {
        W.files();
        construct(false);
    }
    Real(World &w) : W(w), S(*w.S)
    {
        if (W.chan != 'N' && W.chan != 'R') {
            W.files();
            build(false);
            return;
        }
        for (int attempt = 0; attempt < 200; attempt++) {
            if (!W.port) W.port = freePort(attempt);
            W.files();
            W.writeConfig();
            build(true);
            if (started || error.find("Unable to listen") == string::npos) break;
            W.port = 0;
            ch.reset();
            pf.reset();
            env = Env();
            error.clear();
        }
    }
    void build(bool remote)
    {
        construct(remote);
        startNow();
    }
    void construct(bool remote)
    {
        World &w = W;
        for (size_t b = 0; b < S.objs.size(); b++)
            env.shadow[S.objs[b].name] = S.objBytes(int(b), w.init.hw);
        setEnvFlags(w.init);
        Env *saved = g_env;
        g_env = &env;
        pf.reset(new CParameterMgrFullConnector(W.dir + "/config.xml"));
        pf->setForceNoRemoteInterface(!remote);
        if (W.schemas) {
            pf->setSchemaUri(string(getenv("REPO") ? getenv("REPO") : "/repo") + "/schemas");
            pf->setValidateSchemasOnStart(true);
        }
        criteria();
        g_env = saved;
    }
    void criteria()
    {
        World &w = W;
        for (size_t i = 0; i < S.crits.size(); i++) {
            auto &c = S.crits[i];
            auto t = pf->createSelectionCriterionType(c.incl);
            for (auto &v : c.vals) {
                string e;
                if (!t->addValuePair(v.second, v.first, e)) {
                    error = "criterion value refused: " + e;
                }
            }
            auto *cr = pf->createSelectionCriterion(c.name, t);
            cr->setCriterionState(w.init.crit[i]);
        }
    }
    void startNow()
    {
        Env *saved = g_env;
        g_env = &env;
        started = pf->start(error);
        g_env = saved;
        if (started) ch.reset(pf->createCommandHandler());
    }
    ~Real()
    {
        for (auto &h : handles) delete h.second;
        net.close();
        ch.reset();
        Env *saved = g_env;
        pf.reset();
        g_env = saved;
    }
    void setEnvFlags(const State &s)
    {
        for (size_t b = 0; b < S.objs.size(); b++)
            if (s.failW >> b & 1)
                env.failWrite.insert(S.objs[b].name), env.failRead.insert(S.objs[b].name);
        for (size_t k = 0; k < S.subs.size(); k++) {
            if (s.dead >> k & 1) env.dead.insert(S.subs[k]);
            if (s.restart >> k & 1) env.restart.insert(S.subs[k]);
        }
    }
    bool cmd(const string &c, const vector<string> &args, string &out)
    {
        out.clear();
        if (W.chan == 'N') return netCmd(c, args, out);
        if (W.chan == 'R') return clientCmd(c, args, out);
        bool ok;
        if (W.chan == 'A' && apiCmd(c, args, out, ok)) return ok;
        return ch->process(c, args, out);
    }
    // through remote-process
    bool clientCmd(const string &c, const vector<string> &args, string &out)
    {
        net.close(); // one connection at a time is served
        vector<string> a{"localhost", std::to_string(W.port), c};
        a.insert(a.end(), args.begin(), args.end());
        Client cl;
        if (!cl.start(a)) netFail("remote-process cannot be run");
        ClientRun r = cl.wait();
        if (r.hung || r.crashed()) netFail("remote-process " + string(r.hung ? "does not end" : "crashed") + " on " + c);
        bool ok = r.code() == 0;
        out = ok ? r.out : r.err;
        if (out.empty() || out.back() != '\n') netFail("remote-process ends with " + std::to_string(r.code()) + " and prints no answer to " + c);
        out.pop_back();
        if (!(ok ? r.err : r.out).empty()) netFail("remote-process prints on both outputs for " + c);
        return ok;
    }
    bool netCmd(const string &c, const vector<string> &args, string &out)
    {
        out.clear();
        string why;
        if (!net.connected() && !net.open(W.port, why)) netFail("cannot connect: " + why);
        NetAnswer a;
        if (!net.send(netRequest(c, args)) || !net.answer(a, why)) netFail("no answer to " + c + ": " + why);
        out = a.text;
        return a.ok;
    }
    [[noreturn]] static void netFail(const string &w)
    {
        fprintf(stderr, "remote interface: %s\n", w.c_str());
        abort();
    }
    // the call of the application interface that corresponds to a command; false if there is none
    bool apiCmd(const string &c, const vector<string> &a, string &out, bool &ok)
    {
        size_t n = a.size();
        auto onOff = [&](bool &v, const char *on, const char *off) {
            if (n < 1 || (a[0] != on && a[0] != off)) return false;
            v = a[0] == on;
            return true;
        };
        auto rest = [&](size_t from) {
            return join(vector<string>(a.begin() + long(std::min(from, n)), a.end()), " ");
        };
        bool v;
        if (c == "setTuningMode") {
            if (!onOff(v, "on", "off")) return false;
            ok = pf->setTuningMode(v, out);
        } else if (c == "getTuningMode") {
            ok = true, out = pf->isTuningModeOn() ? "on" : "off";
        } else if (c == "setValueSpace") {
            if (!onOff(v, "raw", "real")) return false;
            ok = true, pf->setValueSpace(v);
        } else if (c == "getValueSpace") {
            ok = true, out = pf->isValueSpaceRaw() ? "raw" : "real";
        } else if (c == "setOutputRawFormat") {
            if (!onOff(v, "hex", "dec")) return false;
            ok = true, pf->setOutputRawFormat(v);
        } else if (c == "getOutputRawFormat") {
            ok = true, out = pf->isOutputRawFormatHex() ? "hex" : "dec";
        } else if (c == "setAutoSync") {
            if (!onOff(v, "on", "off")) return false;
            ok = pf->setAutoSync(v, out);
        } else if (c == "getAutoSync") {
            ok = true, out = pf->isAutoSyncOn() ? "on" : "off";
        } else if (c == "sync") {
            ok = pf->sync(out);
        } else if (c == "createDomain" && n >= 1) {
            ok = pf->createDomain(a[0], out);
        } else if (c == "deleteDomain" && n >= 1) {
            ok = pf->deleteDomain(a[0], out);
        } else if (c == "deleteAllDomains") {
            ok = pf->deleteAllDomains(out);
        } else if (c == "renameDomain" && n >= 2) {
            ok = pf->renameDomain(a[0], a[1], out);
        } else if (c == "setSequenceAwareness" && n >= 2) {
            if (a[1] != "true" && a[1] != "false") return false;
            ok = pf->setSequenceAwareness(a[0], a[1] == "true", out);
        } else if (c == "getSequenceAwareness" && n >= 1) {
            ok = pf->getSequenceAwareness(a[0], v, out);
            if (ok) out = v ? "true" : "false";
        } else if (c == "addElement" && n >= 2) {
            ok = pf->addConfigurableElementToDomain(a[0], a[1], out);
        } else if (c == "removeElement" && n >= 2) {
            ok = pf->removeConfigurableElementFromDomain(a[0], a[1], out);
        } else if (c == "splitDomain" && n >= 2) {
            ok = pf->split(a[0], a[1], out);
        } else if (c == "createConfiguration" && n >= 2) {
            ok = pf->createConfiguration(a[0], a[1], out);
        } else if (c == "deleteConfiguration" && n >= 2) {
            ok = pf->deleteConfiguration(a[0], a[1], out);
        } else if (c == "renameConfiguration" && n >= 3) {
            ok = pf->renameConfiguration(a[0], a[1], a[2], out);
        } else if (c == "saveConfiguration" && n >= 2) {
            ok = pf->saveConfiguration(a[0], a[1], out);
        } else if (c == "restoreConfiguration" && n >= 2) {
            CParameterMgrFullConnector::Results errs;
            ok = pf->restoreConfiguration(a[0], a[1], errs);
            out = join(vector<string>(errs.begin(), errs.end()), "\n");
        } else if (c == "setElementSequence" && n >= 3) {
            ok = pf->setElementSequence(a[0], a[1], vector<string>(a.begin() + 2, a.end()), out);
        } else if (c == "setRule" && n >= 3) {
            ok = pf->setApplicationRule(a[0], a[1], rest(2), out);
        } else if (c == "clearRule" && n >= 2) {
            ok = pf->clearApplicationRule(a[0], a[1], out);
        } else if (c == "getRule" && n >= 2) {
            ok = pf->getApplicationRule(a[0], a[1], out);
        } else if (c == "getParameter" && n >= 1) {
            string val;
            ok = pf->accessParameterValue(a[0], val, false, out);
            if (ok) out = val;
        } else if (c == "setParameter" && n >= 2) {
            string val = rest(1);
            ok = pf->accessParameterValue(a[0], val, true, out);
        } else if (c == "getConfigurationParameter" && n >= 3) {
            string val;
            ok = pf->accessConfigurationValue(a[0], a[1], a[2], val, false, out);
            if (ok) out = val;
        } else if (c == "setConfigurationParameter" && n >= 4) {
            string val = rest(3);
            ok = pf->accessConfigurationValue(a[0], a[1], a[2], val, true, out);
        } else if (c == "showMapping" && n >= 1) {
            ok = pf->getParameterMapping(a[0], out);
        } else if (c == "exportDomainsXML" && n >= 1) {
            string d = a[0];
            ok = pf->exportDomainsXml(d, false, true, out);
        } else if (c == "importDomainsXML" && n >= 1) {
            ok = pf->importDomainsXml(a[0], false, true, out);
        } else if (c == "exportDomainsWithSettingsXML" && n >= 1) {
            string d = a[0];
            ok = pf->exportDomainsXml(d, true, true, out);
        } else if (c == "importDomainsWithSettingsXML" && n >= 1) {
            ok = pf->importDomainsXml(a[0], true, true, out);
        } else if (c == "exportDomainWithSettingsXML" && n >= 2) {
            string d = a[1];
            ok = pf->exportSingleDomainXml(d, a[0], true, true, out);
        } else if (c == "importDomainWithSettingsXML" && n >= 1) {
            if (n > 1 && a[1] != "overwrite") return false;
            ok = pf->importSingleDomainXml(a[0], n > 1, true, true, out);
        } else if (c == "getDomainsWithSettingsXML" || c == "getDomainsXML") {
            string x;
            ok = pf->exportDomainsXml(x, true, false, out);
            if (ok) out = x;
        } else if (c == "getDomainWithSettingsXML" && n >= 1) {
            string x;
            ok = pf->exportSingleDomainXml(x, a[0], true, false, out);
            if (ok) out = x;
        } else if (c == "setDomainsWithSettingsXML" && n >= 1) {
            ok = pf->importDomainsXml(a[0], true, false, out);
        } else if (c == "setDomainWithSettingsXML" && n >= 1) {
            if (n > 1 && a[1] != "overwrite") return false;
            ok = n == 1 ? pf->importSingleDomainXml(a[0], false, out)
                        : pf->importSingleDomainXml(a[0], true, true, false, out);
        } else if (c == "getElementXML" && n >= 1) {
            auto h = handle(a[0]);
            string e;
            ok = h && h->getAsXML(out, e);
        } else
            return false;
        return true;
    }
    string cmdv(const string &c, const vector<string> &args = {})
    {
        string r;
        cmd(c, args, r);
        return r;
    }
    ElementHandle *handle(const string &path)
    {
        auto it = handles.find(path);
        if (it != handles.end()) return it->second;
        string e;
        return handles[path] = pf->createElementHandle(path, e);
    }
    string subtreeXml(const string &path, const vector<string> &texts)
    {
        int el = S.byPath.at(path);
        Area a{el, {}};
        RuleTab r;
        Model m(S, r);
        return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" + m.settingsXml(a, &texts);
    }
    struct Slot
    {
        string path, xml;
        vector<uint8_t> bytes;
    };
    std::map<int, Slot> slots;
    bool keepLog = false; // operations of several threads share the hardware log
    void putDoc(char ch, const string &path, const string &xml, const vector<uint8_t> &bytes, RealOutcome &o)
    {
        auto h = handle(path);
        vector<string> args{path};
        for (auto b : bytes) args.push_back(std::to_string(int(b)));
        switch (ch) {
        case 'x': o.ok = cmd("setElementXML", {path, xml}, o.val); break;
        case 'X': o.ok = h && h->setAsXML(xml, o.val); break;
        case 'b': o.ok = cmd("setElementBytes", args, o.val); break;
        case 'B': o.ok = h && h->setAsBytes(bytes, o.val); break;
        }
    }
    template <class T>
    static string showV(T v)
    {
        return std::to_string(i64(v));
    }
    static string showV(double v)
    {
        char b[60];
        snprintf(b, sizeof b, "%.17g", v);
        return b;
    }
    static string showV(const string &v) { return v; }
    template <class T>
    static vector<T> conv(const vector<string> &v)
    {
        vector<T> r;
        for (auto &x : v) r.push_back(T(strtoll(x.c_str(), nullptr, 10)));
        return r;
    }
    template <class T>
    void gets(RealOutcome &o, ElementHandle *h, bool arr, bool (ElementHandle::*sc)(T &, string &) const,
              bool (ElementHandle::*ar)(vector<T> &, string &) const)
    {
        string e;
        if (!arr) {
            T v{};
            o.ok = (h->*sc)(v, e);
            o.val = o.ok ? showV(v) : e;
            return;
        }
        vector<T> v;
        o.ok = (h->*ar)(v, e);
        vector<string> r;
        for (const auto &x : v) r.push_back(showV(T(x)));
        o.val = o.ok ? join(r, " ") : e;
    }
    void typedGet(char k, bool arr, ElementHandle *h, RealOutcome &o)
    {
        if (!h) {
            o.ok = false;
            return;
        }
        switch (k) {
        case 'b': return gets<bool>(o, h, arr, &ElementHandle::getAsBoolean, &ElementHandle::getAsBooleanArray);
        case 'u': return gets<uint32_t>(o, h, arr, &ElementHandle::getAsInteger, &ElementHandle::getAsIntegerArray);
        case 's': return gets<int32_t>(o, h, arr, &ElementHandle::getAsSignedInteger, &ElementHandle::getAsSignedIntegerArray);
        case 'd': return gets<double>(o, h, arr, &ElementHandle::getAsDouble, &ElementHandle::getAsDoubleArray);
        default: return gets<string>(o, h, arr, &ElementHandle::getAsString, &ElementHandle::getAsStringArray);
        }
    }
    void typedSet(char k, bool arr, ElementHandle *h, const vector<string> &v, RealOutcome &o)
    {
        if (!h) {
            o.ok = false;
            return;
        }
        vector<double> d;
        for (auto &x : v) d.push_back(strtod(x.c_str(), nullptr));
        string &e = o.val;
        switch (k) {
        case 'b': o.ok = arr ? h->setAsBooleanArray(conv<bool>(v), e) : h->setAsBoolean(conv<bool>(v)[0], e); break;
        case 'u': o.ok = arr ? h->setAsIntegerArray(conv<uint32_t>(v), e) : h->setAsInteger(conv<uint32_t>(v)[0], e); break;
        case 's': o.ok = arr ? h->setAsSignedIntegerArray(conv<int32_t>(v), e) : h->setAsSignedInteger(conv<int32_t>(v)[0], e); break;
        case 'd': o.ok = arr ? h->setAsDoubleArray(d, e) : h->setAsDouble(d[0], e); break;
        default: o.ok = arr ? h->setAsStringArray(v, e) : h->setAsString(v[0], e); break;
        }
    }
    RealOutcome exec(const Op &op)
    {
        RealOutcome o;
        if (!keepLog) env.log.clear();
        const string &c = op[0];
        vector<string> args(op.begin() + 1, op.end());
        auto A = [&](size_t i) -> const string & { return args[i]; };
        if (c[0] != '!') {
            o.ok = cmd(c, args, o.val);
        } else if (c == "!crit") {
            pf->getSelectionCriterion(A(0))->setCriterionState(atoi(A(1).c_str()));
        } else if (c == "!apply") {
            pf->applyConfigurations();
        } else if (c == "!fail") {
            env.failWrite.insert(A(0));
        } else if (c == "!heal") {
            env.failWrite.erase(A(0));
        } else if (c == "!die") {
            env.dead.insert(A(0));
        } else if (c == "!live") {
            env.dead.erase(A(0));
        } else if (c == "!restart") {
            env.restart.insert(A(0));
            for (size_t b = 0; b < S.objs.size(); b++)
                if (S.subs[S.objs[b].sub] == A(0))
                    env.shadow[S.objs[b].name] =
                        string(env.shadow[S.objs[b].name].size(), '\0');
        } else if (c == "!hset") {
            auto h = handle(A(0));
            string e;
            o.ok = h && h->setAsString(A(1), e);
            o.val = e;
        } else if (c == "!hget") {
            auto h = handle(A(0));
            string e;
            o.ok = h && h->getAsString(o.val, e);
        } else if (c == "!setxml") {
            o.ok = cmd("setElementXML",
                       {A(0), subtreeXml(A(0), vector<string>(args.begin() + 1, args.end()))},
                       o.val);
        } else if (c == "!rogue") {
            auto h = handle(A(0));
            o.ok = h != nullptr;
            if (h) o.val = h->isRogue() ? "rogue" : "owned";
        } else if (c == "!ht") {
            typedSet(A(0)[0], A(1) == "1", handle(A(2)), vector<string>(args.begin() + 3, args.end()), o);
        } else if (c == "!hg") {
            typedGet(A(0)[0], A(1) == "1", handle(A(2)), o);
        } else if (c == "!grab") {
            Slot sl;
            sl.path = A(1);
            string e;
            auto h = handle(A(1));
            char ch = A(2)[0];
            string hexs;
            switch (ch) {
            case 'x': o.ok = cmd("getElementXML", {A(1)}, sl.xml); break;
            case 'X': o.ok = h && h->getAsXML(sl.xml, e); break;
            case 'b':
                o.ok = cmd("getElementBytes", {A(1)}, hexs);
                for (auto &t : splitWs(hexs)) sl.bytes.push_back(uint8_t(strtol(t.c_str(), nullptr, 0)));
                break;
            case 'B': o.ok = h && h->getAsBytes(sl.bytes, e); break;
            }
            slots[atoi(A(0).c_str())] = sl;
        } else if (c == "!put" || c == "!puton") {
            auto it = slots.find(atoi(A(0).c_str()));
            if (it == slots.end())
                o.ok = false;
            else
                putDoc(A(1)[0], c == "!put" ? it->second.path : A(2), it->second.xml, it->second.bytes, o);
        } else if (c == "!badsub") {
            vector<uint8_t> b(A(2).begin(), A(2).end());
            putDoc(A(1)[0], A(0), A(2), b, o);
        } else if (c == "!hbytes") {
            auto h = handle(A(0));
            vector<uint8_t> b;
            string e;
            for (size_t i = 1; i < args.size(); i++) b.push_back(uint8_t(strtol(A(i).c_str(), 0, 0)));
            o.ok = h && h->setAsBytes(b, e);
            o.val = e;
        } else if (c == "!xd") {
            string x;
            if (!cmd("getDomainWithSettingsXML", {A(0)}, x))
                o.ok = false, o.val = x;
            else
                o.ok = cmd("setDomainWithSettingsXML", {x, "overwrite"}, o.val);
        } else if (c == "!xdup") {
            string x;
            if (!cmd("getDomainWithSettingsXML", {A(0)}, x))
                o.ok = false, o.val = x;
            else
                o.ok = cmd("setDomainWithSettingsXML", {x}, o.val);
        } else if (c == "!xas" || c == "!xkas") {
            string x;
            if (!cmd("getDomainWithSettingsXML", {A(0)}, x))
                o.ok = false, o.val = x;
            else {
                bool conf = c == "!xkas";
                string from = string(conf ? "<Configuration Name=\"" : "<ConfigurableDomain Name=\"") + xmlEsc(A(conf ? 1 : 0)) + "\"",
                       to = string(conf ? "<Configuration Name=\"" : "<ConfigurableDomain Name=\"") + xmlEsc(A(conf ? 2 : 1)) + "\"";
                // the serializer leaves apostrophes as they are
                for (auto *t : {&from, &to})
                    for (size_t q; (q = t->find("&apos;")) != string::npos;) t->replace(q, 6, "'");
                for (size_t q = 0; (q = x.find(from, q)) != string::npos; q += to.size()) x.replace(q, from.size(), to);
                if (conf || op.size() > 3)
                    o.ok = cmd("setDomainWithSettingsXML", {x, "overwrite"}, o.val);
                else
                    o.ok = cmd("setDomainWithSettingsXML", {x}, o.val);
            }
        } else if (c == "!xa") {
            string x;
            if (!cmd("getDomainsWithSettingsXML", {}, x))
                o.ok = false, o.val = x;
            else
                o.ok = cmd("setDomainsWithSettingsXML", {x}, o.val);
        } else if (c == "!xfa") {
            string f = W.dir + "/all.xml";
            o.ok = cmd("exportDomainsWithSettingsXML", {f}, o.val) &&
                   cmd("importDomainsWithSettingsXML", {f}, o.val);
        } else if (c == "!xfd") {
            string f = W.dir + "/one.xml";
            o.ok = cmd("exportDomainWithSettingsXML", {A(0), f}, o.val) &&
                   cmd("importDomainWithSettingsXML", {f, "overwrite"}, o.val);
        } else if (c == "!xdd") {
            string x;
            if (!cmd("getDomainWithSettingsXML", {A(0)}, x))
                o.ok = false, o.val = x;
            else
                o.ok = cmd("deleteDomain", {A(0)}, o.val) &&
                       cmd("setDomainWithSettingsXML", {x}, o.val);
        } else if (c == "!xns") {
            string f = W.dir + "/ns.xml";
            o.ok = cmd("exportDomainsXML", {f}, o.val) && cmd("importDomainsXML", {f}, o.val);
        } else if (c == "!x1ns") {
            string x;
            if (!cmd("getDomainWithSettingsXML", {A(0)}, x))
                o.ok = false, o.val = x;
            else {
                auto p = x.find("<Settings"), q = x.find("</Settings>");
                if (p != string::npos && q != string::npos) x.erase(p, q + 11 - p);
                o.ok = cmd("setDomainWithSettingsXML", {x, "overwrite"}, o.val);
            }
        } else if (c == "!xfresh" || c == "!xboot" || c == "!xschema") {
            string x = cmdv("getDomainsWithSettingsXML");
            World w = W;
            w.dir.clear();
            w.name = W.name + "_again";
            for (size_t i = 0; i < S.crits.size(); i++)
                w.init.crit[i] = pf->getSelectionCriterion(S.crits[i].name)->getCriterionState();
            w.tuningAllowed = true;
            w.withSettings = c != "!xboot";
            w.schemas = c == "!xschema";
            w.settingsOverride = x;
            Real again(w);
            o.val = again.error;
            o.ok = again.started;
            if (c == "!xboot" && o.ok)
                o.ok = again.cmd("setTuningMode", {"on"}, o.val) &&
                       again.cmd("setDomainsWithSettingsXML", {x}, o.val);
            if (o.ok) o.val = again.domainsText(again.cmdv("getDomainsWithSettingsXML"), nullptr);
        } else if (c == "!badall") {
            o.ok = cmd("setDomainsWithSettingsXML", {A(0)}, o.val);
        } else if (c == "!badone") {
            o.ok = cmd("setDomainWithSettingsXML", args, o.val);
        } else
            abort();
        o.hw = hwLog();
        if (c == "getElementBytes" && o.ok && S.byPath.count(A(0))) {
            string b;
            for (auto &t : splitWs(o.val)) b += char(strtol(t.c_str(), nullptr, 0));
            o.val = Model::hexBytes(S.canonNode(S.byPath.at(A(0)), b));
        }
        return o;
    }
    vector<HwEvent> hwLog() const
    {
        vector<HwEvent> r = env.log;
        for (auto &e : r) e.bytes = S.canonObj(e.obj, e.bytes);
        return r;
    }
    static string line(const string &s, const char *key)
    {
        auto p = s.find(key);
        if (p == string::npos) return "?";
        p += strlen(key);
        auto q = s.find('\n', p);
        return s.substr(p, q - p);
    }
    static void valueTexts(const XNode &n, string &r)
    {
        if (n.kids.empty() && n.tag != "ParameterBlock" && n.tag != "BitParameterBlock" &&
            n.tag != "Component" && n.tag != "Subsystem" && n.tag != "SystemClass") {
            r += " | " + n.text;
            return;
        }
        for (auto &k : n.kids) valueTexts(k, r);
    }
    string domainsText(const string &xml, const std::map<string, string> *lasts)
    {
        XNode x;
        if (!XParser::parse(xml, x)) return "unparsable export: " + xml + "\n";
        string r;
        for (auto &d : x.kids) {
            r += "domain " + d.at("Name") + " aware=" + d.at("SequenceAware") + "\n elements";
            if (auto *e = d.kid("ConfigurableElements"))
                for (auto &k : e->kids) r += " " + k.at("Path");
            r += "\n";
            const XNode *cs = d.kid("Configurations"), *st = d.kid("Settings");
            size_t ci = 0;
            if (cs)
                for (auto &c : cs->kids) {
                    string rule = "<none>";
                    if (!c.kids.empty()) {
                        rule = ruleText(c.kids[0]);
                        if (c.kids.size() > 1) rule += " +extra";
                    }
                    r += " conf " + c.at("Name") + " rule " + rule + "\n";
                    if (st && ci < st->kids.size()) {
                        auto &sc = st->kids[ci];
                        if (sc.at("Name") != c.at("Name")) r += "  settings of " + sc.at("Name") + "\n";
                        for (auto &a : sc.kids) {
                            r += "  area " + a.at("Path") + ":";
                            for (auto &k : a.kids) valueTexts(k, r);
                            r += "\n";
                        }
                    }
                    ci++;
                }
            if (st && st->kids.size() != ci) r += " settings count differs\n";
            if (lasts) {
                auto it = lasts->find(d.at("Name"));
                r += " last " + (it == lasts->end() ? string("?") : it->second) + "\n";
            }
        }
        return r;
    }
    static string ruleText(const XNode &n)
    {
        if (n.tag == "CompoundRule") {
            string r = n.at("Type") + "{";
            for (size_t i = 0; i < n.kids.size(); i++) r += (i ? "," : "") + ruleText(n.kids[i]);
            return r + "}";
        }
        return n.at("SelectionCriterion") + " " + n.at("MatchesWhen") + " " + n.at("Value");
    }
    string observe()
    {
        if (W.chan == 'R') {
            W.chan = 'C';
            string o = observe();
            W.chan = 'R';
            return o;
        }
        string r;
        r.reserve(2048);
        string st = cmdv("status");
        string space = line(st, "Value Space: "), fmt = line(st, "Output Raw Format: ");
        r += "tuning=" + line(st, "Tuning Mode: ") + " autosync=" + line(st, "Auto Sync: ") +
             " space=" + space + " fmt=" + fmt + "\n";
        if (space == "raw") pf->setValueSpace(false);
        if (fmt == "hex") pf->setOutputRawFormat(false);
        for (auto &l : S.leaves) r += "value " + l.path + "=" + cmdv("getParameter", {l.path}) + "\n";
        std::map<string, string> lasts;
        {
            auto p = st.find("Last Applied [Pending] Configurations:");
            auto q = st.find("Selection Criteria:", p);
            std::istringstream is(st.substr(p, q - p));
            string ln;
            std::getline(is, ln);
            while (std::getline(is, ln)) {
                auto k = ln.find(": ");
                if (k == string::npos) continue;
                lasts[ln.substr(0, k)] = ln.substr(k + 2);
            }
        }
        r += domainsText(cmdv("getDomainsWithSettingsXML"), &lasts);
        for (auto &c : S.crits)
            r += "crit " + c.name + "=" +
                 std::to_string(pf->getSelectionCriterion(c.name)->getCriterionState()) + "\n";
        for (auto &o : S.objs)
            if (!o.virt()) r += "hw " + o.name + "=" + Model::hexBytes(S.canonObj(o.name, env.shadow[o.name])) + "\n";
        if (space == "raw") pf->setValueSpace(true);
        if (fmt == "hex") pf->setOutputRawFormat(true);
        return r;
    }
};

// ---------------------------------------------------------------- comparison
inline string evText(const HwEvent &e)
{
    return string(1, e.kind) + ":" + e.obj + (e.bytes.empty() ? "" : "=" + Model::hexBytes(e.bytes));
}
inline string cmpHw(const Outcome &m, const vector<HwEvent> &real)
{
    size_t at = 0;
    for (auto g : m.hw) {
        vector<HwEvent> r;
        for (size_t i = 0; i < g.size() && at < real.size(); i++) r.push_back(real[at++]);
        std::sort(g.begin(), g.end());
        std::sort(r.begin(), r.end());
        if (g != r) {
            string s = "hardware accesses differ: expected {";
            for (auto &e : g) s += " " + evText(e);
            s += " } got {";
            for (auto &e : r) s += " " + evText(e);
            return s + " }";
        }
    }
    if (at != real.size()) return "unexpected hardware access " + evText(real[at]);
    return "";
}
inline string cmpOutcome(const Op &op, const Outcome &m, const RealOutcome &r)
{
    if (m.ok != r.ok)
        return string("result differs: expected ") + (m.ok ? "success" : "refusal") + " got " +
               (r.ok ? "success" : "refusal") + " (" + r.val + ")";
    if (!r.ok && !op[0].empty() && op[0][0] != '!' && r.val.find_first_not_of(" \n\t") == string::npos) return "refused without telling why";
    if (m.ok && m.hasVal) {
        string got = op[0] == "getRule" && r.val != "<none>" ? normRule(r.val) : r.val;
        auto trim = [](const string &x) {
            auto a = x.find_first_not_of(" \n\t"), b = x.find_last_not_of(" \n\t");
            return a == string::npos ? string() : x.substr(a, b - a + 1);
        };
        bool list = op[0].compare(0, 4, "list") == 0 || op[0] == "getElementSequence";
        if (list && trim(got) == trim(m.val)) return cmpHw(m, r.hw);
        if (op[0] != "getRule" && got != m.val)
            return "value differs: expected '" + m.val + "' got '" + r.val + "'";
        if (op[0] == "getRule" && got != m.val)
            return "rule differs: expected '" + m.val + "' got '" + r.val + "'";
    }
    return cmpHw(m, r.hw);
}
inline string diffText(const string &a, const string &b)
{
    if (a == b) return "";
    std::istringstream x(a), y(b);
    string l, k, r = "state differs:";
    int n = 0;
    for (;;) {
        bool p = bool(std::getline(x, l)), q = bool(std::getline(y, k));
        if (!p && !q) break;
        if (!p) l = "<end>";
        if (!q) k = "<end>";
        if (l != k) {
            r += "\n    expected: " + l + "\n    got:      " + k;
            if (++n >= 6) break;
        }
    }
    return r;
}
