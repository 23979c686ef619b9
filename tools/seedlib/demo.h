// A small system with a recording hardware, for demonstrations.
#pragma once
#include "env.h"
#include "ParameterMgrFullConnector.h"
#include "CommandHandlerInterface.h"
#include "ElementHandle.h"
#include "SelectionCriterionInterface.h"
#include "SelectionCriterionTypeInterface.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <unistd.h>
using std::string;
using std::vector;
static Env *g_env;
extern "C" Env *mcCurrentEnv() { return g_env; }
#define CHECK(c)                                                                                   \
    do {                                                                                           \
        if (!(c)) {                                                                                \
            printf("FAILED line %d: %s\n", __LINE__, #c);                                          \
            exit(1);                                                                               \
        }                                                                                          \
    } while (0)
struct Crit
{
    string name;
    bool inclusive;
    vector<std::pair<string, int>> values;
};
static const vector<Crit> kCrits{{"C1", false, {{"a", 0}, {"b", 1}, {"c", 2}}},
                                 {"C2", true, {{"f1", 1}, {"f2", 2}, {"f3", 4}}}};
struct Sys
{
    Env env;
    string dir, error;
    bool started = false;
    std::unique_ptr<CParameterMgrFullConnector> pf;
    std::unique_ptr<CommandHandlerInterface> ch;
    static void put(const string &f, const string &t) { std::ofstream(f, std::ios::binary) << t; }
    // subsystems: XML of the <Subsystem>s; domains: XML of the <ConfigurableDomain>s
    Sys(const string &subsystems, const string &domains, const vector<Crit> &crits = kCrits,
        const string &configExtra = "")
    {
        static int n = 0;
        const char *w = getenv("DEMO_DIR");
        dir = string(w ? w : ".") + "/sys" + std::to_string(n++);
        if (system(("mkdir -p " + dir).c_str())) exit(3);
        put(dir + "/structure.xml", "<?xml version=\"1.0\" encoding=\"UTF-8\"?><SystemClass Name=\"Sys\">" + subsystems + "</SystemClass>");
        put(dir + "/settings.xml", "<?xml version=\"1.0\" encoding=\"UTF-8\"?><ConfigurableDomains SystemClassName=\"Sys\">" + domains + "</ConfigurableDomains>");
        put(dir + "/config.xml",
            "<?xml version=\"1.0\" encoding=\"UTF-8\"?><ParameterFrameworkConfiguration SystemClassName=\"Sys\" ServerPort=\"5000\" TuningAllowed=\"true\">"
            "<SubsystemPlugins><Location Folder=\"" + string(w ? w : ".") + "\"><Plugin Name=\"libmcplugin.so\"/></Location></SubsystemPlugins>"
            "<StructureDescriptionFileLocation Path=\"" + dir + "/structure.xml\"/>"
            "<SettingsConfiguration><ConfigurableDomainsFileLocation Path=\"" + dir + "/settings.xml\"/></SettingsConfiguration>" + configExtra +
            "</ParameterFrameworkConfiguration>");
        g_env = &env;
        pf.reset(new CParameterMgrFullConnector(dir + "/config.xml"));
        pf->setForceNoRemoteInterface(true);
        for (auto &c : crits) {
            auto t = pf->createSelectionCriterionType(c.inclusive);
            for (auto &v : c.values) {
                string e;
                t->addValuePair(v.second, v.first, e);
            }
            pf->createSelectionCriterion(c.name, t);
        }
    }
    Sys &start()
    {
        g_env = &env;
        started = pf->start(error);
        if (started) ch.reset(pf->createCommandHandler());
        return *this;
    }
    bool cmd(const vector<string> &a, string *out = nullptr)
    {
        string r;
        bool ok = ch->process(a[0], vector<string>(a.begin() + 1, a.end()), r);
        if (out) *out = r;
        return ok;
    }
    string get(const string &path)
    {
        string r;
        return cmd({"getParameter", path}, &r) ? r : "<error: " + r + ">";
    }
    string out(const vector<string> &a)
    {
        string r;
        bool ok = cmd(a, &r);
        return ok ? r : "<error: " + r + ">";
    }
    void crit(const string &n, int v) { pf->getSelectionCriterion(n)->setCriterionState(v); }
    void apply() { pf->applyConfigurations(); }
    string hw(const string &obj)
    {
        string r;
        char b[8];
        for (unsigned char c : env.shadow[obj]) snprintf(b, sizeof b, "%02x", c), r += b;
        return r;
    }
    string last(const string &dom)
    {
        std::istringstream is(out({"status"}));
        string l;
        while (std::getline(is, l))
            if (l.compare(0, dom.size() + 2, dom + ": ") == 0)
                return l.substr(dom.size() + 2, l.find(" [") - dom.size() - 2);
        return "?";
    }
};
static const string kStd =
    "<Subsystem Name=\"A\" Type=\"MC\"><ComponentLibrary/><InstanceDefinition>"
    "<ParameterBlock Name=\"c\">"
    "<IntegerParameter Name=\"p\" Size=\"8\" Max=\"100\" Mapping=\"Obj:A_p\"/>"
    "<IntegerParameter Name=\"q\" Size=\"8\" ArrayLength=\"2\" Mapping=\"Obj:A_q\"/>"
    "<ParameterBlock Name=\"n\" Mapping=\"Obj:A_n\"><IntegerParameter Name=\"u\" Size=\"8\"/>"
    "<BitParameterBlock Name=\"b\" Size=\"8\"><BitParameter Name=\"lo\" Size=\"4\" Pos=\"0\"/><BitParameter Name=\"hi\" Size=\"4\" Pos=\"4\"/></BitParameterBlock>"
    "</ParameterBlock></ParameterBlock>"
    "<IntegerParameter Name=\"x\" Size=\"8\" Mapping=\"Obj:A_x\"/>"
    "</InstanceDefinition></Subsystem>"
    "<Subsystem Name=\"B\" Type=\"MC\"><ComponentLibrary/><InstanceDefinition>"
    "<IntegerParameter Name=\"y\" Size=\"16\" Mapping=\"Obj:B_y\"/><IntegerParameter Name=\"z\" Size=\"8\" Mapping=\"Obj:B_z\"/>"
    "</InstanceDefinition></Subsystem>";
// a domain description: rules in XML, contents in XML
struct C
{
    string name, rule;
    vector<std::pair<string, string>> settings; // path, XML content
};
static string domain(const string &name, const vector<string> &els, const vector<C> &confs, bool aware = false)
{
    string r = "<ConfigurableDomain Name=\"" + name + "\" SequenceAware=\"" + (aware ? "true" : "false") + "\"><Configurations>";
    for (auto &c : confs) r += "<Configuration Name=\"" + c.name + "\">" + c.rule + "</Configuration>";
    r += "</Configurations><ConfigurableElements>";
    for (auto &e : els) r += "<ConfigurableElement Path=\"" + e + "\"/>";
    r += "</ConfigurableElements><Settings>";
    for (auto &c : confs) {
        r += "<Configuration Name=\"" + c.name + "\">";
        for (auto &s : c.settings) r += "<ConfigurableElement Path=\"" + s.first + "\">" + s.second + "</ConfigurableElement>";
        r += "</Configuration>";
    }
    return r + "</Settings></ConfigurableDomain>";
}
static string is(const string &c, const string &v, const string &mw = "Is")
{
    return "<SelectionCriterionRule SelectionCriterion=\"" + c + "\" MatchesWhen=\"" + mw + "\" Value=\"" + v + "\"/>";
}
static string all(const string &in) { return "<CompoundRule Type=\"All\">" + in + "</CompoundRule>"; }
static string any(const string &in) { return "<CompoundRule Type=\"Any\">" + in + "</CompoundRule>"; }
static string num(const string &n, const string &v) { return "<IntegerParameter Name=\"" + n + "\">" + v + "</IntegerParameter>"; }
