// P24: several instances in one process. Every history of two slots, interleaved
// in every way, compared with each slot's own history as the model runs it alone.
#include "drivers.h"
#include <fcntl.h>
#include <sys/resource.h>
#include "structwalk.h"
#include "worldset.h"

namespace
{
World otherWorld(const string &name)
{
    // same system name, subsystems, paths and domains, other types, criteria and layout
    auto S = std::make_shared<Structure>(
        "Sys", vector<ND>{sub("B", {u8("y", "Obj:B_y"), ranged(integer("z", 4, true, "Obj:B_z"), -9, 99999)}),
                          sub("A", {strParam("x", 5, "Obj:A_x"), pb("c", {u16("p"), enumeration("q", {{"one", 1}, {"two", 2}})}, "Obj:A_c")})},
        vector<CritDef>{{"C1", true, {{"a", 4}, {"b", 1}}}, {"C9", false, {{"f1", 1}, {"f2", 2}}}});
    WB b(name, S);
    Dom &d = b.dom("D1", {"/Sys/A/x"});
    b.conf(d, "c1", b.rule(rAll({rCrit(*S, "C1", M_INC, "a")})), 4);
    b.conf(d, "c2", b.rule(rAny({rCrit(*S, "C9", M_IS, "f2")})), 5);
    Dom &e = b.dom("D2", {"/Sys/B/z", "/Sys/A/c/q"}, true);
    b.conf(e, "e1", b.rule(rAll({})), 6);
    return b.w;
}
World failWorld(const string &name)
{
    World w = baseWorld(name);
    Model m(*w.S, w.R);
    string x = m.domainsXml(w.init);
    size_t p = x.rfind("</ConfigurableDomain>");
    if (p == string::npos) abort();
    w.settingsOverride = x.substr(0, p) + x.substr(p + 8); // not well-formed, at the very end
    return w;
}
World ruleWorld(const string &name)
{
    World w = baseWorld(name);
    Model m(*w.S, w.R);
    string x = m.domainsXml(w.init);
    size_t p = x.rfind("Value=\"");
    if (p == string::npos) abort();
    w.settingsOverride = x.replace(p + 7, 1, "nope"); // a criterion value that does not exist
    return w;
}
struct Slot
{
    World *W = nullptr;
    std::unique_ptr<Real> r;
    std::unique_ptr<Model> m;
    State s;
    int life = 0; // 0 none, 1 constructed, 2 started, 3 start refused
    bool bad = false;
    void drop() { r.reset(), W = nullptr, life = 0; }
};
struct Pool
{
    vector<World> w;
    vector<char> bad;
};
struct Machine
{
    Pool &P;
    Ctx &x;
    Slot sl[2];
    Machine(Pool &p, Ctx &c) : P(p), x(c) {}
    bool bad(const string &w) { return x.violate(w); }
    bool make(int i, int world)
    {
        Slot &s = sl[i];
        s.W = &P.w[size_t(world)];
        s.bad = P.bad[size_t(world)] != 0;
        s.r.reset(new Real(*s.W, Real::Later()));
        s.life = 1;
        return true;
    }
    bool start(int i)
    {
        Slot &s = sl[i];
        s.r->startNow();
        if (s.r->started == s.bad) return bad(string("start ") + (s.bad ? "succeeded" : "failed: " + s.r->error));
        if (s.bad) {
            if (s.r->error.empty()) return bad("start failed without an error");
            s.life = 3;
            return true;
        }
        auto so = s.W->started();
        s.s = so.first;
        s.m.reset(new Model(*s.W->S, s.W->R));
        s.m->tuningAllowed = s.W->tuningAllowed;
        s.life = 2;
        string d = cmpHw(so.second, s.r->hwLog());
        return d.empty() || bad("at start: " + d);
    }
    bool exec(int i, const Op &op)
    {
        Slot &s = sl[i];
        RealOutcome ro = s.r->exec(op);
        Outcome mo = s.m->exec(s.s, op);
        string d = cmpOutcome(op, mo, ro);
        return d.empty() || bad("instance " + std::to_string(i) + " after " + Checker::opText(op) + ": " + d);
    }
    bool observe(int i)
    {
        Slot &s = sl[i];
        if (s.life != 2) return true;
        string d = diffText(s.m->observe(s.s), s.r->observe());
        return d.empty() || bad("instance " + std::to_string(i) + ": " + d);
    }
    // runs f on slot i and checks that the other one's hardware saw nothing
    template <class F>
    bool alone(int i, F f)
    {
        Slot &o = sl[1 - i];
        size_t n = o.r ? o.r->env.log.size() : 0;
        auto sh = o.r ? o.r->env.shadow : decltype(o.r->env.shadow)();
        if (!f()) return false;
        if (o.r && (o.r->env.log.size() != n || o.r->env.shadow != sh)) return bad("the hardware of the other instance was accessed");
        return true;
    }
};
const Ops kOps{{"setTuningMode", "on"},
               {"setTuningMode", "off"},
               {"setAutoSync", "off"},
               {"setAutoSync", "on"},
               {"setValueSpace", "raw"},
               {"setOutputRawFormat", "hex"},
               {"setParameter", "/Sys/A/x", "7"},
               {"!hset", "/Sys/B/y", "6"},
               {"createDomain", "D4"},
               {"deleteDomain", "D2"},
               {"renameDomain", "D1", "D7"},
               {"createConfiguration", "D1", "c3"},
               {"saveConfiguration", "D1", "c1"},
               {"restoreConfiguration", "D1", "c2"},
               {"setRule", "D1", "c1", "All{}"},
               {"setParameter", "/Sys/A/nothere", "7"},
               {"!fail", "A_x"},
               {"!crit", "C1", "1"},
               {"!apply"},
               {"!xdup", "D1"},
               {"!xd", "D1"},
               {"sync"}};
// life cycles: create (each world), start, destroy and two steps, in every order
void lives(Checker &c, Pool &P)
{
    int depth = c.thorough ? 7 : 6, nw = int(P.w.size());
    // choices per slot: 0..nw-1 create, nw start, nw+1 destroy, nw+2.. steps
    const Ops steps{{"setTuningMode", "on"}, {"setParameter", "/Sys/A/x", "3"}, {"deleteDomain", "D2"}};
    int per = nw + 2 + int(steps.size()), all = 2 * per;
    c.bounds.push_back("life cycles: all interleavings of " + std::to_string(depth) + " creations (of " + std::to_string(nw) +
                       " systems, two of them refusing to start), starts, destructions and steps of two instances");
    c.items_("lifecycles", long(all) * all * all, [&](Ctx &x, long it) {
        vector<int> ix{int(it / all / all), int(it / all % all), int(it % all)};
        size_t lead = ix.size();
        ix.resize(size_t(depth), 0);
        for (;;) {
            // feasible?
            int life[2] = {0, 0}, wd[2] = {0, 0};
            size_t ran = ix.size();
            for (size_t d = 0; d < ix.size(); d++) {
                int i = ix[d] / per, k = ix[d] % per;
                bool can = k < nw ? life[i] == 0 : k == nw ? life[i] == 1 : k == nw + 1 ? life[i] != 0 : life[i] == 2;
                if (d == 0 && i == 1) can = false; // the slots are alike
                if (!can) {
                    ran = d;
                    break;
                }
                if (k < nw) life[i] = 1, wd[i] = k;
                else if (k == nw) life[i] = P.bad[size_t(wd[i])] ? 3 : 2;
                else if (k == nw + 1) life[i] = 0;
            }
            if (ran == ix.size()) {
                x.note("two empty slots");
                Machine m(P, x);
                for (int op : ix) {
                    int i = op / per, k = op % per;
                    string t = "instance " + std::to_string(i) + ": ";
                    bool ok = m.alone(i, [&]() {
                        if (k < nw) {
                            x.append("\n" + t + "create " + P.w[size_t(k)].name);
                            return m.make(i, k);
                        }
                        if (k == nw) {
                            x.append("\n" + t + "start");
                            return m.start(i);
                        }
                        if (k == nw + 1) {
                            x.append("\n" + t + "destroy");
                            m.sl[i].drop();
                            return true;
                        }
                        auto &o = steps[size_t(k - nw - 2)];
                        x.append("\n" + t + Checker::opText(o));
                        return m.exec(i, o);
                    });
                    if (!ok) return false;
                    x.sh->transitions++;
                }
                if (!m.observe(0) || !m.observe(1)) return false;
                // a later instance
                int fresh = (ix[0] + ix[1] + ix.back()) % 2;
                m.sl[0].drop();
                x.append("\ninstance 0 replaced by a new " + P.w[size_t(fresh)].name);
                if (!m.alone(0, [&]() { return m.make(0, fresh) && m.start(0); }) || !m.observe(0) || !m.observe(1)) return false;
                x.sh->states++, x.sh->validated++;
            }
            // an infeasible prefix rules out everything that follows it
            for (size_t d = ran + 1; d < ix.size(); d++) ix[d] = all - 1;
            size_t q = ix.size();
            while (q > lead && ix[q - 1] + 1 == all) ix[--q] = 0;
            if (q == lead || ran < lead) return true;
            ix[q - 1]++;
        }
    }, 16);
}
// operations on two running instances
void steps(Checker &c, Pool &P, const string &name, int wa, int wb, const Ops &ops, int depth)
{
    size_t k = ops.size(), all = 2 * k;
    c.bounds.push_back(name + ": all histories of " + std::to_string(depth) + " of " + std::to_string(k) + " operations on either of two running instances");
    c.items_(name, long(all * all), [&, wa, wb, depth](Ctx &x, long it) {
        vector<size_t> ix{size_t(it) / all, size_t(it) % all};
        ix.resize(size_t(depth), 0);
        for (;;) {
            bool both[2] = {false, false};
            for (auto i : ix) both[i / k] = true;
            if (both[0] && both[1]) {
                x.note("instances of " + P.w[size_t(wa)].name + " and " + P.w[size_t(wb)].name + " started");
                Machine m(P, x);
                if (!m.make(0, wa) || !m.make(1, wb)) return false;
                for (int i : {0, 1})
                    if (!m.alone(i, [&]() { return m.start(i); })) return false;
                for (auto op : ix) {
                    int i = int(op / k);
                    x.append("\ninstance " + std::to_string(i) + ": " + Checker::opText(ops[op % k]));
                    if (!m.alone(i, [&]() { return m.exec(i, ops[op % k]); })) return false;
                    x.sh->transitions++;
                }
                if (!m.observe(0) || !m.observe(1)) return false;
                x.sh->states++, x.sh->validated++;
            }
            size_t q = ix.size();
            while (q > 2 && ix[q - 1] + 1 == all) ix[--q] = 0;
            if (q == 2) return true;
            ix[q - 1]++;
        }
    }, 8);
}
// many instances, one after the other and at once; few descriptors left, so that any that one leaves behind are missed
void crowds(Checker &c, Pool &P)
{
    const int n = c.thorough ? 1000 : 200;
    c.bounds.push_back("crowds: for each two of 4 systems, each with and without a remote port: " + std::to_string(n) + " lives of the two in turn, started or only constructed, and " + std::to_string(n / 2) + " at once");
    struct Kind
    {
        int world;
        char chan;
        bool start;
    };
    vector<Kind> ks;
    for (int w = 0; w < int(P.w.size()); w++)
        for (char ch : {'C', 'N'})
            for (bool st : {true, false})
                if (st || w == 0) ks.push_back({w, ch, st});
    c.items_("crowds", long(ks.size() * ks.size()) * 2, [&P, ks, n](Ctx &x, long it) {
        bool atOnce = it % 2;
        const Kind k[2] = {ks[size_t(it / 2) / ks.size()], ks[size_t(it / 2) % ks.size()]};
        rlimit was;
        getrlimit(RLIMIT_NOFILE, &was);
        rlim_t top = 0;
        for (rlim_t d = 0; d < 4096; d++)
            if (fcntl(int(d), F_GETFD) >= 0) top = d;
        rlimit lim = was;
        lim.rlim_cur = top + (atOnce ? 4 * rlim_t(n) : 24);
        setrlimit(RLIMIT_NOFILE, &lim);
        struct Back
        {
            rlimit &l;
            ~Back() { setrlimit(RLIMIT_NOFILE, &l); }
        } back{was};
        World v[2] = {P.w[size_t(k[0].world)], P.w[size_t(k[1].world)]};
        vector<std::unique_ptr<World>> ws;
        vector<std::unique_ptr<Real>> rs;
        for (int i = 0; i < (atOnce ? n / 2 : n); i++) {
            const Kind &q = k[i % 2];
            x.note(string(atOnce ? "at once" : "one after the other") + ", instance " + std::to_string(i) + ": " + v[i % 2].name + (q.chan == 'N' ? " with a remote port" : "") + (q.start ? ", started" : ", not started"));
            ws.emplace_back(new World(v[i % 2]));
            ws.back()->chan = q.chan;
            rs.emplace_back(new Real(*ws.back(), Real::Later()));
            x.sh->transitions++;
            if (q.start) {
                rs.back()->startNow();
                if (rs.back()->started == bool(P.bad[size_t(q.world)])) return x.violate(rs.back()->started ? "started" : "does not start: " + rs.back()->error);
            }
            if (!atOnce) rs.clear(), ws.clear();
        }
        rs.clear();
        x.note("an instance after the others");
        Machine m(P, x);
        if (!m.make(0, 0) || !m.alone(0, [&]() { return m.start(0); }) || !m.observe(0)) return false;
        x.sh->states++, x.sh->validated++;
        return true;
    }, 1);
}
// the start policies of an instance are its own
void policies(Checker &c, Pool &P)
{
    typedef CParameterMgrFullConnector F;
    struct Pol
    {
        const char *n;
        std::function<void(F &, bool)> set;
        std::function<bool(F &)> get;
    };
    vector<Pol> ps{{"fail on missing subsystem", [](F &f, bool v) { string e; f.setFailureOnMissingSubsystem(v, e); }, [](F &f) { return f.getFailureOnMissingSubsystem(); }},
                   {"fail on settings", [](F &f, bool v) { string e; f.setFailureOnFailedSettingsLoad(v, e); }, [](F &f) { return f.getFailureOnFailedSettingsLoad(); }},
                   {"validate schemas", [](F &f, bool v) { string e; f.setValidateSchemasOnStart(v, e); }, [](F &f) { return f.getValidateSchemasOnStart(); }},
                   {"no remote interface", [](F &f, bool v) { f.setForceNoRemoteInterface(v); }, [](F &f) { return f.getForceNoRemoteInterface(); }}};
    c.bounds.push_back("policies: all histories of 4 (thorough: 5) policy changes on two instances, constructed before or in between");
    c.items_("policies", 17 * 17, [&](Ctx &x, long it) {
        vector<int> ix{int(it / 17), int(it % 17), 0, 0};
        if (c.thorough) ix.push_back(0);
        for (;;) {
            x.note("two instances");
            Env env;
            g_env = &env;
            std::unique_ptr<F> f[2] = {std::make_unique<F>(P.w[0].dir + "/config.xml"), std::make_unique<F>(P.w[0].dir + "/config.xml")};
            F ref(P.w[0].dir + "/config.xml");
            bool v[2][4];
            for (int i = 0; i < 2; i++)
                for (int k = 0; k < 4; k++) v[i][k] = ps[size_t(k)].get(ref);
            bool fresh[4];
            for (int k = 0; k < 4; k++) fresh[k] = v[0][k];
            for (int op : ix) {
                if (op == 16) {
                    x.append("\nreplace instance 1");
                    f[1].reset(new F(P.w[0].dir + "/config.xml"));
                    for (int k = 0; k < 4; k++) v[1][k] = fresh[k];
                } else {
                    int i = op / 8, k = op / 2 % 4;
                    bool b = op % 2;
                    x.append("\ninstance " + std::to_string(i) + ": " + ps[size_t(k)].n + (b ? " on" : " off"));
                    ps[size_t(k)].set(*f[i], b);
                    v[i][k] = b;
                }
                for (int i = 0; i < 2; i++)
                    for (int k = 0; k < 4; k++)
                        if (ps[size_t(k)].get(*f[i]) != v[i][k]) return x.violate(string(ps[size_t(k)].n) + " of instance " + std::to_string(i) + " changed");
                x.sh->transitions++;
            }
            x.sh->states++, x.sh->validated++;
            size_t q = ix.size();
            while (q > 2 && ix[q - 1] + 1 == 17) ix[--q] = 0;
            if (q == 2) return true;
            ix[q - 1]++;
        }
    });
}
// structures: the same names and paths described in different ways, in one process one after the other and at once
struct Described
{
    string dir, why;
    XNode doc;
    SVerdict want = S_A;
};
vector<Described> descriptions()
{
    vector<std::pair<string, SVerdict>> t;
    // 1 subsystem, 2 block, 3 component, 4 type, 5 leaf mappings; 6 leaf
    auto d = [&](string sub, string blk, string cmp, string typ, string leaf, string before = "", string after = "", string lib = "", string type = "MC") {
        auto m = [](const string &s) { return s.empty() ? string() : " Mapping=\"" + s + "\""; };
        size_t p = leaf.find('@');
        if (p != string::npos) leaf.replace(p, 1, " Name=\"x\"");
        return "<SystemClass Name=\"Sys\"><Subsystem Name=\"S\" Type=\"" + type + "\"" + m(sub) + "><ComponentLibrary>" + lib + "<ComponentType Name=\"T\"" + m(typ) + ">" + before + leaf + after +
               "</ComponentType></ComponentLibrary><InstanceDefinition><ParameterBlock Name=\"p\"" + m(blk) + "><Component Name=\"c\" Type=\"T\"" + m(cmp) +
               "/><Component Name=\"d\" Type=\"T\"" + m(cmp) + "/></ParameterBlock></InstanceDefinition></Subsystem></SystemClass>";
    };
    auto ok = [&](const string &x) { t.push_back({x, S_A}); };
    const string i8 = "<IntegerParameter Size=\"8\" Mapping=\"Obj:o_%1_%2_%3\"@/>", y = "<BooleanParameter Name=\"y\" Mapping=\"Obj:y%1\"/>";
    ok(d("Amend1:one", "Amend2:b", "Amend3:c", "", i8, "", y));
    ok(d("Amend1:two", "Amend2:b", "Amend3:c", "", i8, "", y));
    ok(d("Amend1:one", "Amend2:e", "Amend3:c", "", i8, "", y));
    ok(d("Amend1:one", "Amend2:b", "Amend3:d", "", i8, "", y));
    ok(d("", "Amend1:two", "Amend2:b", "Amend3:c", i8, "", y));
    ok(d("", "", "", "", "<IntegerParameter Size=\"8\" Mapping=\"Obj:o\"@/>", "", "<BooleanParameter Name=\"y\" Mapping=\"Obj:y\"/>"));
    ok(d("Ctx:one", "", "Amend1:c", "", "<IntegerParameter Size=\"8\" Mapping=\"CtxObj:o%1\"@/>", "", y));
    ok(d("", "Ctx:two,Amend1:q", "", "", "<IntegerParameter Size=\"8\" Mapping=\"CtxObj:o%1\"@/>", "", y));
    ok(d("Amend1:one", "", "", "Obj:type%1", "<IntegerParameter Size=\"8\"@/>", "", "<BooleanParameter Name=\"y\"/>"));
    ok(d("Amend1:one", "Obj:block%1", "Obj:comp%1", "", "<IntegerParameter Size=\"8\"@/>", "", "<BooleanParameter Name=\"y\"/>"));
    const string o = " Mapping=\"Obj:o_%1\"";
    ok(d("Amend1:one", "", "", "", "<IntegerParameter Size=\"16\" Signed=\"true\" Min=\"-9\" Max=\"300\" Unit=\"dB\"" + o + "@/>", y));
    ok(d("Amend1:one", "", "", "", "<IntegerParameter Size=\"16\" Max=\"70\" Description=\"told\" ArrayLength=\"3\"" + o + "@/>", y));
    ok(d("Amend1:one", "", "", "", "<EnumParameter Size=\"8\"" + o + "@><ValuePair Literal=\"a\" Numerical=\"3\"/><ValuePair Literal=\"b\" Numerical=\"5\"/></EnumParameter>", y));
    ok(d("Amend1:one", "", "", "", "<EnumParameter Size=\"8\"" + o + "@><ValuePair Literal=\"b\" Numerical=\"3\"/><ValuePair Literal=\"c\" Numerical=\"5\"/></EnumParameter>", y));
    ok(d("Amend1:one", "", "", "", "<FixedPointParameter Size=\"16\" Integral=\"3\" Fractional=\"2\"" + o + "@/>", y));
    ok(d("Amend1:one", "", "", "", "<FixedPointParameter Size=\"32\" Integral=\"9\" Fractional=\"20\"" + o + "@/>", y));
    ok(d("Amend1:one", "", "", "", "<IntegerParameter Size=\"8\"" + o + "@><LinearAdaptation SlopeNumerator=\"2\" SlopeDenominator=\"4\" Offset=\"3\"/></IntegerParameter>", y));
    ok(d("Amend1:one", "", "", "", "<BitParameterBlock Size=\"8\"" + o + "@><BitParameter Name=\"lo\" Pos=\"0\" Size=\"3\"/><BitParameter Name=\"hi\" Pos=\"5\" Size=\"2\"/></BitParameterBlock>", y));
    ok(d("Amend1:one", "", "", "", "<BitParameterBlock Size=\"16\"" + o + "@><BitParameter Name=\"hi\" Pos=\"0\" Size=\"9\"/><BitParameter Name=\"lo\" Pos=\"10\" Size=\"2\"/></BitParameterBlock>", y));
    ok(d("Amend1:one", "", "", "", "<ParameterBlock ArrayLength=\"2\"" + o + "@><IntegerParameter Name=\"z\" Size=\"8\"/></ParameterBlock>", y));
    ok(d("Amend1:one", "", "", "", "<StringParameter MaxLength=\"9\"" + o + "@/>", y));
    ok(d("", "", "", "", "<IntegerParameter Size=\"8\" Min=\"4\"@/>", "", "<BooleanParameter Name=\"y\"/>", "", "Virtual"));
    ok(d("", "", "", "", "<IntegerParameter Size=\"8\" Min=\"1\"@/>", "", "<BooleanParameter Name=\"y\"/>", "", "Virtual"));
    for (string e : {"V", "W"})
        ok("<SystemClass Name=\"Sys\"><Subsystem Name=\"S\" Type=\"MC\" Mapping=\"Amend1:one\"><ComponentLibrary><ComponentType Name=\"V\"><IntegerParameter Size=\"8\" Name=\"x\" "
           "Mapping=\"Obj:x_%1\"/></ComponentType><ComponentType Name=\"W\"><BooleanParameter Name=\"x\" Mapping=\"Obj:w_%1\"/></ComponentType><ComponentType Name=\"T\" Extends=\"" +
           e + "\"/></ComponentLibrary><InstanceDefinition><ParameterBlock Name=\"p\"><Component Name=\"c\" Type=\"T\"/></ParameterBlock><Component Name=\"d\" Type=\"T\" "
               "ArrayLength=\"2\"/></InstanceDefinition></Subsystem></SystemClass>");
    t.push_back({d("Amend1:one", "", "", "", "<IntegerParameter Size=\"8\" Mapping=\"CtxObj:o%1\"@/>", "", y), S_R}); // no context
    t.push_back({d("Amend1:one", "", "", "", i8, "", y + y), S_R});                                                       // a name twice
    vector<Described> r;
    bool broken = false;
    for (size_t i = 0; i < t.size(); i++) {
        Described x;
        x.dir = g_scratch + "/desc" + std::to_string(i);
        x.doc = mk(t[i].first), x.want = t[i].second;
        StructDoc sd(x.doc, "Sys");
        if (sd.v != x.want) {
            fprintf(stderr, "description %zu reads %c: %s\n", i, "AEXR"[sd.v], sd.why.c_str());
            broken = true;
        }
        mkdir(x.dir.c_str(), 0755);
        writeFile(x.dir + "/structure.xml", xmlHead + t[i].first);
        writeFile(x.dir + "/config.xml", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<ParameterFrameworkConfiguration SystemClassName=\"Sys\" ServerPort=\"5000\" TuningAllowed=\"true\">"
                                         "<SubsystemPlugins><Location Folder=\"" + g_pluginDir + "\"><Plugin Name=\"libmcplugin.so\"/></Location></SubsystemPlugins>"
                                         "<StructureDescriptionFileLocation Path=\"structure.xml\"/></ParameterFrameworkConfiguration>\n");
        r.push_back(x);
    }
    if (broken) abort();
    return r;
}
struct Living
{
    Env env;
    std::unique_ptr<CParameterMgrFullConnector> pf;
    const Described *d;
    bool up = false;
    string begin(const Described &x)
    {
        d = &x;
        g_env = &env;
        pf.reset(new CParameterMgrFullConnector(d->dir + "/config.xml"));
        pf->setForceNoRemoteInterface(true);
        return "";
    }
    string start()
    {
        g_env = &env;
        string err;
        up = pf->start(err);
        if (up && d->want == S_R) return "accepted although to be refused";
        if (!up && d->want == S_A) return "refused: " + err;
        return "";
    }
    string judged(Ctx &x)
    {
        if (!up) return "";
        x.sh->transitions++;
        StructDoc sd(d->doc, "Sys");
        string r = judge(*pf, env, sd, d->want, &x, false), out;
        if (r.empty() && !pf->createCommandHandler()->process("setTuningMode", {"off"}, out)) r = "tuning mode stays on: " + out;
        return r;
    }
};
void structures(Checker &c)
{
    auto D = std::make_shared<vector<Described>>(descriptions());
    long n = long(D->size());
    g_tell = true;
    c.bounds.push_back("structures: every ordered pair" + string(c.thorough ? " and triple" : "") + " of " + std::to_string(n) +
                       " descriptions of the same system (types, sizes, ranges, mappings and amendments on each level), constructed, started, examined and destroyed in 4 orders");
    // i: instance; c construct, s start, j examine, d destroy. 0 and 1 of one description each, 2 a third, 3 the first again
    const vector<string> orders{"c0s0c1s1j1j0d0j1c3s3j3j1", "c0c1s1s0j0j1d1j0c3s3j0j3", "c0s0j0d0c1s1j1d1c3s3j3", "c0c3c1s0s1s3j3j1j0d0d1j3"};
    const vector<string> three{"c0s0c1s1c2s2j0j1j2d1j2j0", "c2c1c0s0d0s1d1s2j2"};
    c.items_("structures", n * n, [D, n, orders, three, &c](Ctx &x, long it) {
        auto go = [&](const string &o, size_t a, size_t b, size_t e) {
            Living l[4];
            size_t which[4] = {a, b, e, a};
            x.note("descriptions " + std::to_string(a) + " (instances 0 and 3), " + std::to_string(b) + " (1), " + std::to_string(e) + " (2)\n0: " + writeNode((*D)[a].doc) + "\n1: " +
                   writeNode((*D)[b].doc) + "\nc construct, s start, j examine, d destroy: " + o);
            for (size_t i = 0; i + 1 < o.size(); i += 2) {
                int k = o[i + 1] - '0';
                Living &v = l[k];
                string w = o[i] == 'c' ? v.begin((*D)[which[k]]) : o[i] == 's' ? v.start() : o[i] == 'j' ? v.judged(x) : "";
                if (o[i] == 'd') v.pf.reset(), v.up = false;
                if (!w.empty()) return x.violate("step " + std::to_string(i / 2) + ", instance " + std::to_string(k) + ": " + w);
            }
            x.sh->states++;
            return true;
        };
        size_t a = size_t(it / n), b = size_t(it % n);
        for (auto &o : orders)
            if (!go(o, a, b, 0)) return false;
        if (c.thorough)
            for (size_t e = 0; e < size_t(n); e++)
                for (auto &o : three)
                    if (!go(o, a, b, e)) return false;
        return true;
    }, 8);
}
// schemas: instances that validate, or not, with schemas of different places
struct SchemaUse
{
    string text, dir, uri;
    bool validate, started;
};
void schemaUses(Checker &c)
{
    const char *repo = getenv("REPO");
    const string from = string(repo && *repo ? repo : "/repo") + "/schemas";
    vector<SchemaUse> u;
    auto copy = [&](const string &to) {
        mkdir(to.c_str(), 0755);
        for (string n : {"ComponentLibrary", "ComponentTypeSet", "ConfigurableDomain", "ConfigurableDomains", "FileIncluder", "Parameter", "ParameterFrameworkConfiguration",
                         "ParameterSettings", "Subsystem", "SystemClass", "W3cXmlAttributes"})
            writeFile(to + "/" + n + ".xsd", readFile(from + "/" + n + ".xsd"));
    };
    const string full = g_scratch + "/schfull", lax = g_scratch + "/schlax", strict = g_scratch + "/schstrict", none = g_scratch + "/schnone";
    copy(full), copy(lax), copy(strict);
    const string head = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\"><xs:element name=\"SystemClass\"><xs:complexType>";
    writeFile(lax + "/SystemClass.xsd", head + "<xs:sequence><xs:any minOccurs=\"0\" maxOccurs=\"unbounded\" processContents=\"skip\"/></xs:sequence>"
                                               "<xs:anyAttribute processContents=\"skip\"/></xs:complexType></xs:element></xs:schema>\n");
    writeFile(strict + "/SystemClass.xsd", head + "<xs:sequence/></xs:complexType></xs:element></xs:schema>\n");
    // plain: as the schemas have it; odd: a name that the schemas refuse and the structure rules allow
    vector<string> docs;
    for (string doc : {"plain", "odd"}) {
        string d = g_scratch + "/sch" + doc;
        mkdir(d.c_str(), 0755);
        writeFile(d + "/structure.xml",
                  string(xmlHead) + "<SystemClass Name=\"Sys\"><Subsystem Name=\"S\" Type=\"MC\"><ComponentLibrary/><InstanceDefinition><IntegerParameter Name=\"" +
                      (doc == "odd" ? string("9 x") : string("x")) + "\" Size=\"8\" Mapping=\"Obj:o\"/></InstanceDefinition></Subsystem></SystemClass>\n");
        writeFile(d + "/config.xml", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<ParameterFrameworkConfiguration SystemClassName=\"Sys\" ServerPort=\"5000\" TuningAllowed=\"true\">"
                                     "<SubsystemPlugins><Location Folder=\"" + g_pluginDir + "\"><Plugin Name=\"libmcplugin.so\"/></Location></SubsystemPlugins>"
                                     "<StructureDescriptionFileLocation Path=\"structure.xml\"/></ParameterFrameworkConfiguration>\n");
        docs.push_back(d);
    }
    for (int doc = 0; doc < 2; doc++)
        for (auto &uri : {full, lax, strict, none})
            for (int v = 0; v < 2; v++) {
                bool good = !v || uri == lax || (uri == full && !doc);
                u.push_back({string(doc ? "odd" : "plain") + " structure, " + uri.substr(uri.rfind('/') + 4) + " schemas, " + (v ? "validated" : "not validated"), docs[size_t(doc)], uri, bool(v),
                             good});
            }
    auto U = std::make_shared<vector<SchemaUse>>(u);
    long n = long(u.size());
    c.bounds.push_back("schemas: every ordered triple of " + std::to_string(n) + " instances (structure valid or not, schemas full, laxer, stricter or missing, validation on or off), in 4 orders");
    c.items_("schemas", n * n, [U, n](Ctx &x, long it) {
        for (long k = 0; k < n; k++)
            for (string o : {"c0s0c1s1c2s2", "c0c1c2s0s1s2", "c0s0d0c1s1d1c2s2", "c2c1c0s2s0s1"}) {
                const SchemaUse *w[3] = {&(*U)[size_t(it / n)], &(*U)[size_t(it % n)], &(*U)[size_t(k)]};
                x.note("0: " + w[0]->text + "\n1: " + w[1]->text + "\n2: " + w[2]->text + "\nc construct, s start, d destroy: " + o);
                Env env[3];
                std::unique_ptr<CParameterMgrFullConnector> f[3];
                for (size_t i = 0; i + 1 < o.size(); i += 2) {
                    int q = o[i + 1] - '0';
                    g_env = &env[q];
                    string err;
                    if (o[i] == 'c') {
                        f[q].reset(new CParameterMgrFullConnector(w[q]->dir + "/config.xml"));
                        f[q]->setForceNoRemoteInterface(true);
                        f[q]->setSchemaUri(w[q]->uri);
                        f[q]->setValidateSchemasOnStart(w[q]->validate, err);
                    } else if (o[i] == 'd')
                        f[q].reset();
                    else {
                        x.sh->transitions++;
                        bool up = f[q]->start(err);
                        if (up != w[q]->started) return x.violate("instance " + std::to_string(q) + (up ? " started although its structure is not valid" : " refused to start: " + err));
                    }
                }
                for (int q = 0; q < 3; q++)
                    if (f[q] && f[q]->getSchemaUri() != w[q]->uri) return x.violate("instance " + std::to_string(q) + " tells the schemas of another");
                x.sh->states++, x.sh->validated++;
            }
        return true;
    }, 4);
}
int p24(Checker &c)
{
    Pool P;
    P.w = {baseWorld("one"), otherWorld("two"), failWorld("illformed"), ruleWorld("badrule")};
    P.bad = {0, 0, 1, 1};
    for (auto &w : P.w) w.R.add(*w.S, rAll({}));
    for (auto &w : P.w) w.files();
    structures(c);
    schemaUses(c);
    lives(c, P);
    steps(c, P, "same", 0, 0, kOps, 3);
    steps(c, P, "different", 0, 1, kOps, 3);
    if (c.thorough) {
        Ops half;
        for (size_t i = 0; i < kOps.size(); i++)
            if (i % 3 != 2) half.push_back(kOps[i]);
        steps(c, P, "same4", 0, 0, half, 4);
        steps(c, P, "different4", 0, 1, half, 4);
    }
    Ops few{{"setTuningMode", "on"}, {"setParameter", "/Sys/A/x", "7"}, {"!crit", "C1", "1"}, {"!apply"}, {"setTuningMode", "off"}};
    steps(c, P, "deep", 0, 0, few, c.thorough ? 6 : 5);
    steps(c, P, "deepdifferent", 0, 1, few, c.thorough ? 5 : 4);
    policies(c, P);
    crowds(c, P);
    return c.finish("exhaustive within bounds", "two real instances run every interleaved history; each is compared, results, hardware and all observables, "
                                                "with the reference model running its own part alone");
}
Reg r24("P24", p24);
} // namespace
