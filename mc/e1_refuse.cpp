// P07: refused commands leave no trace.
#include "drivers.h"
#include <csignal>
#include <sys/resource.h>
#include "worldset.h"

static Ops hostile(bool wide)
{
    Ops r;
    vector<string> D{"D1", "D3", "nope", ""}, K{"c1", "g1", "nope", ""}, N{"new", "D2", "c2", ""};
    vector<string> E{"/Sys/A/x", "/Sys/A/c/n", "/Sys/A/c/q", "/Sys/nope", "Sys/A/x", "/Other/A/x",
                     "", "/Sys/A/x/deep", "/Sys/A/c/q/2", "/"};
    vector<string> V{"5", "256", "-1", "abc", "", "0x1FF", "99999999999999999999"};
    vector<string> B{"1", "256", "x", "-1"};
    vector<string> W{"true", "false", "yes", ""}, O{"on", "off", "ON", ""};
    if (!wide) {
        E.resize(9);
        V.resize(6);
    }
    for (auto c : {"createDomain", "deleteDomain", "getSequenceAwareness", "listDomainElements",
                   "listConfigurations"})
        product(r, c, {D});
    product(r, "renameDomain", {D, N});
    product(r, "setSequenceAwareness", {D, W});
    for (auto c : {"addElement", "removeElement", "splitDomain"}) product(r, c, {D, E});
    for (auto c : {"createConfiguration", "deleteConfiguration", "saveConfiguration",
                   "restoreConfiguration", "getElementSequence", "clearRule", "getRule"})
        product(r, c, {D, K});
    product(r, "renameConfiguration", {D, K, N});
    product(r, "setElementSequence", {D, K, E, {"/Sys/A/c/p", "/Sys/B/z", "/Sys/A/x", ""}});
    product(r, "setRule",
            {D, K, {"All{}", "", "Any{C1 Is z}", "All{C9 Is a}", "All{C1 Includes a}", "All{",
                    "All{C2 Is f1", "Foo{}", "C1 Is a", "All{C1 Are a}", "}", "{}"}});
    product(r, "setParameter", {E, V});
    product(r, "getParameter", {E});
    product(r, "setParameter", {{"/Sys/A/c/q", "/Sys/A/c/q/1", "/Sys/B/y", "/Sys/A/c/n/b/lo", "/Sys/A/c/p"}, V, {"3", "300", "zz"}});
    product(r, "setConfigurationParameter", {D, K, E, V});
    product(r, "setConfigurationParameter", {{"D1", "D2", "D3"}, {"c1", "e1", "g1", "g2"}, {"/Sys/A/c/q", "/Sys/A/c/p", "/Sys/A/c/n/b/hi"}, {"7", "16", "101", "q"}, {"3", "300"}});
    product(r, "getConfigurationParameter", {D, K, E});
    product(r, "setElementBytes", {E, B, B});
    product(r, "setElementBytes", {{"/Sys/A/c/n/b", "/Sys/B/z"}, B, {"1"}, {"2"}});
    product(r, "getElementBytes", {E});
    for (auto c : {"setTuningMode", "setAutoSync"}) product(r, c, {O});
    product(r, "setValueSpace", {{"raw", "real", "", "RAW"}});
    product(r, "setOutputRawFormat", {{"hex", "dec", "", "oct"}});
    product(r, "!hset", {{"/Sys/A/x", "/Sys/B/z", "/Sys/B/y", "/Sys/A/c/q", "/Sys/A/c"}, V});
    product(r, "!hbytes", {{"/Sys/B/z", "/Sys/A/x", "/Sys/B", "/Sys/A/c/n"}, {"1"}, {"2"}, {"3"}});
    r.push_back({"sync"});
    r.push_back({"noSuchCommand"});
    r.push_back({"noSuchCommand", "a", "b"});
    r.push_back({""});
    r.push_back({"!xdup", "D1"});
    r.push_back({"!xdup", "nope"});
    r.push_back({"!xd", "nope"});
    r.push_back({"!setxml", "/Sys/A/c/n", "1", "16", "3"});
    r.push_back({"!setxml", "/Sys/A/c", "101", "1", "2", "3", "4", "5"});
    r.push_back({"!setxml", "/Sys/A/c", "10", "1", "256", "3", "4", "5"});
    r.push_back({"!badone", "<not xml"});
    r.push_back({"!badone", ""});
    r.push_back({"!badone", "<ConfigurableDomains/>", "maybe"});
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    // !h* operations need their arguments
    r.erase(std::remove_if(r.begin(), r.end(),
                           [](const Op &o) {
                               return (o[0] == "!hset" && o.size() < 3) ||
                                      (o[0] == "!hbytes" && o.size() < 3);
                           }),
            r.end());
    return r;
}
// exports to a file that takes only the first bytes, for each number of them
static void fullDisk(Checker &c)
{
    const vector<Op> kinds{{"exportDomainsXML"}, {"exportDomainsWithSettingsXML"}, {"exportDomainWithSettingsXML", "D1"}};
    // how long the documents are does not matter: all the limits up to what the longest takes
    World w0 = baseWorld("P07disk");
    size_t most = 0;
    {
        Real r(w0);
        most = r.cmdv("getDomainsWithSettingsXML").size() + 8;
    }
    long n = long(most * kinds.size() * 2);
    c.bounds.push_back("P07disk: each export to a file, by command and by API, on a disk that takes the first k bytes, for all k up to " + std::to_string(most));
    c.states += uint64_t(n);
    c.items_("P07disk", n, [&](Ctx &x, long i) {
        static World w = baseWorld("P07disk");
        static Real r(w);
        static string before = r.observe();
        static std::map<string, size_t> sizes;
        if (!r.started) return x.violate("not started: " + r.error);
        size_t k = size_t(i) % most;
        const Op &o = kinds[size_t(i) / most % kinds.size()];
        bool api = size_t(i) / most / kinds.size();
        string f = w.dir + "/out.xml";
        auto go = [&](string path, string &why) {
            if (api) return o.size() > 1 ? r.pf->exportSingleDomainXml(path, o[1], true, true, why) : r.pf->exportDomainsXml(path, o[0] != "exportDomainsXML", true, why);
            vector<string> a(o.begin() + 1, o.end());
            a.push_back(path);
            return r.cmd(o[0], a, why);
        };
        string key = o[0] + (api ? " by API" : ""), why;
        if (!sizes.count(key)) {
            unlink(f.c_str());
            if (!go(f, why)) return x.violate(key + " fails: " + why);
            sizes[key] = readFile(f).size();
        }
        x.note(key + " to a disk taking " + std::to_string(k) + " of " + std::to_string(sizes[key]) + " bytes");
        unlink(f.c_str());
        signal(SIGXFSZ, SIG_IGN);
        rlimit old, lim;
        getrlimit(RLIMIT_FSIZE, &old);
        lim = old;
        lim.rlim_cur = k;
        setrlimit(RLIMIT_FSIZE, &lim);
        bool ok = go(f, why = "");
        setrlimit(RLIMIT_FSIZE, &old);
        x.sh->transitions++;
        if (ok != (k >= sizes[key])) return x.violate(ok ? "reported as done" : "fails: " + why);
        if (!ok && why.empty()) return x.violate("fails without a reason");
        if (ok && readFile(f).size() != sizes[key]) return x.violate("the file is not the whole document");
        string d = diffText(before, r.observe());
        if (!d.empty()) return x.violate("the export changed something\n" + d);
        x.sh->validated++;
        return true;
    }, 64);
}
static int p07(Checker &c)
{
    bool T = c.thorough;
    Ops ops = hostile(T);
    struct Seed
    {
        const char *n;
        Ops pre;
        bool allowed;
    };
    vector<Seed> seeds{
        {"off", {}, true},
        {"on", {{"setTuningMode", "on"}}, true},
        {"forbidden", {}, false},
        {"edited",
         {{"setTuningMode", "on"},
          {"setAutoSync", "off"},
          {"addElement", "D1", "/Sys/A/c/q"},
          {"createConfiguration", "D3", "c1"},
          {"setElementSequence", "D1", "c1", "/Sys/A/c/q", "/Sys/A/x"},
          {"setParameter", "/Sys/A/x", "9"},
          {"restoreConfiguration", "D1", "c2"}},
         true},
        {"empty", {{"setTuningMode", "on"}, {"deleteAllDomains"}, {"createDomain", "D1"}}, true}};
    for (auto &s : seeds) {
        World w = baseWorld(string("P07") + s.n);
        w.prefix = s.pre;
        w.tuningAllowed = s.allowed;
        w.R.add(*w.S, rAll({}));
        c.explore(w, allOps(ops), T ? 2 : 1, T ? 1000 : 4000);
    }
    // refused because of the hardware: the modes and structure stay as they were
    for (auto obj : {"A_x", "A_n", "B_z"}) {
        World w = baseWorld(string("P07fail-") + obj);
        w.prefix = {{"setTuningMode", "on"}};
        w.R.add(*w.S, rAll({}));
        Ops o{{"!fail", obj}, {"!heal", obj}, {"setAutoSync", "on"}, {"setAutoSync", "off"}, {"sync"}, {"setTuningMode", "off"}, {"setTuningMode", "on"},
              {"getAutoSync"}, {"setParameter", "/Sys/A/x", "9"}, {"setParameter", "/Sys/A/c/n/u", "9"}, {"restoreConfiguration", "D1", "c1"},
              {"restoreConfiguration", "D2", "e2"}, {"setConfigurationParameter", "D1", "c1", "/Sys/A/x", "12"}, {"setElementBytes", "/Sys/B", "1", "2", "3"},
              {"saveConfiguration", "D1", "c2"}, {"!hset", "/Sys/B/z", "21"}};
        c.explore(w, allOps(o), T ? 6 : 4, T ? 100000 : 6000);
    }
    // a smaller alphabet, deeper: refusals after every short history
    World w = sharedWorld("P07deep");
    w.R.add(*w.S, rAll({}));
    Ops o2;
    for (size_t i = 0; i < ops.size(); i += T ? 9 : 23) o2.push_back(ops[i]);
    o2 = o2 + critOps({0, 1}, {0, 1}) +
         Ops{{"!apply"}, {"setTuningMode", "on"}, {"setTuningMode", "off"}, {"setElementSequence", "Q1", "s1", "/Sys/A/c/p", "/Sys/nope"}, {"setElementSequence", "Q1", "s1", "/Sys/A/c/p", "/Sys/A/c/p"}, {"restoreConfiguration", "Q1", "s9"}, {"setElementSequence", "Q1", "s1", "/Sys/A/c/p"}};
    c.explore(w, allOps(o2), T ? 4 : 3, T ? 20000 : 3000);
    fullDisk(c);
    big(c, "P07");
    lasting(c, "P07");
    return c.finish("model_checking",
                    "every command with every tuple of a pool of valid and faulty arguments, and every "
                    "missing-argument prefix, in every reachable state of the seeds; full state compared");
}
static Reg r07("P07", p07);
