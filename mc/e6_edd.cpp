// P25: domain descriptions (EDD). Families of descriptions are put through the real generator
// (domainGenerator.py and its connector) and the settings it prints compared with an independent
// reading of the description; rules are compared by their value in every criterion state.
#include "drivers.h"
#include "import.h"
#include "worldset.h"
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>

namespace
{
string repo()
{
    const char *r = getenv("REPO");
    return r ? r : "/repo";
}
// the generator, kept running: one per worker
struct Generator
{
    string dir;
    pid_t pid = -1;
    FILE *in = nullptr, *out = nullptr;
    explicit Generator(const string &d) : dir(d)
    {
        mkdir(dir.c_str(), 0755), mkdir((dir + "/bin").c_str(), 0755), mkdir((dir + "/tmp").c_str(), 0755);
        string w = dir + "/bin/domainGeneratorConnector";
        writeFile(w, "#!/bin/sh\nif [ -f " + dir + "/record ]; then cat > " + dir + "/in.txt; cp \"$1\" " + dir + "/top.xml; shift; for a; do echo \"$a\"; done > " + dir + "/args.txt; exit 0; fi\nexec " + g_pluginDir + "/pf/bin/domainGeneratorConnector \"$@\" > " + dir + "/out.xml 2> " + dir + "/connector.err\n");
        chmod(w.c_str(), 0755);
        int a[2], b[2];
        if (pipe(a) || pipe(b)) abort();
        pid = fork();
        if (pid == 0) {
            dup2(a[0], 0), dup2(b[1], 1);
            for (int f : {a[0], a[1], b[0], b[1]}) close(f);
            if (!freopen((dir + "/python.err").c_str(), "w", stderr)) {}
            setenv("PATH", (dir + "/bin:" + getenv("PATH")).c_str(), 1);
            setenv("TMPDIR", (dir + "/tmp").c_str(), 1);
            setenv("JAVA_TOOL_OPTIONS", "-XX:TieredStopAtLevel=1 -Xmx300m -XX:+UseSerialGC", 1);
            execlp("jython", "jython", (g_pluginDir + "/../mc/eddserver.py").c_str(), (repo() + "/tools/xmlGenerator").c_str(), (char *)nullptr);
            _exit(127);
        }
        close(a[0]), close(b[1]);
        in = fdopen(a[1], "w"), out = fdopen(b[0], "r");
    }
    ~Generator()
    {
        fclose(in), fclose(out);
        if (pid > 0) kill(pid, SIGKILL), waitpid(pid, nullptr, 0);
    }
    string run(const vector<string> &args)
    {
        unlink((dir + "/out.xml").c_str());
        fprintf(in, "%s\n", join(args, "\x01").c_str());
        fflush(in);
        char buf[4096];
        while (fgets(buf, sizeof buf, out)) {
            string l = buf;
            if (l.compare(0, 7, "ANSWER ") == 0) return l.substr(7, l.find('\n') - 7);
        }
        return "gone";
    }
};

enum EV { E_OK, E_SYNTAX, E_ERROR, E_ANY };
// OK: exit code 0 and exactly the settings read; SYNTAX: refused, nothing generated;
// ERROR: an exit code other than 0; ANY: not settled by the documentation
struct EN
{
    char kind = 0; // G domain group, D domain, T configuration type, S configuration group, C configuration,
                   // P component, O operator, R rule, V value
    string a, b, c;
    bool aware = false;
    vector<EN> kids;
};
struct Edd
{
    const Model &m;
    EV v = E_OK;
    string why;
    explicit Edd(const Model &mm) : m(mm) {}
    void worse(EV w, const string &y)
    {
        if (v == E_ANY) return;
        // an early end hides what follows, so the first problem stays
        if (w == E_ANY || v == E_OK || (v == E_ERROR && w == E_SYNTAX)) v = w, why = y;
    }
    static bool word(const string &s, const char *more = "")
    {
        if (s.empty()) return false;
        for (char c : s)
            if (!isalnum((unsigned char)c) && c != '_' && !strchr(more, c)) return false;
        return true;
    }
    static string strip(const string &s)
    {
        size_t a = s.find_first_not_of(" \t\r");
        return a == string::npos ? "" : s.substr(a, s.find_last_not_of(" \t\r") - a + 1);
    }
    bool line(const string &l, EN &n)
    {
        static const std::pair<const char *, char> tags[] = {{"domainGroup", 'G'}, {"domain", 'D'}, {"confType", 'T'}, {"confGroup", 'S'}, {"conf", 'C'}, {"component", 'P'}};
        for (auto &t : tags) {
            string h = string(t.first) + ":";
            if (l.compare(0, h.size(), h) != 0) continue;
            n.kind = t.second;
            n.a = strip(l.substr(h.size()));
            if (n.kind == 'G' || n.kind == 'D') {
                size_t s = n.a.find(' ');
                if (s != string::npos) {
                    n.aware = strip(n.a.substr(s)) == "sequenceAware";
                    if (!n.aware) worse(E_ANY, "options of " + l);
                    n.a = n.a.substr(0, s);
                }
            }
            if (n.kind == 'P' ? n.a.empty() || n.a.find('=') != string::npos : !word(n.a)) worse(E_ANY, "name in " + l);
            return true;
        }
        size_t q = l.find('=');
        if (q != string::npos) {
            n.kind = 'V', n.a = strip(l.substr(0, q)), n.b = strip(l.substr(q + 1));
            if (n.a.empty() || !word(n.a, "/")) worse(E_ANY, "path in " + l);
            return true;
        }
        if (l == "ANY" || l == "ALL") {
            n.kind = 'O', n.a = l;
            return true;
        }
        auto w = splitWs(l, " \t");
        if (w.size() < 3 || !word(w[0]) || (w[1] != "Is" && w[1] != "IsNot" && w[1] != "Includes" && w[1] != "Excludes")) {
            if (l.find(':') != string::npos)
                worse(E_ANY, "tag in " + l);
            else
                worse(E_SYNTAX, "line " + l);
            return false;
        }
        n.kind = 'R', n.a = w[0], n.b = w[1], n.c = w[2];
        if (w.size() > 3) worse(E_ERROR, "rule " + l);
        if (!word(n.c)) worse(E_ANY, "criterion value in " + l);
        return true;
    }
    static bool allowed(char up, char k)
    {
        switch (up) {
        case 0: return k == 'G' || k == 'D';
        case 'G': return strchr("GDTRO", k);
        case 'D': return strchr("CSTRO", k);
        case 'S': return strchr("CSTRO", k);
        case 'T': return strchr("RO", k);
        case 'C': return strchr("ROVP", k);
        case 'P': return strchr("VP", k);
        case 'O': return strchr("RO", k);
        default: return false;
        }
    }
    bool parse(const string &text, EN &root)
    {
        vector<EN *> up{&root};
        std::istringstream is(text);
        string l;
        size_t last = 0;
        vector<vector<size_t>> where{{}};
        while (std::getline(is, l)) {
            size_t i = l.find_first_not_of("\t ");
            if (i == string::npos) continue;
            string rest = l.substr(i), lead = l.substr(0, i);
            if (lead.find(' ') != string::npos) {
                worse(rest[0] == '#' ? E_ANY : E_SYNTAX, "blank in the indentation");
                return false;
            }
            if (rest[0] == '#') continue;
            EN n;
            if (!line(strip(rest), n)) return false;
            if (i > last) {
                worse(E_SYNTAX, "indentation");
                return false;
            }
            EN *p = &root;
            for (size_t k = 0; k < i; k++) p = &p->kids.back();
            if (!allowed(p->kind, n.kind)) {
                bool unsettled = (p->kind == 'T' && strchr("CSTP", n.kind)) || (p->kind == 'G' && n.kind == 'S') || (p->kind == 'S' && n.kind == 'P');
                worse(unsettled ? E_ANY : E_SYNTAX, string("misplaced ") + n.kind + " in " + (p->kind ? p->kind : '-'));
                return false;
            }
            p->kids.push_back(n);
            last = i + 1;
        }
        return true;
    }
    // ---- meaning
    struct Scope
    {
        vector<string> dom, conf;
        bool aware = false;
        vector<Rule> rules;
        vector<std::pair<string, vector<Rule>>> types;
    };
    struct RConf
    {
        string name;
        Rule rule;
        vector<std::pair<string, string>> vals;
    };
    struct RDom
    {
        string name;
        bool aware;
        vector<RConf> confs;
    };
    vector<RDom> doms;
    Rule rule(const EN &n)
    {
        const Structure &S = m.S;
        if (n.kind == 'O') {
            Rule r = n.a == "ANY" ? rAny({}) : rAll({});
            for (auto &k : n.kids) r.kids.push_back(rule(k));
            if (r.kids.empty()) worse(E_ANY, "empty operator");
            return r;
        }
        for (auto &c : S.crits)
            if (c.name == n.a)
                for (auto &v : c.vals)
                    if (v.first == n.c && (c.incl || n.b[0] == 'I') && (c.incl || n.b != "Includes"))
                        return rCrit(S, n.a, n.b == "Is" ? M_IS : n.b == "IsNot" ? M_ISNOT : n.b == "Includes" ? M_INC : M_EXC, n.c);
        worse(E_ERROR, "rule on " + n.a + " " + n.b + " " + n.c);
        return rAll({});
    }
    vector<Rule> rules(const EN &n)
    {
        vector<Rule> r;
        for (auto &k : n.kids)
            if (k.kind == 'R' || k.kind == 'O') r.push_back(rule(k));
        return r;
    }
    void values(const EN &n, const string &base, vector<std::pair<string, string>> &out)
    {
        for (auto &k : n.kids) {
            string p = base.empty() ? k.a : base + "/" + k.a;
            if (k.kind == 'V') out.push_back({p, k.b});
            if (k.kind == 'P') values(k, p, out);
        }
    }
    std::set<string> confsSeen; // names a later type would come too late for
    void walk(const EN &n, Scope s, RDom *d)
    {
        switch (n.kind) {
        case 'G':
        case 'D':
            s.dom.push_back(n.a);
            s.aware = s.aware || n.aware;
            break;
        case 'S':
        case 'C': s.conf.push_back(n.a); break;
        }
        vector<Rule> own = rules(n);
        if (n.kind == 'C' || n.kind == 'S')
            for (auto &t : s.types)
                if (t.first == n.a) {
                    if (n.kind == 'S') worse(E_ANY, "a type and a group of the same name");
                    s.rules.insert(s.rules.end(), t.second.begin(), t.second.end());
                }
        s.rules.insert(s.rules.end(), own.begin(), own.end());
        if (n.kind == 'C') {
            RConf c;
            c.name = join(s.conf, ".");
            c.rule = rAll(s.rules);
            values(n, "", c.vals);
            d->confs.push_back(c);
            return;
        }
        RDom here;
        if (n.kind == 'D') {
            here.name = join(s.dom, "."), here.aware = s.aware;
            d = &here;
        }
        std::set<string> groups, confs;
        std::function<void(const EN &, std::set<string> &)> names = [&](const EN &x, std::set<string> &o) {
            for (auto &k : x.kids) {
                if (k.kind == 'C' || k.kind == 'S') o.insert(k.a);
                names(k, o);
            }
        };
        std::set<string> before;
        for (auto &k : n.kids) {
            if (k.kind == 'T') {
                if (before.count(k.a)) worse(E_ANY, "a type after a configuration of its name");
                s.types.push_back({k.a, rules(k)});
            } else if (k.kind == 'S' || k.kind == 'C' || k.kind == 'G' || k.kind == 'D') {
                // a group whose name is that of a configuration it contains or that follows it
                if (k.kind == 'S') {
                    std::set<string> in;
                    names(k, in);
                    if (in.count(k.a)) worse(E_ANY, "a group and a configuration of the same name");
                    groups.insert(k.a);
                }
                std::set<string> mine;
                if (k.kind == 'C' || k.kind == 'S') mine.insert(k.a);
                names(k, mine);
                for (auto &x : mine)
                    if (groups.count(x) && !(k.kind == 'S' && x == k.a)) worse(E_ANY, "a group and a configuration of the same name");
                before.insert(mine.begin(), mine.end());
                walk(k, s, d);
            }
        }
        if (n.kind == 'D') doms.push_back(here);
    }
    // the commands of the model that give the same settings
    vector<Op> ops(RuleTab &R)
    {
        vector<Op> o;
        for (auto &d : doms) {
            o.push_back({"createDomain", d.name});
            if (d.aware) o.push_back({"setSequenceAwareness", d.name, "true"});
            std::multiset<string> first;
            for (size_t i = 0; i < d.confs.size(); i++) {
                std::multiset<string> mine;
                for (auto &v : d.confs[i].vals) mine.insert(v.first);
                if (i == 0) {
                    first = mine;
                    for (auto &v : d.confs[0].vals) o.push_back({"addElement", d.name, v.first});
                }
                if (mine != first) worse(E_SYNTAX, "configurations of " + d.name + " with different elements");
            }
            for (auto &c : d.confs) {
                R.add(m.S, c.rule);
                o.push_back({"createConfiguration", d.name, c.name});
                o.push_back({"setRule", d.name, c.name, c.rule.text(m.S)});
                if (d.aware) {
                    Op q{"setElementSequence", d.name, c.name};
                    for (auto &v : c.vals) q.push_back(v.first);
                    if (c.vals.empty()) worse(E_ANY, "sequence of no element");
                    o.push_back(q);
                }
                for (auto &v : c.vals) o.push_back({"setConfigurationParameter", d.name, c.name, v.first, v.second});
            }
        }
        return o;
    }
};
string firstDiff(const Model &m, const State &want, const vector<Dom> &got, const vector<vector<int>> &crits)
{
    if (want.doms.size() != got.size()) return std::to_string(got.size()) + " domains instead of " + std::to_string(want.doms.size());
    auto pathsOf = [&](const vector<Area> &s) {
        string r;
        for (auto &a : s) r += " " + m.S.nodes[size_t(a.el)].path;
        return r;
    };
    for (size_t i = 0; i < got.size(); i++) {
        const Dom &w = want.doms[i], &g = got[i];
        if (w.name != g.name) return "domain " + g.name + " instead of " + w.name;
        if (w.aware != g.aware) return "domain " + w.name + (g.aware ? " is" : " is not") + " sequence aware";
        if (std::set<int>(w.els.begin(), w.els.end()) != std::set<int>(g.els.begin(), g.els.end()) || w.els.size() != g.els.size()) return "domain " + w.name + " has other elements";
        if (w.confs.size() != g.confs.size()) return "domain " + w.name + " has " + std::to_string(g.confs.size()) + " configurations instead of " + std::to_string(w.confs.size());
        for (auto &wc : w.confs) {
            auto it = std::find_if(g.confs.begin(), g.confs.end(), [&](const Conf &c) { return c.name == wc.name; });
            if (it == g.confs.end()) return "configuration " + wc.name + " of " + w.name + " is missing";
            const Conf &gc = *it;
            string at = "configuration " + wc.name + " of " + w.name;
            for (auto &cs : crits) {
                bool a = wc.rule >= 0 && m.R.r[size_t(wc.rule)].eval(cs), b = gc.rule >= 0 && m.R.r[size_t(gc.rule)].eval(cs);
                if (a != b)
                    return at + (b ? " applies" : " does not apply") + " in the state" + [&] { string r; for (size_t k = 0; k < cs.size(); k++) r += " " + m.S.crits[k].name + "=" + std::to_string(cs[k]); return r; }() +
                           ": its rule is " + (gc.rule < 0 ? "none" : m.R.norm[size_t(gc.rule)]) + " instead of " + (wc.rule < 0 ? "none" : m.R.norm[size_t(wc.rule)]);
            }
            if (w.aware && pathsOf(wc.seq) != pathsOf(gc.seq)) return at + ": sequence" + pathsOf(gc.seq) + " instead of" + pathsOf(wc.seq);
            for (auto &a : wc.seq)
                for (auto &b : gc.seq)
                    if (a.el == b.el && a.v != b.v) return at + ": value of " + m.S.nodes[size_t(a.el)].path;
        }
        // the order of the configurations decides which of two that apply is chosen
        for (size_t k = 0; k < w.confs.size(); k++)
            if (w.confs[k].name != g.confs[k].name) return "configurations of " + w.name + " in another order";
    }
    return "";
}

struct EddCase
{
    vector<string> edds;
    string initial;          // settings document
    vector<string> domains;  // single domain documents
    string criteria;         // instead of the usual ones
    bool validate = false, noSchemas = false;
    string config;    // instead of the usual one (%D is the folder)
    string structure; // where the structure is, in the folder
    string where;     // folder of the configuration, in the folder
    EV forced = E_OK; // verdict when the criteria are wrong
};
struct Fam
{
    string name;
    vector<EddCase> cases;
    void add(const string &t)
    {
        EddCase c;
        c.edds.push_back(t);
        cases.push_back(c);
    }
};
// neither the plugins nor the settings nor the tuning flag of it matter
const string usualConfig = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<ParameterFrameworkConfiguration SystemClassName=\"Sys\" ServerPort=\"5000\" TuningAllowed=\"false\"><SubsystemPlugins><Location Folder=\"/nowhere\"><Plugin Name=\"nope.so\"/></Location></SubsystemPlugins>"
                           "<StructureDescriptionFileLocation Path=\"structure.xml\"/><SettingsConfiguration><ConfigurableDomainsFileLocation Path=\"nope.xml\"/></SettingsConfiguration></ParameterFrameworkConfiguration>\n";
struct Lab
{
    std::shared_ptr<Structure> S;
    string crit;
    vector<vector<int>> states;
    Lab()
    {
        S = std::make_shared<Structure>(
            "Sys",
            vector<ND>{sub("A", {pb("c", {ranged(u8("p"), 3, 100), u8("q"), pb("n", {u8("u")})}), u8("x"), u8("arr", "", 2)}),
                       sub("B", {strParam("s", 20), enumeration("e", {{"one", 1}, {"two", 2}}), u16("y")})},
            vector<CritDef>{{"C1", false, {{"a", 0}, {"b", 1}, {"c", 2}}}, {"C2", true, {{"f1", 1}, {"f2", 2}}}, {"ALLY", false, {{"a", 0}, {"b", 1}}}, {"ANY_1", false, {{"a", 0}, {"b", 1}}}});
        crit = "ExclusiveCriterion C1 : a b c\nInclusiveCriterion C2 : f1 f2\nExclusiveCriterion ALLY : a b\nExclusiveCriterion ANY_1 : a b\n";
        for (int a = 0; a < 3; a++)
            for (int b = 0; b < 4; b++)
                for (int c = 0; c < 4; c++) states.push_back({a, b, c & 1, c >> 1});
    }
    // only what the generator sends to its connector
    bool record(Generator &g, const EddCase &k)
    {
        string note;
        return g.run(put(g, k, note)) == "0" && !readFile(g.dir + "/in.txt").empty();
    }
    vector<string> put(Generator &g, const EddCase &k, string &note)
    {
        string d = g.dir;
        string place = d + k.where;
        if (!k.where.empty()) mkdir(place.c_str(), 0755);
        if (!k.structure.empty()) mkdir((place + "/" + k.structure.substr(0, k.structure.find('/'))).c_str(), 0755);
        unlink((d + "/structure.xml").c_str());
        string cfg = k.config.empty() ? usualConfig : k.config;
        for (size_t q; (q = cfg.find("%D")) != string::npos;) cfg.replace(q, 2, place);
        writeFile(place + "/" + (k.structure.empty() ? "structure.xml" : k.structure), S->xml);
        writeFile(place + "/config.xml", cfg);
        writeFile(d + "/criteria.txt", k.criteria.empty() ? crit : k.criteria);
        vector<string> args{"--toplevel-config", place + "/config.xml", "--criteria", d + "/criteria.txt"};
        if (!k.noSchemas) args.insert(args.end(), {"--schemas-dir", repo() + "/schemas"});
        if (k.validate) args.push_back("--validate");
        note = "arguments: ";
        if (!k.initial.empty()) {
            writeFile(d + "/initial.xml", k.initial);
            args.insert(args.end(), {"--initial-settings", d + "/initial.xml"});
        }
        if (!k.domains.empty()) {
            args.push_back("--add-domains");
            for (size_t i = 0; i < k.domains.size(); i++) {
                args.push_back(d + "/domain" + std::to_string(i) + ".xml");
                writeFile(args.back(), k.domains[i]);
            }
        }
        if (!k.edds.empty()) {
            args.push_back("--add-edds");
            for (size_t i = 0; i < k.edds.size(); i++) {
                args.push_back(d + "/" + std::to_string(i) + ".pfw");
                writeFile(args.back(), k.edds[i]);
            }
        }
        note += join(args, " ");
        if (!k.config.empty()) note += "\nconfiguration: " + cfg;
        if (!k.criteria.empty()) note += "\ncriteria:\n" + k.criteria;
        if (!k.initial.empty()) note += "\ninitial settings: " + k.initial;
        for (auto &t : k.domains) note += "\ndomain: " + t;
        for (auto &t : k.edds) note += "\ndescription:\n" + t;
        return args;
    }
    bool judge(Ctx &x, Generator &g, const EddCase &k)
    {
        string d = g.dir, note;
        vector<string> args = put(g, k, note);
        // what it says
        RuleTab R;
        R.add(*S, rAll({}));
        Model m(*S, R);
        State s;
        s.main.assign(S->leaves.size(), 0);
        for (size_t l = 0; l < s.main.size(); l++) s.main[l] = S->leaves[l].t.k == T_STR ? strTab().get("") : S->leaves[l].t.mn > 0 ? S->leaves[l].t.mn : 0;
        s.crit.assign(S->crits.size(), 0);
        s.tuning = true;
        EV v = k.forced;
        string why = v == E_OK ? "" : "criteria";
        auto worse = [&](EV w, const string &y) {
            if (v != E_ANY && (w == E_ANY || v == E_OK || (v == E_ERROR && w == E_SYNTAX))) v = w, why = y;
        };
        if (!k.initial.empty()) {
            Reading r = readDoc(m, s, k.initial, false, true);
            if (r.v == V_REFUSE) worse(E_ERROR, r.why);
            else if (r.v != V_ACCEPT) worse(E_ANY, r.why);
            else s.doms = r.doms;
        }
        for (auto &t : k.domains) {
            Reading r = readDoc(m, s, t, true, true);
            if (r.v == V_REFUSE) worse(E_ERROR, r.why);
            else if (r.v != V_ACCEPT) worse(E_ANY, r.why);
            else if (m.dom(s, r.doms[0].name) >= 0) worse(E_ERROR, "domain repeated");
            else s.doms.push_back(r.doms[0]);
        }
        vector<Op> all;
        for (auto &t : k.edds) {
            Edd e(m);
            EN root;
            if (e.parse(t, root)) e.walk(root, {}, nullptr);
            auto o = e.ops(R);
            all.insert(all.end(), o.begin(), o.end());
            worse(e.v, e.why);
            if (e.v == E_SYNTAX) break;
        }
        long errors = 0;
        bool conflict = false, counted = v == E_OK;
        if (v == E_OK) {
            for (auto &o : all)
                if (!m.exec(s, o).ok) worse(E_ERROR, "command " + join(o, " ")), errors++;
            std::map<int, int> owners;
            for (auto &dm : s.doms)
                for (int e : dm.els)
                    if (owners[e]++) worse(E_ERROR, "element in two domains"), conflict = true;
            for (auto &a : owners)
                for (auto &b : owners)
                    if (a.first != b.first && S->isAncestorOrSelf(a.first, b.first)) worse(E_ANY, "an element and its parent");
        }
        x.note(note + "\nexpected: " + (v == E_OK ? "accepted" : v == E_ANY ? "either" : v == E_ERROR ? "errors reported" : "refused") + (why.empty() ? "" : " (" + why + ")"));
        x.sh->transitions++;
        string code = g.run(args);
        if (code == "gone") return x.violate("the generator is gone: " + readFile(d + "/python.err").substr(0, 600));
        if (v == E_ANY) return true;
        string tail = readFile(d + "/connector.err") + (code.compare(0, 6, "raised") == 0 ? readFile(d + "/python.err") : "");
        if (tail.size() > 1500) tail = tail.substr(tail.size() - 1500);
        if (v != E_OK) {
            if (code == "0" || code == "None") return x.violate("not reported: " + why);
            if (v == E_SYNTAX && access((d + "/out.xml").c_str(), F_OK) == 0 && !readFile(d + "/out.xml").empty()) return x.violate("settings generated from a refused description");
            if (v == E_ERROR && counted && code != std::to_string(std::min(255L, errors + (conflict ? 1 : 0)))) return x.violate("exit code " + code + " for " + std::to_string(errors + (conflict ? 1 : 0)) + " errors\n" + tail);
            x.sh->validated++;
            return true;
        }
        x.sh->distinct++;
        if (code != "0") return x.violate("exit code " + code + "\n" + tail);
        string out = readFile(d + "/out.xml");
        Reading r = readDoc(m, s, out, false, true);
        if (r.v != V_ACCEPT) return x.violate("the settings generated are not valid: " + r.why + "\n" + out);
        string df = firstDiff(m, s, r.doms, states);
        if (!df.empty()) return x.violate(df + "\ngenerated:\n" + out);
        x.sh->validated++;
        return true;
    }
};
string tabs(size_t n) { return string(n, '\t'); }
string block(size_t n, const string &text) // indented by n
{
    string r, l;
    std::istringstream is(text);
    while (std::getline(is, l)) r += tabs(n) + l + "\n";
    return r;
}
// ---- groups, inheritance of names, awareness and rules
Fam nesting(bool T)
{
    Fam f{"nesting", {}};
    const vector<string> rules{"C1 Is a", "C2 Includes f1", "C1 IsNot b\nC2 Excludes f2", "ANY\n\tC1 Is a\n\tC2 Includes f2", "ALL\n\tC1 IsNot a", "ANY\n\tC1 Is b\n\tALL\n\t\tC1 Is c\n\t\tC2 Includes f1"};
    const vector<string> few{"C1 IsNot a", "C2 Includes f1"};
    struct Deco
    {
        bool aware = false, after = false;
        string rule;
    };
    auto build = [&](int g, int h, const std::map<int, Deco> &deco) {
        // levels 0..g-1 groups, g the domain, then h configuration groups, then the configuration
        std::function<string(int)> lvl = [&](int i) -> string {
            size_t in = size_t(i);
            auto it = deco.find(i);
            Deco d = it == deco.end() ? Deco() : it->second;
            string aw = d.aware ? " sequenceAware" : "", head, body;
            string rule = d.rule.empty() ? "" : block(in + 1, d.rule);
            if (i == g + 1 + h) {
                head = tabs(in) + "conf: K\n";
                body = block(in + 1, "/Sys/A/c/q = 5\n/Sys/A/c/p = 7\n");
            } else {
                head = tabs(in) + (i < g ? "domainGroup: G" + std::to_string(i) + aw : i == g ? "domain: D" + aw : "confGroup: S" + std::to_string(i - g)) + "\n";
                body = lvl(i + 1);
                if (i < g) body += block(in + 1, "domain: E" + std::to_string(i) + "\n\tconf: K\n\t\t/Sys/B/y = 1\n");
                else body += block(in + 1, "conf: L" + std::to_string(i) + "\n\t/Sys/A/c/p = 9\n\t/Sys/A/c/q = 6\n");
            }
            return head + (d.after ? body + rule : rule + body);
        };
        string t = lvl(0);
        // an element is in one domain only
        int n = 0;
        for (size_t p; (p = t.find("/Sys/B/y = 1")) != string::npos; n++) t.replace(p, 12, n == 0 ? "/Sys/B/s = t" : n == 1 ? "/Sys/B/e = two" : "/Sys/A/x = 1");
        return t;
    };
    for (int g = 0; g <= 2; g++)
        for (int h = 0; h <= 2; h++) {
            int L = g + h + 2;
            f.add(build(g, h, {}));
            vector<vector<Deco>> one(static_cast<size_t>(L)), two(static_cast<size_t>(L));
            for (int i = 0; i < L; i++)
                for (bool aware : {false, true})
                    for (bool after : {false, true}) {
                        if (aware && i > g) continue;
                        for (auto &r : rules) one[size_t(i)].push_back({aware, after, r});
                        if (!after && aware) one[size_t(i)].push_back({aware, false, ""}), two[size_t(i)].push_back({aware, false, ""});
                        if (T || aware == after)
                            for (auto &r : few)
                                if (T || (r == few[0]) == (i % 2 == 0)) two[size_t(i)].push_back({aware, after, r});
                    }
            for (int i = 0; i < L; i++) {
                for (auto &d : one[size_t(i)]) f.add(build(g, h, {{i, d}}));
                for (int j = i + 1; j < L; j++)
                    for (auto &d : two[size_t(i)])
                        for (auto &e : two[size_t(j)]) {
                            if (!d.rule.empty() && d.rule == e.rule) continue;
                            f.add(build(g, h, {{i, d}, {j, e}}));
                        }
            }
        }
    return f;
}
// ---- rules of a configuration: all forests up to a size
Fam rules(bool T)
{
    Fam f{"rules", {}};
    const vector<string> leaf{"C1 Is a", "C2 Includes f2", "C1 IsNot c", "C2 Excludes f1", "ALLY Is b", "ANY_1 IsNot a"};
    // forests of n nodes as texts, the leaves numbered in order
    std::function<vector<string>(int, bool)> forest = [&](int n, bool) {
        vector<string> r;
        if (n == 0) return vector<string>{""};
        for (int first = 1; first <= n; first++) {
            vector<string> heads;
            if (first == 1) heads.push_back("@\n");
            else
                for (auto &in : forest(first - 1, true))
                    for (auto op : {"ANY", "ALL"}) heads.push_back(string(op) + "\n" + block(1, in));
            for (auto &rest : forest(n - first, true))
                for (auto &h : heads) r.push_back(h + rest);
        }
        return r;
    };
    for (int n = 1; n <= (T ? 5 : 4); n++) {
        auto v = forest(n, false);
        for (size_t i = 0; i < v.size(); i++)
            for (size_t start = 0; start < leaf.size(); start += n <= 2 ? 1 : 3) {
                string t = v[i];
                size_t k = start;
                for (size_t p; (p = t.find('@')) != string::npos; k++) t.replace(p, 1, leaf[k % leaf.size()]);
                f.add("domain: D\n\tconf: K\n" + block(2, t) + block(2, "/Sys/A/x = 1\n") + "\tconf: L\n\t\t/Sys/A/x = 2\n");
            }
    }
    // every operator on every value
    for (string c : {"C1", "C2", "ALLY", "ANY_1", "C9"})
        for (string op : {"Is", "IsNot", "Includes", "Excludes"})
            for (string v : {"a", "b", "f1", "f2", "z", "C1", "C2", "ALLY", "ANY_1", "inclusive", "InclusiveCriterion"})
                f.add("domain: D\n\tconf: K\n\t\t" + c + " " + op + " " + v + "\n\t\t/Sys/A/x = 1\n");
    return f;
}
// ---- configuration types
Fam types(bool T)
{
    Fam f{"types", {}};
    // places: 0 none, 1 in the group, 2 in the domain, 3 in the configuration group
    const vector<string> r{"C1 Is a", "C2 Includes f1", "C1 IsNot b", "C2 Excludes f2", "ALLY Is a"};
    for (int p1 = 0; p1 <= 3; p1++)
        for (int p2 = 0; p2 <= 3; p2++)
            for (int names = 0; names < 4; names++)
                for (int groupRules = 0; groupRules < (T ? 8 : 3); groupRules++)
                    for (bool op : {false, true}) {
                        string n1 = names & 1 ? "L" : "K", n2 = names & 2 ? "L" : "K";
                        auto type = [&](int at, size_t in) {
                            string t;
                            if (p1 == at) t += block(in, "confType: " + n1 + "\n" + (op ? "\tANY\n\t\t" + r[0] + "\n\t\t" + r[1] : "\t" + r[0]) + "\n");
                            if (p2 == at) t += block(in, "confType: " + n2 + "\n\t" + r[2] + "\n\t" + r[3] + "\n");
                            return t;
                        };
                        int gr = T ? groupRules : groupRules == 0 ? 0 : groupRules == 1 ? 1 : 6;
                        string t = "domainGroup: G\n" + type(1, 1) + (gr & 1 ? "\t" + r[4] + "\n" : "") + "\tdomain: D\n" + type(2, 2) + (gr & 2 ? "\t\t" + r[1] + "\n" : "") +
                                   "\t\tconfGroup: S\n" + (gr & 4 ? "\t\t\t" + r[3] + "\n" : "") + type(3, 3) +
                                   "\t\t\tconf: K\n\t\t\t\tC1 IsNot c\n\t\t\t\t/Sys/A/x = 1\n\t\t\tconf: L\n\t\t\t\t/Sys/A/x = 2\n\t\tconf: K\n\t\t\t/Sys/A/x = 3\n" +
                                   "\tdomain: E\n\t\tconf: L\n\t\t\t/Sys/B/y = 4\n";
                        f.add(t);
                    }
    // what is inherited and what is own, of like and unlike kinds
    const vector<string> shape{"", "C1 Is a", "ANY\n\tC1 Is a\n\tC2 Includes f1", "ANY\n\tC1 Is b\n\tALLY Is b", "ALL\n\tC1 IsNot a\n\tC2 Excludes f1", "ALL\n\tC1 Is c\n\tALLY Is a",
                               "ANY\n\tC1 Is a\n\tC2 Includes f2\nANY\n\tC1 Is b\n\tALLY Is b"};
    size_t m = shape.size();
    for (size_t outer = 0; outer < m; outer++)
        for (size_t ty = 1; ty < m; ty++)
            for (size_t own = 0; own < m; own++)
                for (size_t inner = 0; inner < m; inner++) {
                    if (!T && ((outer && inner) || (inner && !own))) continue;
                    auto at = [&](size_t in, size_t i) { return shape[i].empty() ? string() : block(in, shape[i]); };
                    f.add("domain: D\n" + at(1, outer) + "\tconfType: K\n" + at(2, ty) + "\tconfGroup: S\n" + at(2, inner) + "\t\tconf: K\n" + at(3, own) +
                          "\t\t\t/Sys/A/x = 1\n\tconf: K\n" + at(2, own) + "\t\t/Sys/A/x = 2\n\tconf: L\n\t\t/Sys/A/x = 3\n");
                }
    return f;
}
// ---- elements: orders, factorisation into components
Fam elements(bool T)
{
    Fam f{"elements", {}};
    vector<string> el{"/Sys/A/c/p", "/Sys/A/c/q", "/Sys/B/y"};
    vector<int> perm{0, 1, 2};
    vector<vector<int>> perms;
    do perms.push_back(perm);
    while (std::next_permutation(perm.begin(), perm.end()));
    for (bool aware : {false, true})
        for (auto &a : perms)
            for (auto &b : perms) {
                string t = string("domain: D") + (aware ? " sequenceAware" : "") + "\n\tconf: K\n";
                for (int i : a) t += "\t\t" + el[size_t(i)] + " = " + std::to_string(i + 10) + "\n";
                t += "\tconf: L\n";
                for (int i : b) t += "\t\t" + el[size_t(i)] + " = " + std::to_string(i + 20) + "\n";
                f.add(t);
            }
    // every way to cut the paths into components, and to order what results
    const vector<std::pair<string, string>> forms{
        {"/Sys/A/c/p = @\n/Sys/A/c/q = @\n/Sys/B/y = @\n", ""},
        {"component: /Sys/A/c\n\tp = @\n\tq = @\n/Sys/B/y = @\n", ""},
        {"component: /Sys/A\n\tcomponent: c\n\t\tp = @\n\t\tq = @\ncomponent: /Sys/B\n\ty = @\n", ""},
        {"component: /Sys\n\tcomponent: A\n\t\tc/p = @\n\t\tcomponent: c\n\t\t\tq = @\n\tB/y = @\n", ""},
        {"component: /Sys\n\tA/c/p = @\n\tcomponent: A/c\n\t\tq = @\n\tcomponent: B\n\t\ty = @\n", ""},
        {"component: /Sys/B\n\ty = @\n/Sys/A/c/p = @\n/Sys/A/c/q = @\n", ""},
        {"/Sys/B/y = @\ncomponent: /Sys/A/c\n\tq = @\n\tp = @\n", ""},
        {"component: /Sys/A/c\n\tq = @\n/Sys/B/y = @\ncomponent: /Sys/A\n\tcomponent: c\n\t\tp = @\n", ""},
        {"component: /Sys\n\tcomponent: B\n\t\ty = @\n\tA/c/q = @\n\tcomponent: A\n\t\tc/p = @\n", ""},
        {"component: /Sys/A\n\tcomponent: c\n\t\tq = @\n\t\tp = @\n\tcomponent: c\ncomponent: /Sys\n\tB/y = @\n", ""},
        {"component: /Sys/A/c/n\n\tu = @\n/Sys/A/c/p = @\n/Sys/A/c/q = @\n", ""},
        {"component: /Sys/A/c\n\tp = @\n/Sys/B/y = @\n", ""}};
    for (bool aware : {false, true})
        for (size_t a = 0; a < forms.size(); a++)
            for (size_t b = 0; b < forms.size(); b++) {
                string t = string("domain: D") + (aware ? " sequenceAware" : "") + "\n\tconf: K\n" + block(2, forms[a].first) + "\tconfGroup: S\n\t\tconf: L\n" + block(3, forms[b].first);
                for (int n = 11; t.find('@') != string::npos; n++) t.replace(t.find('@'), 1, std::to_string(n));
                f.add(t);
            }
    // which configuration names the elements of the domain
    for (int order = 0; order < 2; order++)
        for (auto &a : {0u, 2u, 4u, 5u}) {
            string g = "\tconfGroup: S\n\t\tconf: L\n" + block(3, forms[a].first), k = "\tconf: K\n" + block(2, forms[0].first);
            string t = "domain: D\n" + (order ? g + k : k + g) + "domain: E\n\tconf: K\n\t\t/Sys/A/x = 1\n";
            for (int n = 11; t.find('@') != string::npos; n++) t.replace(t.find('@'), 1, std::to_string(n));
            f.add(t);
        }
    (void)T;
    return f;
}
// ---- values
Fam values(bool)
{
    Fam f{"values", {}};
    auto conf = [&](const string &p, const string &v) { f.add("domain: D\n\tconf: K\n\t\t" + p + v + "\n"); };
    for (string v : {"", "t", "two words", "a  b", "=", "= x", "x = y", "# no comment", "\"quoted\"", "it's", "<&>", "a:b", "conf: K", "ANY", "C1 Is a", "\xc3\xa9t\xc3\xa9", "%s", "\\n", "twenty_characters_20", "more_than_20_characters", "{}", "/Sys/A/x", "0x10", "a\tb"}) {
        conf("/Sys/B/s = ", v);
        conf("/Sys/B/s =", v);
        conf("/Sys/B/s=", v);
        conf("/Sys/B/s   =    ", v);
    }
    for (string v : {"0", "3", "7", "100", "101", "-1", "0x20", "255", "256", "", "x", "7 8", "7,8", "7.5"}) {
        conf("/Sys/A/c/p = ", v);
        conf("/Sys/A/c/q = ", v);
        conf("/Sys/A/arr = ", v);
        conf("/Sys/A/arr/0 = ", v);
        conf("/Sys/B/y = ", v);
    }
    for (string v : {"one", "two", "three", "1", "2", "", "one two", "One"}) conf("/Sys/B/e = ", v);
    for (string p : {"/Sys/A/no", "/Sys/A/c", "/Sys", "Sys/A/x", "/A/x", "/Sys/A/x/0"}) conf(p + " = ", "1");
    return f;
}
// ---- one edit of a description
Fam edits(bool T)
{
    Fam f{"edits", {}};
    const vector<string> base{
        "domainGroup: G",
        "\tC1 IsNot c",
        "\tdomain: D sequenceAware",
        "\t\tconfType: T",
        "\t\t\tC2 Includes f1",
        "\t\tconfGroup: S",
        "\t\t\tANY",
        "\t\t\t\tC1 Is a",
        "\t\t\t\tC2 Excludes f2",
        "\t\t\tconf: T",
        "\t\t\t\tcomponent: /Sys/A",
        "\t\t\t\t\tcomponent: c",
        "\t\t\t\t\t\tp = 11",
        "\t\t\t\t\tx = 12",
        "\t\t\tconf: U",
        "\t\t\t\tALLY Is b",
        "\t\t\t\t/Sys/A/x = 13",
        "\t\t\t\t/Sys/A/c/p = 14",
        "\tdomain: E",
        "\t\tconf: K",
        "\t\t\t/Sys/B/s = text",
        "domain: F",
        "\tconf: K",
        "\t\t/Sys/B/y = 15"};
    const vector<string> repl{"domainGroup: N", "domain: N", "domain: E", "domain: N sequenceAware", "confType: N", "confGroup: N", "conf: N", "conf: K", "component: /Sys/A", "ANY", "ALL", "C1 Is b", "C2 Includes f2", "/Sys/A/c/q = 3", "/Sys/B/y = 4", "p = 5", "nonsense", "C1 Foo a", "", "# comment", "C1 Is a b"};
    std::set<string> seen;
    auto add = [&](const vector<string> &l) {
        string t;
        for (auto &x : l) t += x + "\n";
        if (seen.insert(t).second) f.add(t);
    };
    add(base);
    for (size_t i = 0; i <= base.size(); i++) {
        auto c = base;
        size_t depth = i < base.size() ? base[i].find_first_not_of('\t') : 0;
        if (i < base.size()) {
            c.erase(c.begin() + long(i)), add(c), c = base;
            c.insert(c.begin() + long(i), base[i]), add(c), c = base;
            for (int by : {-2, -1, 1, 2}) {
                if (int(depth) + by < 0) continue;
                c = base, c[i] = tabs(size_t(int(depth) + by)) + base[i].substr(depth), add(c);
                // with all that it contains
                c = base;
                bool ok = true;
                for (size_t k = i; k < base.size() && (k == i || base[k].find_first_not_of('\t') > depth); k++) {
                    size_t dk = base[k].find_first_not_of('\t');
                    c[k] = tabs(size_t(int(dk) + by)) + base[k].substr(dk);
                }
                if (ok) add(c);
            }
            c = base, c[i] = " " + base[i], add(c);
            c = base, c[i] = tabs(depth) + " " + base[i].substr(depth), add(c);
            c = base, c[i] = base[i] + " ", add(c);
            if (i + 1 < base.size()) c = base, std::swap(c[i], c[i + 1]), add(c);
            for (auto &r : repl) c = base, c[i] = tabs(depth) + r, add(c);
        }
        for (size_t in : {size_t(0), depth, depth + 1, depth + 2}) {
            c = base, c.insert(c.begin() + long(i), tabs(in) + "# comment = x"), add(c);
            c = base, c.insert(c.begin() + long(i), tabs(in)), add(c);
            if (T || in == depth)
                for (auto &r : repl) c = base, c.insert(c.begin() + long(i), tabs(in) + r), add(c);
        }
        if (i < base.size()) {
            // cut here
            c = base, c.resize(i), add(c);
            c = base, c.resize(i + 1), add(c);
        }
    }
    return f;
}
// ---- several sources, options, criteria
Fam sources(const Lab &L, bool)
{
    Fam f{"sources", {}};
    const vector<string> edd{"domain: D1\n\tC1 Is a\n\tconf: K\n\t\t/Sys/A/x = 1\n", "domainGroup: G sequenceAware\n\tC2 Includes f1\n\tdomain: D2\n\t\tconf: K\n\t\t\t/Sys/B/y = 2\n", "domain: D3\n\tconf: K\n\t\t/Sys/B/s = t\n", "", "domain: D1\n\tconf: K\n\t\t/Sys/B/e = two\n", "domain: D5\n\tconf: K\n\t\t/Sys/A/x = 9\n",
                             "domain: D6\n\tconf: K\n\t\t/Sys/A/no = 9\n", "nonsense\n", "domain: D7\n\tconf: K\n\t\t/Sys/A/c/q = 1\n\tconf: L\n\t\t/Sys/A/c/p = 9\n"};
    RuleTab R;
    Model m(*L.S, R);
    State s;
    for (auto &l : L.S->leaves) s.main.push_back(l.t.k == T_STR ? strTab().get("") : l.t.mn > 0 ? l.t.mn : 0);
    s.crit.assign(L.S->crits.size(), 0);
    s.tuning = true;
    Rule r1 = rAll({rCrit(*L.S, "C1", M_ISNOT, "b")});
    R.add(*L.S, r1);
    for (Op o : vector<Op>{{"createDomain", "I1"}, {"addElement", "I1", "/Sys/A/c/p"}, {"createConfiguration", "I1", "k"}, {"setRule", "I1", "k", r1.text(*L.S)}, {"setConfigurationParameter", "I1", "k", "/Sys/A/c/p", "33"},
                           {"createDomain", "I2"}, {"addElement", "I2", "/Sys/A/c/n"}, {"createConfiguration", "I2", "k"}, {"setConfigurationParameter", "I2", "k", "/Sys/A/c/n/u", "34"}})
        if (!m.exec(s, o).ok) abort();
    string ini = m.domainsXml(s);
    // a domain alone
    auto single = [&](const string &name, const string &el, const string &v) {
        return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<ConfigurableDomain Name=\"" + name + "\" SequenceAware=\"false\"><Configurations><Configuration Name=\"k\"/></Configurations><ConfigurableElements><ConfigurableElement Path=\"" + el +
               "\"/></ConfigurableElements><Settings><Configuration Name=\"k\"><ConfigurableElement Path=\"" + el + "\"><IntegerParameter Name=\"" + el.substr(el.rfind('/') + 1) + "\">" + v + "</IntegerParameter></ConfigurableElement></Configuration></Settings></ConfigurableDomain>\n";
    };
    const vector<string> one{single("X1", "/Sys/A/c/q", "41"), single("X2", "/Sys/A/arr", "42 43"), single("D1", "/Sys/A/c/q", "41"), single("X3", "/Sys/A/x", "41"), single("X4", "/Sys/A/no", "1"), "<nonsense"};
    for (bool validate : {false, true})
        for (int withIni = 0; withIni < 4; withIni++) {
            auto start = [&] {
                EddCase c;
                c.validate = validate;
                if (withIni == 1) c.initial = ini;
                if (withIni == 2) c.initial = "<nonsense";
                if (withIni == 3) c.noSchemas = true;
                return c;
            };
            EddCase c = start();
            f.cases.push_back(c);
            for (size_t i = 0; i < edd.size(); i++) {
                c = start(), c.edds = {edd[i]}, f.cases.push_back(c);
                for (size_t j = 0; j < edd.size(); j++) c = start(), c.edds = {edd[i], edd[j]}, f.cases.push_back(c);
            }
            for (size_t i = 0; i < one.size(); i++) {
                c = start(), c.domains = {one[i]}, f.cases.push_back(c);
                c = start(), c.domains = {one[i]}, c.edds = {edd[0], edd[1]}, f.cases.push_back(c);
                for (size_t j = 0; j < one.size(); j++) c = start(), c.domains = {one[i], one[j]}, c.edds = {edd[2]}, f.cases.push_back(c);
            }
            // validating without the schemas
            if (validate && withIni == 3)
                for (auto it = f.cases.begin(); it != f.cases.end();) it = it->validate && it->noSchemas ? f.cases.erase(it) : it + 1;
        }
    // many errors
    for (int n : {1, 2, 3, 127, 128, 254, 255, 256, 257, 512}) {
        string t = "domain: D\n";
        for (int i = 0; i < n; i++) t += "\tconf: K" + std::to_string(i) + "\n\t\t/Sys/A/c/p = 101\n";
        f.add(t);
        f.add(t + "domain: D\n\tconf: K\n\t\t/Sys/B/y = 1\n");
        f.add(t + "domain: E\n\tconf: K\n\t\t/Sys/A/c/p = 4\n");
        f.add(t + "\tconf: K0\n\t\t/Sys/A/c/p = 4\n\tconf: K0\n\t\t/Sys/A/c/p = 2\n");
    }
    // framework configurations
    for (string tuning : {"false", "true"})
        for (string plug : {"<SubsystemPlugins/>", "<SubsystemPlugins><Location Folder=\"\"><Plugin Name=\"nope.so\"/></Location></SubsystemPlugins>", "<SubsystemPlugins><Location Folder=\"/a\"><Plugin Name=\"x.so\"/></Location><Location Folder=\"b\"><Plugin Name=\"y.so\"/></Location></SubsystemPlugins>"})
            for (string set : {"", "<SettingsConfiguration><ConfigurableDomainsFileLocation Path=\"nope.xml\"/></SettingsConfiguration>", "<SettingsConfiguration><ConfigurableDomainsFileLocation Path=\"%D/initial.xml\"/></SettingsConfiguration>"})
                for (string path : {"structure.xml", "./structure.xml", "deeper/s.xml", "/structure.xml"})
                    for (string where : {"", "/deeper", "/with blanks"})
                        for (string extra : {"", "<!-- \xc3\xa9t\xc3\xa9 -->"}) {
                            EddCase c;
                            bool absolute = path[0] == '/';
                            c.config = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" + extra + "<ParameterFrameworkConfiguration SystemClassName=\"Sys\" TuningAllowed=\"" + tuning + "\">" + plug + "<StructureDescriptionFileLocation Path=\"" + (absolute ? "%D" + path : path) + "\"/>" + set + "</ParameterFrameworkConfiguration>\n";
                            c.where = where;
                            c.structure = path == "deeper/s.xml" ? path : "";
                            c.edds = {edd[0]};
                            f.cases.push_back(c);
                        }
    // criteria files
    const string rest = "InclusiveCriterion C2 : f1 f2\n";
    for (string l : {"ExclusiveCriterion C1 : a b c", "ExclusiveCriterion  C1  :  a  b  c", "ExclusiveCriterion\tC1\t:\ta\tb\tc", "ExclusiveCriterion C1: a b c", "ExclusiveCriterion C1 :a b c", "ExclusiveCriterion C1:a b c"}) {
        EddCase c;
        c.criteria = l + "\n" + rest;
        c.edds = {"domain: D\n\tconf: K\n\t\tC1 Is b\n\t\tC2 Includes f2\n\t\t/Sys/A/x = 1\n"};
        f.cases.push_back(c);
        c.criteria = rest + l + "\n";
        f.cases.push_back(c);
    }
    // many values
    for (int n : {3, 30, 31, 33, 34, 64, 65, 100})
        for (bool incl : {false, true})
            for (bool front : {false, true}) {
                string more;
                for (int i = incl ? 2 : 3; i < n; i++) more += " w" + std::to_string(i);
                EddCase c;
                string ex = " a b c", in = " f1 f2";
                (incl ? in : ex) = front ? more + (incl ? in : ex) : (incl ? in : ex) + more;
                c.criteria = "ExclusiveCriterion C1 :" + ex + "\nInclusiveCriterion C2 :" + in + "\n";
                if (incl && n > 31) c.forced = E_ERROR;
                c.edds = {"domain: D\n\tconf: K\n\t\tC1 Is b\n\t\tC2 Includes f2\n\t\t/Sys/A/x = 1\n\tconf: L\n\t\tC1 IsNot c\n\t\tC2 Excludes f1\n\t\t/Sys/A/x = 2\n"};
                f.cases.push_back(c);
            }
    for (string l : {"ExclusiveCriterion C1 : a b a", "Criterion C1 : a b c", "C1 : a b c", "ExclusiveCriterion C1 a b c", "nonsense", "ExclusiveCriterion C2 : a b c", "InclusiveCriterion C1 : a a"}) {
        EddCase c;
        c.criteria = l + "\n" + rest;
        c.forced = l.find("C2") == string::npos ? E_ERROR : E_ANY;
        c.edds = {"domain: D\n\tconf: K\n\t\t/Sys/A/x = 1\n"};
        f.cases.push_back(c);
    }
    return f;
}
// ---- many of everything
Fam large(bool T)
{
    Fam f{"large", {}};
    const vector<string> leaf{"C1 Is a", "C2 Includes f2", "C1 IsNot c", "C2 Excludes f1", "ALLY Is b", "ANY_1 IsNot a"};
    vector<int> counts{9, 10, 11, 31, 33, 64, 99, 101, 127, 129, 255, 257};
    if (T) counts.insert(counts.end(), {12, 16, 17, 32, 65, 100, 128, 200, 256, 500, 1000});
    for (int n : counts) {
        // configurations, all with rules of their own, and without the rule that holds first
        for (int never : {0, n / 2, n}) {
            string t = "domain: D\n";
            for (int i = 0; i < n; i++)
                t += "\tconf: K" + std::to_string(i) + "\n" + (i < never ? "\t\tC1 Is a\n\t\tC1 Is b\n" : "\t\t" + leaf[size_t(i) % 6] + "\n") + "\t\t/Sys/B/y = " + std::to_string(i * 3 + 1) + "\n";
            f.add(t);
        }
        // leaves of one rule, in a row
        for (string op : {"ANY", "ALL"}) {
            string t = "domain: D\n\tconf: K\n\t\t" + op + "\n";
            for (int i = 0; i < n; i++) t += "\t\t\t" + leaf[size_t(op == "ALL" && i + 1 < n ? 2 : i % 6)] + "\n";
            f.add(t + "\t\t/Sys/A/x = 1\n\tconf: L\n\t\t/Sys/A/x = 2\n");
        }
        // configuration groups side by side
        string t = "domain: D\n";
        for (int i = 0; i < n; i++)
            t += "\tconfGroup: G" + std::to_string(i) + "\n\t\t" + leaf[size_t(i) % 6] + "\n\t\tconf: K\n\t\t\tC2 Includes f1\n\t\t\t/Sys/B/y = " + std::to_string(i) + "\n";
        f.add(t);
        // a long text
        if (n <= 20) f.add("domain: D\n\tconf: K\n\t\t/Sys/B/s = " + string(size_t(n), 'q') + "\n");
        // a long name
        f.add("domain: D" + string(size_t(n), 'd') + "\n\tconf: K" + string(size_t(n), 'k') + "\n\t\t/Sys/A/x = 3\n\tconf: L" + string(size_t(n), 'k') + "\n\t\tC1 Is a\n\t\t/Sys/A/x = 4\n");
    }
    // nesting
    for (int n : {3, 5, 8, 9, 16, 20, 31, 33, 50}) {
        for (int odd : {0, 1}) {
            string t = "domain: D\n\tconf: K\n";
            for (int i = 0; i < n; i++) t += tabs(size_t(i) + 2) + (i % 2 == odd ? "ANY" : "ALL") + "\n" + tabs(size_t(i) + 3) + leaf[size_t(i * 5 + odd) % 6] + "\n";
            f.add(t + "\t\t/Sys/A/x = 1\n\tconf: L\n\t\t/Sys/A/x = 2\n");
        }
        for (bool domains : {false, true}) {
            string t = domains ? "" : "domain: D\n";
            size_t base = domains ? 0 : 1;
            for (int i = 0; i < n; i++) t += tabs(size_t(i) + base) + (domains ? "domainGroup: G" : "confGroup: S") + std::to_string(i) + "\n" + (i % 7 == 3 ? tabs(size_t(i) + base + 1) + leaf[size_t(i) % 6] + "\n" : "");
            if (domains) t += tabs(size_t(n)) + "domain: D\n";
            f.add(t + tabs(size_t(n) + 1) + "conf: K\n" + tabs(size_t(n) + 2) + "/Sys/A/x = 5\n" + tabs(size_t(n) + 1) + "conf: L\n" + tabs(size_t(n) + 2) + "C1 Is b\n" + tabs(size_t(n) + 2) + "/Sys/A/x = 6\n");
        }
    }
    return f;
}
} // namespace

int p25(Checker &c)
{
    Lab L;
    bool T = c.thorough;
    vector<Fam> fams{nesting(T), rules(T), types(T), elements(T), values(T), edits(T), sources(L, T), large(T)};
    vector<std::pair<const Fam *, const EddCase *>> all;
    for (auto &f : fams) {
        c.bounds.push_back(f.name + ": " + std::to_string(f.cases.size()) + " descriptions");
        for (auto &k : f.cases) all.push_back({&f, &k});
    }
    c.states += all.size();
    c.items_("descriptions", long(all.size()), [&](Ctx &x, long i) {
        static std::unique_ptr<Generator> g;
        if (!g) g.reset(new Generator(g_scratch + "/edd"));
        return L.judge(x, *g, *all[size_t(i)].second);
    }, 4);
    // the settings printed to a file that takes only the first bytes, for each number of them
    const size_t most = 8000, step = T ? 1 : 7;
    c.bounds.push_back("disk: settings printed to a disk that takes the first k bytes, for every " + string(T ? "" : "seventh ") + "k");
    c.items_("disk", 8, [&](Ctx &x, long i) {
        Generator g(g_scratch + "/edd");
        EddCase k;
        k.edds = {"domainGroup: G sequenceAware\n\tdomain: D\n\t\tconf: K\n\t\t\tC1 Is b\n\t\t\t/Sys/A/x = 1\n\t\tconf: L\n\t\t\tC2 Includes f2\n\t\t\t/Sys/A/x = 2\n"};
        writeFile(g.dir + "/record", "");
        string out = g.dir + "/disk.xml";
        if (!L.record(g, k)) return x.violate("the generator does not run its connector");
        vector<string> a{g_pluginDir + "/pf/bin/domainGeneratorConnector", g.dir + "/top.xml"};
        std::istringstream is(readFile(g.dir + "/args.txt"));
        for (string l; std::getline(is, l);) a.push_back(l);
        auto run = [&](size_t lim) {
            pid_t p = fork();
            if (p == 0) {
                if (!freopen((g.dir + "/in.txt").c_str(), "r", stdin) || !freopen(out.c_str(), "w", stdout) || !freopen("/dev/null", "w", stderr)) _exit(99);
                signal(SIGXFSZ, SIG_IGN);
                rlimit r{lim, lim};
                if (lim != size_t(-1) && setrlimit(RLIMIT_FSIZE, &r)) _exit(97);
                vector<char *> v;
                for (auto &s : a) v.push_back(const_cast<char *>(s.c_str()));
                v.push_back(nullptr);
                execv(v[0], v.data());
                _exit(98);
            }
            int st = 0;
            waitpid(p, &st, 0);
            return st;
        };
        if (run(size_t(-1)) != 0) return x.violate("the connector fails on what the generator sent it");
        string all = readFile(out);
        if (all.size() < 1000 || all.size() > most) return x.violate("unexpected settings: " + all);
        for (size_t n = size_t(i) * step; n <= all.size() + 8 * step; n += 8 * step) {
            x.note("a description is compiled, its settings printed to a disk that takes " + std::to_string(n) + " of " + std::to_string(all.size()) + " bytes");
            x.sh->states++, x.sh->transitions++;
            int st = run(n);
            if (!WIFEXITED(st)) return x.violate("ended by signal " + std::to_string(WTERMSIG(st)));
            if (WEXITSTATUS(st) == 0 && readFile(out) != all) return x.violate("exit code 0, but the settings are not all there");
            if (WEXITSTATUS(st) != 0 && n >= all.size()) return x.violate("exit code " + std::to_string(WEXITSTATUS(st)));
            x.sh->validated++;
        }
        return true;
    }, 1);
    // the connector without enough arguments
    c.items_("arguments", 4, [&](Ctx &x, long n) {
        x.sh->states++, x.sh->transitions++;
        vector<string> a{g_pluginDir + "/pf/bin/domainGeneratorConnector", "nope.xml", "no", "no-validate", "/nope"};
        a.resize(size_t(n) + 1);
        string out = g_scratch + "/arguments.out";
        pid_t p = fork();
        if (p == 0) {
            if (!freopen("/dev/null", "r", stdin) || !freopen(out.c_str(), "w", stdout) || !freopen("/dev/null", "w", stderr)) _exit(99);
            vector<char *> v;
            for (auto &s : a) v.push_back(const_cast<char *>(s.c_str()));
            v.push_back(nullptr);
            execv(v[0], v.data());
            _exit(98);
        }
        int st = 0;
        waitpid(p, &st, 0);
        x.note("domainGeneratorConnector with " + std::to_string(n) + " arguments");
        if (!WIFEXITED(st)) return x.violate("ended by signal " + std::to_string(WTERMSIG(st)));
        if (WEXITSTATUS(st) == 0) return x.violate("exit code 0");
        if (!readFile(out).empty()) return x.violate("settings printed: " + readFile(out));
        x.sh->validated++;
        return true;
    }, 1);
    return c.finish("model_checking", "every description of the families is put through the generator, and what it prints read back and compared");
}
static Reg r25("P25", p25);
