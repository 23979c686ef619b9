// P23: names and paths. (1) every text up to a length over names, separators and indices is
// given as a path to every command that takes one, and judged by an independent resolution;
// (2) every history of creations, renamings and imports of domains and configurations up to a
// depth, compared with the reference model, with the listings checked for repeated names.
#include "drivers.h"
#include "worldset.h"

namespace
{
struct Res
{
    enum K { BAD, ROOT, NODE, ELEM, GRAY } k = BAD;
    int node = -1, index = -1;
    string canon;
};
// the reading of a path: names between slashes, empty parts left out
Res resolve(const Structure &S, const string &p)
{
    Res r;
    if (p.empty() || p[0] != '/') return r;
    auto parts = splitWs(p, "/");
    if (parts.empty()) {
        r.k = Res::ROOT;
        return r;
    }
    if (parts[0] != S.sys) return r;
    int n = 0;
    for (size_t i = 1; i < parts.size(); i++) {
        int next = -1;
        for (int k : S.nodes[n].kids)
            if (S.nodes[k].name == parts[i]) next = k;
        if (next >= 0) {
            n = next;
            continue;
        }
        if (S.nodes[n].isParam() && S.nodes[n].len && i + 1 == parts.size()) {
            // an element of an array
            const string &t = parts[i];
            for (int e = 0; e < S.nodes[n].len; e++)
                if (t == std::to_string(e)) {
                    r.k = Res::ELEM, r.node = n, r.index = e, r.canon = S.nodes[n].path + "/" + t;
                    return r;
                }
            // other ways to write the same number are left to the implementation
            size_t q = t[0] == '+' || t[0] == '-' ? 1 : 0;
            bool digits = q < t.size();
            for (size_t j = q; j < t.size(); j++) digits = digits && isdigit((unsigned char)t[j]);
            if (digits && t.size() - q < 10) {
                long v = (t[0] == '-' ? -1 : 1) * atol(t.c_str() + q);
                if (v >= 0 && v < S.nodes[n].len) r.k = Res::GRAY, r.node = n, r.index = int(v), r.canon = S.nodes[n].path + "/" + std::to_string(v);
            }
            return r;
        }
        return r;
    }
    r.k = Res::NODE, r.node = n, r.canon = S.nodes[n].path;
    return r;
}

// commands that read one element, whatever it is
const char *const readers[] = {"listElements", "listParameters", "getElementStructureXML", "getElementBytes", "getElementXML",
                               "dumpElement", "getElementSize", "showProperties", "listBelongingDomains",
                               "listAssociatedDomains", "showMapping", "getParameter"};
struct PathBench
{
    World W;
    std::unique_ptr<Real> r;
    Model m;
    std::map<string, std::map<string, RealOutcome>> table; // command -> canonical path -> outcome
    string image, domains;
    size_t writes = 0;
    PathBench(const World &w) : W(w), m(*W.S, W.R) {}
    RealOutcome run(const string &c, const vector<string> &a)
    {
        RealOutcome o;
        o.ok = r->cmd(c, a, o.val);
        return o;
    }
    string hw() const
    {
        string s;
        for (auto &o : r->env.shadow) s += o.first + "=" + o.second + ";";
        return s;
    }
    // every class of answers for the path of the element itself, with what can be told independently
    bool up(Ctx &c)
    {
        if (r) return true;
        c.note("start");
        r.reset(new Real(W));
        if (!r->started) return c.violate("start failed: " + r->error);
        const Structure &S = *W.S;
        string e;
        if (!r->cmd("setTuningMode", {"on"}, e)) return c.violate("tuning mode: " + e);
        // distinct contents
        for (size_t l = 0; l < S.leaves.size(); l++) {
            string v = std::to_string(sampleVal(S.leaves[l].t, i64(l * 5 + 1)));
            if (!r->cmd("setParameter", {S.leaves[l].path, v}, e)) return c.violate("setParameter " + S.leaves[l].path + ": " + e);
        }
        for (size_t l = 0; l < S.leaves.size(); l++) {
            string v = std::to_string(sampleVal(S.leaves[l].t, i64(l * 5 + 1)));
            auto o = run("getParameter", {S.leaves[l].path});
            if (!o.ok || o.val != v) return c.violate("getParameter " + S.leaves[l].path + " gives " + o.val + " instead of " + v);
        }
        string all = r->cmdv("getElementBytes", {"/" + S.sys});
        auto bytes = splitWs(all);
        if (int(bytes.size()) != S.nodes[0].size) return c.violate("the system's bytes: " + all);
        for (auto &n : S.nodes) {
            c.append("\n" + n.path);
            for (auto *cmd : readers) table[cmd][n.path] = run(cmd, {n.path});
            for (auto *cmd : {"listElements", "listParameters", "getElementStructureXML", "getElementBytes", "getElementXML", "dumpElement",
                              "getElementSize", "showProperties"})
                if (!table[cmd][n.path].ok) return c.violate(string(cmd) + " of " + n.path + " failed: " + table[cmd][n.path].val);
            if (table["getParameter"][n.path].ok != n.isParam()) return c.violate("getParameter " + n.path);
            if (n.kind != "P" || n.t.k != T_BIT) {
                vector<string> want(bytes.begin() + n.off, bytes.begin() + n.off + n.size);
                if (splitWs(table["getElementBytes"][n.path].val) != want)
                    return c.violate("getElementBytes " + n.path + ": " + table["getElementBytes"][n.path].val + " instead of " + join(want, " "));
            }
            XNode x;
            if (!XParser::parse(table["getElementXML"][n.path].val, x) || x.at("Name") != n.name)
                return c.violate("getElementXML " + n.path + ": " + table["getElementXML"][n.path].val);
            if (!XParser::parse(table["getElementStructureXML"][n.path].val, x) || x.at("Name") != n.name)
                return c.violate("getElementStructureXML " + n.path + ": " + table["getElementStructureXML"][n.path].val);
            // what an element lists leads back to elements
            std::set<string> listed;
            for (auto &line : splitWs(table["listElements"][n.path].val, "\n")) {
                string name = line.substr(0, line.find(' '));
                if (name.find('/') == 0) continue;
                listed.insert(name);
            }
            std::unique_ptr<ElementHandle> h(r->pf->createElementHandle(n.path, e));
            if (!h) return c.violate("no handle for " + n.path + ": " + e);
            if (h->getPath() != n.path || h->getName() != n.name) return c.violate("the handle for " + n.path + " is that of " + h->getPath());
        }
        for (auto &l : S.leaves) table["getParameter"][l.path] = run("getParameter", {l.path});
        table["listElements"]["/"] = run("listElements", {"/"});
        table["listParameters"]["/"] = run("listParameters", {"/"});
        for (auto *cmd : {"listElements", "listParameters"})
            if (!table[cmd]["/"].ok) return c.violate(string(cmd) + " / failed: " + table[cmd]["/"].val);
        // whether an element can be in a new domain, and what happens then
        for (auto &n : S.nodes) {
            RealOutcome o;
            if (!domainTrial(c, n.path, n.path, nullptr)) return false;
            (void)o;
        }
        // its place in a configuration
        for (auto &n : S.nodes) {
            bool inside = false;
            for (int el : W.init.doms[0].els) {
                for (int k = int(&n - &S.nodes[0]); k >= 0; k = S.nodes[k].parent) inside = inside || k == el;
            }
            table["getConfigurationParameter"][n.path] = run("getConfigurationParameter", {"D", "K", n.path});
            if (table["getConfigurationParameter"][n.path].ok != (inside && n.isParam()))
                return c.violate("getConfigurationParameter D K " + n.path + ": " + table["getConfigurationParameter"][n.path].val);
        }
        image = r->cmdv("getElementBytes", {"/" + S.sys});
        domains = r->cmdv("getDomainsWithSettingsXML");
        return true;
    }
    bool domainTrial(Ctx &c, const string &p, const string &canon, const RealOutcome *want)
    {
        string e;
        if (!r->cmd("createDomain", {"Z"}, e)) return c.violate("createDomain Z: " + e);
        RealOutcome add = run("addElement", {"Z", p});
        string list = r->cmdv("listDomainElements", {"Z"});
        if (!want) table["addElement"][canon] = add;
        bool should = want ? want->ok : add.ok;
        if (add.ok != should || splitWs(list) != (add.ok ? vector<string>{canon} : vector<string>()))
            return c.violate("addElement '" + p + "' " + (add.ok ? "accepted" : "refused (" + add.val + ")") + ", the domain then holds " + list);
        if (add.ok) {
            // by this path too, the element is split and taken away
            RealOutcome sp = run("splitDomain", {"Z", p});
            string after = r->cmdv("listDomainElements", {"Z"});
            if (!want)
                table["splitDomain"][canon] = sp, table["splitDomainThen"][canon].val = after;
            else if (sp.ok != table["splitDomain"][canon].ok || after != table["splitDomainThen"][canon].val)
                return c.violate("splitDomain Z '" + p + "': " + sp.val + ", then " + after);
            if (!sp.ok) {
                RealOutcome rm = run("removeElement", {"Z", p});
                if (!rm.ok || r->cmdv("listDomainElements", {"Z"}).find_first_not_of(" \n") != string::npos)
                    return c.violate("removeElement Z '" + p + "' did not remove " + canon);
            }
        } else if (run("removeElement", {"Z", p}).ok || run("splitDomain", {"Z", p}).ok)
            return c.violate("removeElement or splitDomain of '" + p + "', not in the domain, accepted");
        if (!r->cmd("deleteDomain", {"Z"}, e)) return c.violate("deleteDomain Z: " + e);
        return true;
    }
    bool same(Ctx &c, const string &cmd, const string &p, const RealOutcome &o, const string &canon)
    {
        auto &t = table[cmd];
        auto it = t.find(canon);
        bool ok = it != t.end() && it->second.ok;
        c.sh->validated++;
        if (o.ok != ok)
            return c.violate(cmd + " '" + p + "' " + (o.ok ? "accepted" : "refused (" + o.val + ")") + (canon.empty() ? ", which leads nowhere" : ", which leads to " + canon));
        if (ok && o.val != it->second.val) return c.violate(cmd + " '" + p + "' gives " + o.val + " instead of what " + canon + " gives, " + it->second.val);
        if (!ok && o.val.empty()) return c.violate(cmd + " '" + p + "' refused without an error");
        return true;
    }
    bool tryPath(Ctx &c, const string &p)
    {
        if (!up(c)) return false;
        const Structure &S = *W.S;
        c.note("path '" + p + "'");
        Res v = resolve(S, p);
        c.sh->states++;
        if (v.k == Res::NODE || v.k == Res::ELEM) c.sh->distinct++;
        string canon = v.k == Res::NODE ? v.canon : "";
        for (auto *cmd : readers) {
            RealOutcome o = run(cmd, {p});
            string want = canon;
            if (v.k == Res::ROOT && (!strcmp(cmd, "listElements") || !strcmp(cmd, "listParameters"))) want = "/";
            if (v.k == Res::ELEM && !strcmp(cmd, "getParameter")) want = v.canon;
            if (v.k == Res::GRAY && !strcmp(cmd, "getParameter")) {
                if (o.ok && o.val != table[cmd][v.canon].val) return c.violate("getParameter '" + p + "' gives " + o.val);
                continue;
            }
            if (!same(c, cmd, p, o, want)) return false;
        }
        string e;
        // handles
        {
            std::unique_ptr<ElementHandle> h(r->pf->createElementHandle(p, e));
            string want = v.k == Res::ROOT && p == "/" ? "/" + S.sys : canon;
            if (v.k == Res::ROOT && p != "/" && h && h->getPath() == "/" + S.sys) want = h->getPath();
            if (bool(h) != !want.empty() || (h && h->getPath() != want))
                return c.violate("createElementHandle '" + p + "' gives " + (h ? h->getPath() : "no handle (" + e + ")"));
            if (!h && e.empty()) return c.violate("createElementHandle '" + p + "' refused without an error");
            e.clear();
            std::unique_ptr<CParameterHandle> q(r->pf->createParameterHandle(p, e));
            bool should = v.k == Res::NODE && S.nodes[v.node].isParam();
            if (bool(q) != should || (q && q->getPath() != canon))
                return c.violate("createParameterHandle '" + p + "' gives " + (q ? q->getPath() : "no handle (" + e + ")"));
        }
        // configurations
        {
            RealOutcome o = run("getConfigurationParameter", {"D", "K", p});
            if (!same(c, "getConfigurationParameter", p, o, canon)) {
                if (v.k != Res::ELEM && v.k != Res::GRAY) return false;
                // whether an element of an array can be addressed there is not settled
                c.violation.clear();
            }
        }
        // writing
        bool writes = (v.k == Res::NODE && S.nodes[v.node].isParam()) || v.k == Res::ELEM;
        {
            string before = writes || v.k == Res::GRAY ? run("getParameter", {v.canon}).val : "";
            string val = "0"; // every content differs from it
            RealOutcome o = run("setParameter", {p, val});
            if (v.k != Res::GRAY && o.ok != writes) return c.violate("setParameter '" + p + "' " + (o.ok ? "accepted" : "refused: " + o.val));
            if (!o.ok && o.val.empty()) return c.violate("setParameter '" + p + "' refused without an error");
            string now = r->cmdv("getElementBytes", {"/" + S.sys});
            if (!o.ok) {
                if (now != image) return c.violate("refused setParameter '" + p + "' changed the contents");
            } else {
                auto a = splitWs(image), b = splitWs(now);
                int node = v.node;
                auto lr = S.leafRange.at(v.canon);
                // an array addressed as a whole takes the values from its first one on
                const Leaf &f = S.leaves[size_t(lr.first)];
                for (int k = 0; k < int(a.size()); k++) {
                    unsigned x = unsigned(strtoul(a[size_t(k)].c_str(), nullptr, 16)), y = unsigned(strtoul(b[size_t(k)].c_str(), nullptr, 16));
                    if (k >= f.off && k < f.off + f.t.size) {
                        unsigned keep = f.t.k == T_BIT ? ~(unsigned(Structure::mask(f.t.width)) << f.t.pos) & 0xff : 0;
                        if (f.t.k == T_BIT && f.t.size != 1) abort();
                        if (y != (x & keep)) return c.violate("setParameter '" + p + "' left byte " + std::to_string(k) + " at " + b[size_t(k)]);
                    } else if (x != y)
                        return c.violate("setParameter '" + p + "' changed byte " + std::to_string(k) + ", not of " + v.canon);
                }
                if (!r->cmd("setParameter", {v.canon, before}, e)) return c.violate("setParameter " + v.canon + " " + before + ": " + e);
                if (r->cmdv("getElementBytes", {"/" + S.sys}) != image) return c.violate("contents not put back by setParameter " + v.canon);
                (void)node;
            }
            // and in a configuration
            o = run("setConfigurationParameter", {"D", "K", p, val});
            auto &t = table["getConfigurationParameter"];
            bool should = !canon.empty() && t[canon].ok;
            if (v.k != Res::ELEM && v.k != Res::GRAY && o.ok != should)
                return c.violate("setConfigurationParameter D K '" + p + "' " + (o.ok ? "accepted" : "refused: " + o.val));
            if (o.ok) {
                string who = v.canon;
                const Node &n = S.nodes[v.node];
                for (auto &x : S.nodes) {
                    if (!t[x.path].ok) continue;
                    string got = run("getConfigurationParameter", {"D", "K", x.path}).val;
                    if (&x == &n ? splitWs(got)[size_t(std::max(0, v.index))] != "0" : got != t[x.path].val)
                        return c.violate("setConfigurationParameter D K '" + p + "' makes " + x.path + " " + got);
                }
                if (!r->cmd("setConfigurationParameter", {"D", "K", n.path, t[n.path].val}, e)) return c.violate("setConfigurationParameter: " + e);
            }
        }
        // domains
        if (v.k == Res::NODE) {
            if (!domainTrial(c, p, canon, &table["addElement"][canon])) return false;
        } else {
            RealOutcome no;
            no.ok = false;
            if (!domainTrial(c, p, "", &no)) return false;
        }
        if (documents) {
            // the path in a settings document, and in a sequence
            string x = "<?xml version=\"1.0\"?><ConfigurableDomain Name=\"Z\"><Configurations/><ConfigurableElements><ConfigurableElement Path=\"" + xmlEsc(p) +
                       "\"/></ConfigurableElements><Settings/></ConfigurableDomain>";
            RealOutcome o = run("setDomainWithSettingsXML", {x});
            bool should = v.k == Res::NODE && table["addElement"][canon].ok;
            if (o.ok != should) return c.violate("a document with the path '" + p + "' is " + (o.ok ? "accepted" : "refused: " + o.val));
            if (o.ok) {
                if (splitWs(r->cmdv("listDomainElements", {"Z"})) != vector<string>{canon}) return c.violate("a document with the path '" + p + "' gives " + r->cmdv("listDomainElements", {"Z"}));
                r->cmd("deleteDomain", {"Z"}, e);
            }
            const Dom &d = W.init.doms[0];
            should = v.k == Res::NODE && std::count(d.els.begin(), d.els.end(), v.node);
            o = run("setElementSequence", {"D", "K", p});
            // it knows paths in their canonical spelling only
            if (o.ok != should && (o.ok || p == canon)) return c.violate("setElementSequence D K '" + p + "' " + (o.ok ? "accepted" : "refused: " + o.val));
            if (o.ok) {
                if (splitWs(r->cmdv("getElementSequence", {"D", "K"}))[0] != canon) return c.violate("setElementSequence D K '" + p + "' moves another element");
                vector<string> back{"D", "K"};
                for (int el : d.els) back.push_back(W.S->nodes[el].path);
                if (!r->cmd("setElementSequence", back, e)) return c.violate("setElementSequence: " + e);
            }
        }
        if (++n % 16 == 0 || writes) {
            string d = r->cmdv("getDomainsWithSettingsXML");
            if (d != domains) return c.violate("the domains changed");
        }
        return true;
    }
    size_t n = 0;
    bool documents = true;
};

// names that stand for their parents, their brothers, indices and kinds
std::shared_ptr<Structure> twisted()
{
    return std::make_shared<Structure>(
        "Sys",
        vector<ND>{sub("Sys", {u8("Sys", "Obj:o1"), pb("S", {u8("0"), u8("1"), u8("S"), u8("Sys", "", 2)}, "Obj:o2"),
                               pbArray("0", 2, {u8("S"), u8("0", "", 2)}, "Obj:o3"), u8("1", "Obj:o4", 3)}),
                   sub("S", {bitBlock("S", 1, {{"0", 0, 3}, {"1", 3, 5}}, "Obj:o5"),
                             pb("0", {pb("0", {u8("0", "Obj:o6"), u16("1", "Obj:o7")})})}),
                   sub("0", {u8("ParameterBlock", "Obj:o8"), u8("IntegerParameter", "Obj:o9"), u8("Sys", "Obj:oa")})},
        stdCrits());
}
World twistedWorld(const string &name)
{
    WB b(name, twisted());
    Dom &d = b.dom("D", {"/Sys/Sys/Sys", "/Sys/Sys/S", "/Sys/S/S", "/Sys/0"});
    b.conf(d, "K", b.rule(rAll({b.is("C1", "c")})), 1);
    // contents of the configuration that are not 0
    for (auto &a : b.w.init.doms[0].confs[0].seq)
        for (auto &v : a.v)
            if (!v) v = 1;
    return b.w;
}
} // namespace

int p23(Checker &c)
{
    World W = twistedWorld("paths");
    std::unique_ptr<PathBench> B;
    auto bench = [&]() -> PathBench & {
        if (!B) B.reset(new PathBench(W));
        return *B;
    };
    // (1) texts over separators and names
    {
        const vector<string> tok{"/", "Sys", "S", "0", "1"};
        int len = c.thorough ? 10 : 9;
        // one item: all completions of a prefix of 4 tokens, the shorter ones in item 0
        long pre = 1;
        for (int i = 0; i < 4; i++) pre *= long(tok.size());
        c.items_("texts", pre + 1, [&](Ctx &x, long item) {
            auto rec = [&](auto &&self, const string &p, int left) -> bool {
                bench().documents = left > len - 8; // up to 7 tokens
                if (!bench().tryPath(x, p)) return false;
                if (!left) return true;
                for (auto &t : tok)
                    if (!self(self, p + t, left - 1)) return false;
                return true;
            };
            if (item == 0) {
                return rec(rec, "", 3);
            }
            string p;
            long k = item - 1;
            for (int i = 0; i < 4; i++) p += tok[size_t(k % long(tok.size()))], k /= long(tok.size());
            return rec(rec, p, len - 4);
        });
        c.bounds.push_back("all texts of up to " + std::to_string(len) + " tokens of / Sys S 0 1 as paths, with 20 operations each (and in documents and sequences up to 7)");
    }
    // (2) parts over more names
    {
        const vector<string> part{"Sys", "S", "0", "1", "2", "3", "", "1x", "x1", "-1", "+1", "01", "-0", "0x0", "1.0", ".", "..", "s", "sys", "SysS", "S0", "*",
                                  "18446744073709551616", "18446744073709551617", "4294967296", "ParameterBlock", "IntegerParameter", "Subsystem", "ParameterArray", "BitParameter", "SystemClass",
                                  "S\\0", "\xc3\xa9", "0,1"};
        int depth = c.thorough ? 6 : 5;
        // three leading names of the structure, then anything
        long first = long(part.size()), n = first * first;
        c.items_("parts", n, [&](Ctx &x, long item) {
            string lead = "/" + part[size_t(item / first)] + "/" + part[size_t(item % first)];
            Res v = resolve(*W.S, lead);
            bench().documents = true;
            auto rec = [&](auto &&self, const string &p, int left, int wrong) -> bool {
                if (!bench().tryPath(x, p)) return false;
                if (!left || wrong > 1) return true;
                for (auto &t : part) {
                    string q = p + "/" + t;
                    if (!self(self, q, left - 1, resolve(*W.S, q).k == Res::BAD ? wrong + 1 : 0)) return false;
                }
                return true;
            };
            return rec(rec, lead, depth - 2, v.k == Res::BAD);
        });
        c.bounds.push_back("all paths of up to " + std::to_string(depth) + " parts of " + std::to_string(part.size()) +
                           " (names, kinds, ways to write numbers, overflowing ones), at most two wrong ones at the end");
    }
    // (2b) indices far out of an array: the first ones, and those that any width of number would
    // bring back into it
    {
        vector<string> arrays;
        for (auto &n : W.S->nodes)
            if (n.isParam() && n.len) arrays.push_back(n.path);
        vector<string> idx;
        int plain = c.thorough ? 70000 : 1100;
        for (int i = 0; i < plain; i++) idx.push_back(std::to_string(i));
        for (int k = 8; k <= 80; k++)
            for (int d = -2; d <= 4; d++)
                for (int mul : {1, 3}) {
                    // (__int128 holds them all)
                    unsigned __int128 v = ((unsigned __int128)mul << k) + (unsigned __int128)(__int128)d;
                    string t;
                    for (; v; v /= 10) t.insert(t.begin(), char('0' + int(v % 10)));
                    idx.push_back(t);
                    idx.push_back("-" + t);
                }
        const long slice = 100;
        long per = (long(idx.size()) + slice - 1) / slice;
        c.items_("indices", long(arrays.size()) * per, [&](Ctx &x, long item) {
            bench().documents = true;
            for (long i = item % per * slice; i < std::min<long>(long(idx.size()), (item % per + 1) * slice); i++)
                if (!bench().tryPath(x, arrays[size_t(item / per)] + "/" + idx[size_t(i)])) return false;
            return true;
        });
        c.bounds.push_back("indices of arrays up to " + std::to_string(plain) + " and around all m*2^k, m in {1,3}, k in 8..80");
    }
    // (3) histories of names
    for (char chan : {'C', 'A'}) {
        for (int kind = 0; kind < 3; kind++) {
            WB b(string("names") + chan + std::to_string(kind));
            Dom &d = b.dom("A", {"/Sys/A/x"});
            b.conf(d, "k", b.rule(rAll({b.is("C1", "a")})), 1);
            b.conf(d, "l", b.rule(rAll({})), 2);
            Dom &e = b.dom("B", {"/Sys/B/y"});
            b.conf(e, "k", b.rule(rAll({b.is("C1", "b")})), 3);
            World w = b.w;
            w.chan = chan;
            w.prefix = {{"setTuningMode", "on"}};
            Ops ops;
            vector<string> names = kind == 0 ? vector<string>{"A", "B", "C", ""}
                                   : kind == 1 ? vector<string>{"A", "a", "A/B", "ConfigurableDomain"}
                                               : vector<string>{"A", "B", "<&'>\"", "A B"};
            vector<string> confs = kind == 0 ? vector<string>{"k", "l", "m", ""}
                                   : kind == 1 ? vector<string>{"k", "K", "k/l", "Configuration"}
                                               : vector<string>{"k", "l", "<&'>\"", "k l"};
            for (auto &n : names) {
                ops.push_back({"createDomain", n});
                ops.push_back({"deleteDomain", n});
                for (auto &q : names) {
                    ops.push_back({"renameDomain", n, q});
                    ops.push_back({"!xas", n, q});
                    ops.push_back({"!xas", n, q, "overwrite"});
                }
                for (auto &k : confs) {
                    if (n != "A" && n != names[1]) continue;
                    ops.push_back({"createConfiguration", n, k});
                    ops.push_back({"deleteConfiguration", n, k});
                    for (auto &q : confs) {
                        ops.push_back({"renameConfiguration", n, k, q});
                        if (n == "A") ops.push_back({"!xkas", n, k, q});
                    }
                }
            }
            ops = ops + Ops{{"deleteAllDomains"}, {"!xa"}, {"addElement", "B", "/Sys/A/c"}, {"splitDomain", "B", "/Sys/A/c"}, {"restoreConfiguration", "A", "k"}};
            c.explore(w, allOps(ops), c.thorough ? 4 : 3);
        }
    }
    big(c, "P23");
    return c.finish("model_checking", "no path led to another element or was refused wrongly; names stay unique");
}
static Reg r23("P23", p23);
