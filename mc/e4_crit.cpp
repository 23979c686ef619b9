// P18: criterion types and states. All sequences of value additions on bare
// types, and all histories of state changes and applications on a system.
#include "drivers.h"
#include "worldset.h"
#include "xmlmini.h"
#include <climits>
#include <set>

namespace
{
typedef CParameterMgrPlatformConnector Conn;
struct Add
{
    int num;
    string name;
    string text() const { return "add " + std::to_string(num) + " '" + name + "'"; }
};
struct TypeModel
{
    bool inc;
    std::map<string, int> m;
    explicit TypeModel(bool i) : inc(i)
    {
        if (i) m["none"] = 0;
    }
    // 1 accepted, 0 refused, -1 either
    int verdict(const Add &a) const
    {
        if (inc) {
            if (a.num == INT_MIN) return -1; // the sign bit: not settled
            if (a.num <= 0 || (a.num & (a.num - 1))) return 0;
        }
        if (m.count(a.name)) return 0;
        for (auto &x : m)
            if (x.second == a.num) return 0;
        // names which could not be told apart in a set
        if (inc && (a.name.empty() || a.name == "<none>" || a.name.find('|') != string::npos)) return 0;
        if (a.name.empty()) return -1;
        return 1;
    }
    // 1 parses (to v), 0 refused, -1 either
    int parse(const string &t, int &v) const
    {
        v = 0;
        if (!inc) {
            auto it = m.find(t);
            if (it == m.end()) return 0;
            v = it->second;
            return 1;
        }
        if (t == "<none>") return 1;
        bool odd = t.empty();
        size_t b = 0;
        for (;;) {
            size_t e = t.find('|', b);
            string w = t.substr(b, e == string::npos ? string::npos : e - b);
            if (w.empty()) odd = true;
            else {
                auto it = m.find(w);
                if (it == m.end()) return 0;
                v |= it->second;
            }
            if (e == string::npos) break;
            b = e + 1;
        }
        return odd ? -1 : 1;
    }
};
const char *kLit[] = {"a", "b", "c", "A", "none", "<none>", "", "a|b", "|", " a", "a b", "x,y", "0"};
struct Pair
{
    ISelectionCriterionTypeInterface *t;
    TypeModel m;
};
vector<string> &texts()
{
    static vector<string> r;
    if (r.empty()) {
        vector<string> w{"a", "b", "c", "A", "none", "<none>", " a", "a b", "x,y", "0", "zz", "", "|"};
        for (auto &x : w) r.push_back(x);
        for (auto &x : w)
            for (auto &y : w) r.push_back(x + "|" + y);
        for (auto &x : {"a", "b", "none", "zz"})
            for (auto &y : {"a", "b", "c", "<none>"})
                for (auto &z : {"a", "c", "A", "zz"}) r.push_back(string(x) + "|" + y + "|" + z);
    }
    return r;
}
vector<int> &numbers()
{
    static vector<int> r{0, 1, 2, 3, 4, 5, 7, 8, 1 << 30, -1, INT_MAX, INT_MIN, -2};
    return r;
}
// everything the type answers
bool agree(Pair &p, Ctx &x, const string &when, bool full)
{
    auto bad = [&](const string &w) { return x.violate(when + ": " + w); };
    if (p.t->isTypeInclusive() != p.m.inc) return bad("kind of the type changed");
    for (auto &e : p.m.m) {
        string l;
        if (!p.t->getLiteralValue(e.second, l) || l != e.first)
            return bad("name of " + std::to_string(e.second) + " is '" + l + "', expected '" + e.first + "'");
    }
    for (int n : numbers()) {
        string l;
        bool has = false;
        for (auto &e : p.m.m) has |= e.second == n;
        if (p.t->getLiteralValue(n, l) != has) return bad(std::to_string(n) + (has ? " has no name" : " has the name " + l));
    }
    size_t k = 0;
    for (auto &t : texts()) {
        if (!full && ++k > 13) break;
        int want, got = -99;
        int v = p.m.parse(t, want);
        bool ok = p.t->getNumericalValue(t, got);
        if (v >= 0 && ok != (v == 1)) return bad("'" + t + "' " + (ok ? "understood as " + std::to_string(got) : "not understood"));
        if (ok && got != want) return bad("'" + t + "' understood as " + std::to_string(got) + ", expected " + std::to_string(want));
    }
    // (asked for without being judged: what is not declared yet must not be remembered as such)
    for (int n : numbers()) (void)p.t->getFormattedState(n);
    for (auto t : {"a|b", "b|a", "a|c", "none|a", "a|<none>"}) {
        int got;
        (void)p.t->getNumericalValue(t, got);
    }
    // sets of values print and parse back
    vector<int> vals;
    for (auto &e : p.m.m) vals.push_back(e.second);
    size_t n = vals.size();
    for (size_t mask = 0; mask < (p.m.inc ? size_t(1) << n : n); mask++) {
        int v = 0;
        if (p.m.inc)
            for (size_t b = 0; b < n; b++) v |= mask >> b & 1 ? vals[b] : 0;
        else
            v = vals[mask];
        string t = p.t->getFormattedState(v);
        int got = -99;
        if (!p.m.inc && p.m.m.count("") && p.m.m[""] == v) continue; // has no printable name
        if (!p.t->getNumericalValue(t, got) || got != v)
            return bad(std::to_string(v) + " prints as '" + t + "' which reads back as " + std::to_string(got));
        // exactly the names of the set
        std::set<string> names, want;
        size_t at = 0;
        if (p.m.inc) {
            for (;;) {
                size_t e = t.find('|', at);
                names.insert(t.substr(at, e == string::npos ? e : e - at));
                if (e == string::npos) break;
                at = e + 1;
            }
            for (auto &e : p.m.m)
                if (e.second && (v & e.second) == e.second) want.insert(e.first);
            if (want.empty()) {
                want = names;
                if (t != "<none>" && t != "none") return bad("the empty set prints as '" + t + "'");
            }
        } else {
            names.insert(t);
            want.insert(p.m.m.size() ? t : "");
        }
        if (names != want) return bad(std::to_string(v) + " prints as '" + t + "'");
    }
    return true;
}
bool addStep(Pair &p, const Add &a, Ctx &x)
{
    string err;
    int v = p.m.verdict(a);
    bool ok = p.t->addValuePair(a.num, a.name, err);
    if (v >= 0 && ok != (v == 1)) return x.violate(a.text() + (ok ? " accepted" : " refused: " + err));
    if (!ok && err.empty()) return x.violate(a.text() + " refused without an error");
    if (ok) p.m.m[a.name] = a.num;
    return true;
}

void types(Checker &c)
{
    vector<Add> al;
    for (auto l : kLit)
        for (int n : {0, 1, 2, 3, 4, 1 << 30, -1, INT_MAX, INT_MIN}) {
            if (!c.thorough && (string(l) == "x,y" || string(l) == "c" || string(l) == "|" || n == 4 || n == INT_MAX)) continue;
            al.push_back({n, l});
        }
    vector<Add> small;
    for (auto l : {"a", "b", "none", "<none>", "a|b", ""})
        for (int n : {0, 1, 2, 3, 4}) small.push_back({n, l});
    auto run = [&](const string &name, const vector<Add> &A, int depth) {
        c.bounds.push_back(name + ": all sequences of " + std::to_string(depth) + " additions over " + std::to_string(A.size()) +
                           " (name, number) pairs, inclusive and exclusive");
        size_t k = A.size();
        c.items_(name, long(2 * k * k), [&, k, depth](Ctx &x, long it) {
            bool inc = it % 2;
            vector<size_t> ix{size_t(it / 2) / k, size_t(it / 2) % k};
            ix.resize(size_t(depth), 0);
            std::unique_ptr<Conn> pf;
            long n = 0;
            for (;;) {
                if (n++ % 256 == 0) pf.reset(new Conn("/nonexistent"));
                Pair p{pf->createSelectionCriterionType(inc), TypeModel(inc)};
                Pair other{pf->createSelectionCriterionType(!inc), TypeModel(!inc)};
                x.note(inc ? "inclusive type" : "exclusive type");
                for (size_t d = 0; d < ix.size(); d++) {
                    x.append("\n" + A[ix[d]].text());
                    if (!addStep(p, A[ix[d]], x)) return false;
                    if (!agree(p, x, "after " + A[ix[d]].text(), d + 1 == ix.size())) return false;
                    x.sh->transitions++;
                }
                if (!agree(other, x, "another type", false)) return false;
                x.sh->states++, x.sh->validated++;
                size_t q = ix.size();
                while (q > 2 && ix[q - 1] + 1 == k) ix[--q] = 0;
                if (q == 2) return true;
                ix[q - 1]++;
            }
        });
    };
    run("additions", al, c.thorough ? 4 : 3);
    run("fewadditions", small, c.thorough ? 5 : 4);
    // wide types: every bit, and many values
    c.bounds.push_back("wide types: all 31 bits and 40 values, every pair of bits printed and read back");
    c.items_("wide", 2, [&](Ctx &x, long it) {
        Conn pf("/nonexistent");
        bool inc = it;
        Pair p{pf.createSelectionCriterionType(inc), TypeModel(inc)};
        x.note(inc ? "wide inclusive" : "wide exclusive");
        for (int i = 0; i < (inc ? 31 : 40); i++) {
            string e;
            int n = inc ? 1 << i : i * 7 - 100;
            string l = "v" + std::to_string((i * 13) % 41);
            if (!p.t->addValuePair(n, l, e)) return x.violate("value " + std::to_string(n) + " refused: " + e);
            p.m.m[l] = n;
        }
        for (int i = 0; i < 31; i++)
            for (int j = 0; j < 31; j++) {
                int v = inc ? (1 << i) | (1 << j) : i * 7 - 100, got = 0;
                string t = p.t->getFormattedState(v);
                if (!p.t->getNumericalValue(t, got) || got != v) return x.violate(std::to_string(v) + " prints as " + t);
                x.sh->states++, x.sh->validated++, x.sh->transitions++;
            }
        return true;
    });
    // criteria sharing a type: independent states, values added late
    c.bounds.push_back("criteria: all histories of state changes and late additions on three criteria, two of one type");
    c.items_("sharedtype", 2 * 18 * 18, [&](Ctx &x, long it) {
        bool inc = it % 2;
        int lead[2] = {int(it / 2 % 18), int(it / 36)};
        int depth = c.thorough ? 5 : 4;
        vector<int> ix(size_t(depth), 0);
        ix[0] = lead[0], ix[1] = lead[1];
        for (;;) {
            Conn pf("/nonexistent");
            Pair p{pf.createSelectionCriterionType(inc), TypeModel(inc)}, q{pf.createSelectionCriterionType(!inc), TypeModel(!inc)};
            for (auto a : {Add{1, "a"}, Add{2, "b"}})
                if (!addStep(p, a, x) || !addStep(q, a, x)) return false;
            ISelectionCriterionInterface *k[3] = {pf.createSelectionCriterion("K0", p.t), pf.createSelectionCriterion("K1", p.t),
                                                  pf.createSelectionCriterion("K2", q.t)};
            int st[3] = {0, 0, 0};
            x.note(inc ? "inclusive K0 K1, exclusive K2" : "exclusive K0 K1, inclusive K2");
            for (int op : ix) {
                static const int vals[] = {0, 1, 2, 3, -1};
                if (op < 15) {
                    x.append("\nset K" + std::to_string(op / 5) + " " + std::to_string(vals[op % 5]));
                    k[op / 5]->setCriterionState(vals[op % 5]);
                    st[op / 5] = vals[op % 5];
                } else {
                    Add a[3] = {{4, "c"}, {4, "d"}, {8, "c"}};
                    x.append("\n" + a[op - 15].text());
                    if (!addStep(p, a[op - 15], x)) return false;
                }
                for (int i = 0; i < 3; i++) {
                    if (k[i]->getCriterionState() != st[i] || k[i]->getCriterionName() != "K" + std::to_string(i) ||
                        k[i]->getCriterionType() != (i < 2 ? p.t : q.t) || pf.getSelectionCriterion("K" + std::to_string(i)) != k[i])
                        return x.violate("criterion K" + std::to_string(i) + " has state " + std::to_string(k[i]->getCriterionState()) +
                                         ", expected " + std::to_string(st[i]));
                }
                x.sh->transitions++;
            }
            if (!agree(p, x, "at the end", false) || !agree(q, x, "at the end", false)) return false;
            if (pf.getSelectionCriterion("K3") || pf.getSelectionCriterion("")) return x.violate("a criterion that was not created");
            x.sh->states++, x.sh->validated++;
            size_t n = ix.size();
            while (n > 2 && ix[n - 1] + 1 == 18) ix[--n] = 0;
            if (n == 2) return true;
            ix[n - 1]++;
        }
    });
}
// what the listings say of the criteria
bool listed(Checker::Run &run, Ctx &x, const Op &after)
{
    const State &s = run.s;
    const Structure &S = *run.W.S;
    auto bad = [&](const string &w) { return x.violate("after " + Checker::opText(after) + ": " + w); };
    string csv = run.r->cmdv("listCriteria", {"CSV"}), xml = run.r->cmdv("listCriteria", {"XML"}), hum = run.r->cmdv("listCriteria");
    XNode n;
    bool okx = XParser::parse(xml, n);
    if (!okx) return bad("listCriteria XML is not well-formed");
    const XNode *root = &n;
    while (root->tag != "SelectionCriteria" && root->kids.size() == 1) root = &root->kids[0];
    for (size_t i = 0; i < S.crits.size(); i++) {
        const CritDef &d = S.crits[i];
        auto pc = run.r->pf->getSelectionCriterion(d.name);
        if (!pc || pc->getCriterionState() != s.crit[i]) return bad("state of " + d.name + " is not " + std::to_string(s.crit[i]));
        string want = pc->getCriterionType()->getFormattedState(s.crit[i]);
        // the printed state is the state, if it is in the type
        int back = -99;
        bool in = false;
        int all = 0;
        for (auto &v : d.vals) in |= v.second == s.crit[i], all |= v.second;
        if (d.incl) in = (s.crit[i] & ~all) == 0;
        if (in && (!pc->getCriterionType()->getNumericalValue(want, back) || back != s.crit[i]))
            return bad(d.name + " prints as " + want);
        if (csv.find("Criterion name: " + d.name + ", type kind: " + (d.incl ? "inclusive" : "exclusive") + ", current state: " + want + ",") ==
            string::npos)
            return bad("CSV listing: " + csv);
        size_t h = hum.find(d.name + ":");
        if (h == string::npos || hum.find("Current state = " + want, h) == string::npos) return bad("listing: " + hum);
        bool found = false;
        for (auto &k : root->kids)
            if (k.at("Name") == d.name) {
                found = true;
                if (k.at("Value") != want || k.at("Kind") != (d.incl ? "Inclusive" : "Exclusive")) return bad("XML listing: " + xml);
                std::map<string, int> got, exp;
                for (auto &v : k.kids) got[v.at("Literal")] = int(strtol(v.at("Numerical").c_str(), nullptr, 0));
                for (auto &v : d.vals) exp[v.first] = v.second;
                if (d.incl) got.erase("none");
                if (got != exp) return bad("XML listing: values of " + d.name);
            }
        if (!found) return bad("XML listing without " + d.name);
    }
    return true;
}
int p18(Checker &c)
{
    types(c);
    // histories on a system: states in and out of the type, applications, modes
    auto S = std::make_shared<Structure>("Sys", vector<ND>{sub("A", {u8("x", "Obj:A_x"), u8("v", "Obj:A_v")}), sub("B", {u8("y", "Obj:B_y")})},
                                         vector<CritDef>{{"C1", false, {{"a", 0}, {"b", 1}, {"c", -5}}}, {"C2", true, {{"f1", 1}, {"f2", 2}, {"top", 1 << 30}}}});
    struct V
    {
        const char *n;
        bool tuning, nosync;
    };
    for (auto v : {V{"histories", false, false}, V{"tuned", true, false}, V{"nosync", false, true}}) {
        WB b(v.n, S);
        Dom &d = b.dom("D", {"/Sys/A/x"});
        b.conf(d, "k1", b.rule(rAll({b.is("C1", "b")})), 1);
        b.conf(d, "k2", b.rule(rAny({rCrit(*S, "C2", M_INC, "f1|top")})), 2);
        b.conf(d, "k3", b.rule(rAll({rCrit(*S, "C1", M_ISNOT, "a"), rCrit(*S, "C2", M_EXC, "f2")})), 3);
        Dom &e = b.dom("E", {"/Sys/B"}, true);
        b.conf(e, "e1", b.rule(rAll({rCrit(*S, "C2", M_IS, "f2")})), 4);
        b.conf(e, "e2", b.rule(rAll({rCrit(*S, "C1", M_IS, "c"), rCrit(*S, "C2", M_ISNOT, "f1")})), 5);
        b.conf(e, "e3", b.rule(rAll({})), 6);
        Dom &f = b.dom("F", {"/Sys/A/v"});
        b.conf(f, "n1", b.rule(rAny({rCrit(*S, "C1", M_ISNOT, "b")})), 7);
        if (v.tuning) b.w.prefix = {{"setTuningMode", "on"}};
        if (v.nosync) b.w.prefix = {{"setAutoSync", "off"}};
        Ops ops{{"!apply"}};
        for (int k : {0, 1, -5, 2, INT_MAX}) ops.push_back({"!crit", "C1", std::to_string(k)});
        for (int k : {0, 1, 2, 1 << 30, (1 << 30) | 1, 3, 4, 5, -1}) ops.push_back({"!crit", "C2", std::to_string(k)});
        if (v.tuning) ops = ops + Ops{{"setTuningMode", "off"}, {"setTuningMode", "on"}};
        if (v.nosync) ops = ops + Ops{{"setAutoSync", "on"}, {"setAutoSync", "off"}, {"sync"}};
        int depth = c.thorough ? 5 : v.tuning || v.nosync ? 3 : 4;
        size_t k = ops.size();
        c.bounds.push_back(string(v.n) + ": all histories of " + std::to_string(depth) + " of " + std::to_string(k) + " operations");
        c.items_(v.n, long(k * k), [&](Ctx &x, long it) {
            vector<size_t> ix{size_t(it) / k, size_t(it) % k};
            ix.resize(size_t(depth), 0);
            Checker::Run run(b.w, x);
            if (!run.fresh(it == 0)) return false;
            for (;;) {
                // one instance runs all the histories: each continues the ones before
                if (strlen(x.sh->trace) > 60000 && !run.fresh(false)) return false;
                for (size_t d = 0; d < ix.size(); d++) {
                    if (!run.step(ops[ix[d]], d + 1 == ix.size() && ix[d] < 3)) return false;
                    if (d + 1 == ix.size() && !listed(run, x, ops[ix[d]])) return false;
                    x.sh->transitions++;
                }
                x.sh->states++, x.sh->validated++;
                size_t n = ix.size();
                while (n > 2 && ix[n - 1] + 1 == k) ix[--n] = 0;
                if (n == 2) return true;
                ix[n - 1]++;
            }
        });
    }
    return c.finish("exhaustive within bounds",
                    "all addition sequences on real types against an independent table; all histories of criterion changes against the "
                    "reference model, with every listing and reading of the states");
}
Reg r18("P18", p18);
} // namespace
