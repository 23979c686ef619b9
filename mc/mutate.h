// Every XML document one edit away from a given one
#pragma once
#include "import.h"
#include "xmlmini.h"
namespace {
typedef vector<size_t> Path;
void paths(const XNode &n, Path p, vector<Path> &out)
{
    out.push_back(p);
    for (size_t i = 0; i < n.kids.size(); i++) {
        p.push_back(i);
        paths(n.kids[i], p, out);
        p.pop_back();
    }
}
XNode &at(XNode &n, const Path &p, size_t upto)
{
    XNode *x = &n;
    for (size_t i = 0; i < upto; i++) x = &x->kids[p[i]];
    return *x;
}
XNode mk(const string &s)
{
    XNode n;
    if (!XParser::parse(s, n)) abort();
    return n;
}
bool isParamTag(const string &t) { return t.size() > 9 && t.compare(t.size() - 9, 9, "Parameter") == 0; }

// every document one edit away; level 0: small alphabets, 1: full ones, 2: and grafts
struct Alpha
{
    vector<string> tags, vals, texts;
    vector<XNode> smalls;
};
const Alpha &alpha(int level)
{
    static const XNode bogus = mk("<Bogus/>"), conf = mk("<Configuration Name=\"zz\"/>"),
                       comp = mk("<CompoundRule Type=\"Any\"/>"),
                       crit = mk("<SelectionCriterionRule SelectionCriterion=\"C1\" MatchesWhen=\"Is\" Value=\"a\"/>"),
                       dom = mk("<ConfigurableDomain Name=\"zz\"><Configurations/><ConfigurableElements/></ConfigurableDomain>"),
                       el = mk("<ConfigurableElement Path=\"/Sys/B/z\"/>");
    static const Alpha tiny{{"Configuration", "CompoundRule", "ConfigurableElement", "Bogus"},
                            {"", "zz", "/Sys/B/z", "f1"},
                            {"", "3", "3 4", "300", "x"},
                            {bogus, conf, comp, crit, el}};
    static const Alpha full{
        {"ConfigurableDomains", "ConfigurableDomain", "Configurations", "Configuration", "CompoundRule",
         "SelectionCriterionRule", "ConfigurableElements", "ConfigurableElement", "Settings", "ParameterBlock",
         "Component", "Subsystem", "SystemClass", "IntegerParameter", "BooleanParameter", "BitParameter",
         "BitParameterBlock", "StringParameter", "Bogus", "configuration"},
        {"", "a", "f1", "f1|f2", "f2|", "zz", "C1", "C2", "c1", "D1", "D2", "x", "y", "Is", "IsNot", "Includes",
         "Excludes", "includes", "All", "Any", "all", "None", "true", "false", "2", "0", "Sys", "/", "/Sys", "/Sys/",
         "/Sys/A", "/Sys/B/z", "/Sys/B/z/", "/Sys//B/z", "Sys/B/z", "/Sys/A/c/n/b", "/Sys/A/c/n/b/lo", "/Sys/A/c",
         "/Sys/Nope", "/Sys/B/z/0", "/Sis/B", "Raw", "Real", "<none>", "<none>|f1", " D1"},
        {"", " ", "0", "1", "-1", "100", "101", "255", "256", "65535", "65536", "15", "16", "0x1", "0x100", "0xFFF",
         "+5", " 5", "5 ", "5x", "abc", "1.5", "1e1", "3 4", "3,4", "3 4 5", "3 256", "256 3", "3 x",
         "99999999999999999999", "--1", "0x", "007", "-128", "-129", "127", "128", "32767", "-32769", "2147483648",
         "-2147483648", "4294967295", "4294967296", "0xFFFFFFFF", "0xffff", "0.0625", "-8", "7.9375", "8", "-8.1",
         "3.4e38", "3.5e38", "nan", "inf", "true", "zero", "neg", "on", "one", "min", "0123456789ab",
         "0123456789abc"},
        {bogus, conf, comp, crit, dom, mk("<ConfigurableElement Path=\"/Sys/A\"/>"), el, mk("<Configurations/>"),
         mk("<ConfigurableElements/>"), mk("<Settings/>"), mk("<IntegerParameter Name=\"z\">1</IntegerParameter>"),
         mk("<ParameterBlock Name=\"n\"/>")}};
    return level ? full : tiny;
}
[[maybe_unused]] void mutate(const XNode &D, int level, vector<XNode> &out)
{
    auto &al = alpha(level);
    auto &tags = al.tags, &vals = al.vals, &texts = al.texts;
    auto &smalls = al.smalls;
    bool full = level > 1;
    vector<Path> ps;
    paths(D, {}, ps);
    auto emit = [&](XNode n) { out.push_back(std::move(n)); };
    for (auto &p : ps) {
        XNode c;
        const XNode &n = at(const_cast<XNode &>(D), p, p.size());
        if (!p.empty()) {
            size_t i = p.back(), up = p.size() - 1;
            c = D;
            auto &k = at(c, p, up).kids;
            k.erase(k.begin() + long(i));
            emit(c);
            c = D;
            auto &k2 = at(c, p, up).kids;
            k2.insert(k2.begin() + long(i), XNode(k2[i]));
            emit(c);
            if (i + 1 < at(const_cast<XNode &>(D), p, up).kids.size()) {
                c = D;
                auto &k3 = at(c, p, up).kids;
                std::swap(k3[i], k3[i + 1]);
                emit(c);
            }
            // unwrap: replaced by its children
            if (!n.kids.empty()) {
                c = D;
                auto &k4 = at(c, p, up).kids;
                auto kids = k4[i].kids;
                k4.erase(k4.begin() + long(i));
                k4.insert(k4.begin() + long(i), kids.begin(), kids.end());
                emit(c);
            }
            for (auto &s : smalls) {
                c = D;
                auto &k5 = at(c, p, up).kids;
                k5.insert(k5.begin() + long(i), s);
                emit(c);
            }
        }
        for (auto &s : smalls) {
            c = D;
            at(c, p, p.size()).kids.push_back(s);
            emit(c);
        }
        for (auto &t : tags)
            if (t != n.tag) {
                c = D;
                at(c, p, p.size()).tag = t;
                emit(c);
            }
        for (size_t a = 0; a < n.attrs.size(); a++) {
            c = D;
            auto &as = at(c, p, p.size()).attrs;
            as.erase(as.begin() + long(a));
            emit(c);
            for (auto &v : vals)
                if (v != n.attrs[a].second) {
                    c = D;
                    at(c, p, p.size()).attrs[a].second = v;
                    emit(c);
                }
        }
        auto addAttr = [&](const char *k, vector<string> vs) {
            if (n.attr(k)) return;
            for (auto &v : vs) {
                c = D;
                at(c, p, p.size()).attrs.push_back({k, v});
                emit(c);
            }
        };
        if (n.tag == "ConfigurableDomain")
            addAttr("SequenceAware", !level ? vector<string>{"true", "yes"} : vector<string>{"0", "1", "true", "false", "TRUE", "FALSE", "True", "2", "yes", "", " true"});
        if (isParamTag(n.tag)) {
            if (level) addAttr("ValueSpace", {"Raw", "Real"});
            for (auto &t : texts)
                if (t != n.text) {
                    c = D;
                    at(c, p, p.size()).text = t;
                    emit(c);
                }
        } else if (full) {
            c = D;
            at(c, p, p.size()).text = "junk";
            emit(c);
        }
        // grafts: the node replaced by any other node of the document
        if (full && !p.empty())
            for (auto &q : ps) {
                bool related = true;
                for (size_t i = 0; i < std::min(p.size(), q.size()); i++)
                    if (p[i] != q[i]) related = false;
                if (related) continue;
                c = D;
                at(c, p, p.size()) = at(const_cast<XNode &>(D), q, q.size());
                emit(c);
            }
    }
}
} // namespace
