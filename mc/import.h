// Independent reading of settings documents (the oracle of P09 and P16).
#pragma once
#include "real.h"
#include <libxml/parser.h>
#include <libxml/tree.h>

enum Verdict { V_ACCEPT, V_REFUSE, V_GRAY, V_WILD };
// ACCEPT: taken exactly as read; REFUSE: refused; GRAY: either one (if accepted, as read);
// WILD: either one (if accepted, the resulting domains are not judged)
struct Reading
{
    Verdict v = V_ACCEPT;
    bool malformed = false; // not XML at all
    string why;
    vector<Dom> doms;
    void refuse(const string &w)
    {
        if (v != V_REFUSE) v = V_REFUSE, why = w;
    }
    void gray(const string &w)
    {
        if (v == V_ACCEPT) v = V_GRAY, why = w;
    }
    void wild(const string &w)
    {
        if (v == V_ACCEPT || v == V_GRAY) v = V_WILD, why = w;
    }
};
inline string writeNode(const XNode &n)
{
    string r = "<" + n.tag;
    for (auto &a : n.attrs) r += " " + a.first + "=\"" + xmlEsc(a.second) + "\"";
    if (n.kids.empty() && n.text.empty()) return r + "/>";
    r += ">" + xmlEsc(n.text);
    for (auto &k : n.kids) r += writeNode(k);
    return r + "</" + n.tag + ">";
}
inline void fromLib(xmlNodePtr x, XNode &n)
{
    n.tag = (const char *)x->name;
    for (xmlAttrPtr a = x->properties; a; a = a->next) {
        xmlChar *v = xmlGetProp(x, a->name);
        n.attrs.push_back({(const char *)a->name, v ? (const char *)v : ""});
        xmlFree(v);
    }
    for (xmlNodePtr k = x->children; k; k = k->next) {
        if (k->type == XML_ELEMENT_NODE) {
            n.kids.emplace_back();
            fromLib(k, n.kids.back());
        } else if (k->type == XML_TEXT_NODE || k->type == XML_CDATA_SECTION_NODE)
            n.text += (const char *)k->content;
        else if (k->type == XML_ENTITY_REF_NODE)
            n.text += "&";
    }
}
inline bool libParse(const string &doc, XNode &n)
{
    xmlDocPtr d = xmlReadMemory(doc.data(), int(doc.size()), "", nullptr,
                                XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET);
    if (!d) return false;
    xmlNodePtr r = xmlDocGetRootElement(d);
    bool ok = r != nullptr;
    if (ok) fromLib(r, n);
    xmlFreeDoc(d);
    return ok;
}

struct Reader
{
    const Model &m;
    const Structure &S;
    const State &live;
    bool withSettings;
    Reading R;
    bool fresh; // nothing is live yet: what the document does not tell is unset
    Reader(const Model &mm, const State &l, bool ws, bool f = false) : m(mm), S(mm.S), live(l), withSettings(ws), fresh(f) {}

    static const char *paramTag(const PType &t)
    {
        static const char *tags[] = {"BooleanParameter", "IntegerParameter", "EnumParameter",
                                     "StringParameter", "BitParameter", "FixedPointParameter",
                                     "FloatingPointParameter"};
        return tags[t.k];
    }
    static string nodeTag(const Node &d)
    {
        return d.kind == "P" ? paramTag(d.t) : d.kind == "BB" ? "BitParameterBlock"
               : d.kind == "SUB" ? "Subsystem" : d.kind == "SYS" ? "SystemClass" : "ParameterBlock";
    }
    bool blank(const string &t) const { return t.find_first_not_of(" \t\r\n") == string::npos; }

    bool rule(const XNode &x, Rule &r)
    {
        if (!blank(x.text)) R.gray("text in a rule");
        if (x.tag == "CompoundRule") {
            r.comp = true;
            auto t = x.attr("Type");
            if (!t)
                R.gray("compound rule without a type"), r.all = false;
            else if (*t == "All" || *t == "Any")
                r.all = *t == "All";
            else
                return R.refuse("compound rule type '" + *t + "'"), false;
            for (auto &k : x.kids) {
                r.kids.emplace_back();
                if (!rule(k, r.kids.back())) return false;
            }
            return true;
        }
        if (x.tag != "SelectionCriterionRule") return R.refuse("<" + x.tag + "> in a rule"), false;
        if (!x.kids.empty()) R.gray("content in a criterion rule");
        r.comp = false;
        r.crit = S.critIdx(x.at("SelectionCriterion"));
        if (r.crit < 0) return R.refuse("criterion '" + x.at("SelectionCriterion") + "'"), false;
        auto &c = S.crits[r.crit];
        string mw = x.at("MatchesWhen");
        r.mw = -1;
        for (int k = 0; k < 4; k++)
            if (mw == mwName(k)) r.mw = k;
        if (r.mw < 0 || (r.mw >= M_INC && !c.incl)) return R.refuse("verb '" + mw + "'"), false;
        string v = x.at("Value");
        r.val = 0, r.valName = "";
        auto look = [&](const string &n) {
            for (auto &p : c.vals)
                if (p.first == n) {
                    r.val |= p.second;
                    return true;
                }
            return false;
        };
        if (!c.incl) {
            if (!look(v)) return R.refuse("value '" + v + "'"), false;
            r.valName = v;
            return true;
        }
        if (v != "<none>") {
            auto parts = splitWs(v, "|");
            if (parts.empty() || size_t(std::count(v.begin(), v.end(), '|')) + 1 != parts.size())
                R.gray("empty part in a set of values");
            for (auto &p : parts)
                if (!look(p)) return R.refuse("value '" + v + "'"), false;
        }
        std::map<string, int> byName;
        for (auto &p : c.vals) byName[p.first] = p.second;
        for (auto &p : byName)
            if (r.val & p.second) r.valName += (r.valName.empty() ? "" : "|") + p.first;
        if (r.valName.empty()) r.valName = "<none>";
        return true;
    }
    bool content(const XNode &x, int n, bool &raw, vector<i64> &out)
    {
        const Node &d = S.nodes[n];
        string want = nodeTag(d);
        if (x.tag != want && !(want == "ParameterBlock" && x.tag == "Component"))
            return R.refuse("<" + x.tag + "> instead of " + want), false;
        if (x.at("Name") != d.name) return R.refuse("'" + x.at("Name") + "' instead of " + d.name), false;
        if (d.kind == "P") {
            if (d.t.k == T_FIX || d.t.k == T_FLT) {
                auto vs = x.attr("ValueSpace");
                raw = vs && *vs == "Raw";
                if (vs && *vs != "Raw" && *vs != "Real") R.gray("value space '" + *vs + "'");
            } else if (x.attr("ValueSpace"))
                R.gray("value space of a type without");
            if (!x.kids.empty()) {
                R.wild("content in a parameter");
                for (int l = d.leaf0; l < d.leaf1; l++) out.push_back(0);
                return true;
            }
            if (!d.len) {
                i64 v = 0;
                if (!Structure::parse(d.t, x.text, v, raw))
                    return R.refuse("value '" + x.text + "' of " + d.path), false;
                out.push_back(v);
                return true;
            }
            auto toks = splitWs(x.text, " \t\n\r\v\f,");
            if (int(toks.size()) > d.len) return R.refuse("too many values for " + d.path), false;
            for (auto &t : toks) {
                i64 v = 0;
                if (!Structure::parse(d.t, t, v, raw)) return R.refuse("value '" + t + "' of " + d.path), false;
                out.push_back(v);
            }
            if (int(toks.size()) < d.len) R.wild("fewer values than elements");
            for (int k = int(toks.size()); k < d.len; k++) out.push_back(0);
            return true;
        }
        if (!blank(x.text)) R.gray("text in a block");
        if (x.kids.size() != d.kids.size()) return R.refuse("children of " + d.path), false;
        for (size_t k = 0; k < x.kids.size(); k++)
            if (!content(x.kids[k], d.kids[k], raw, out)) return false;
        return true;
    }
    bool domain(const XNode &x, Dom &D)
    {
        if (x.tag != "ConfigurableDomain") return R.refuse("<" + x.tag + "> as a domain"), false;
        D.name = x.at("Name");
        if (D.name.empty()) return R.refuse("domain without a name"), false;
        if (auto a = x.attr("SequenceAware")) {
            static const std::set<string> t{"1", "true", "TRUE"}, f{"0", "false", "FALSE"};
            if (!t.count(*a) && !f.count(*a)) return R.refuse("SequenceAware '" + *a + "'"), false;
            D.aware = t.count(*a) > 0;
        }
        const XNode *cs = nullptr, *es = nullptr, *st = nullptr;
        int last = 0;
        if (!blank(x.text)) R.gray("text in a domain");
        for (auto &k : x.kids) {
            int o = 0;
            if (k.tag == "Configurations") {
                if (cs) R.wild("second Configurations");
                else cs = &k;
                o = 1;
            } else if (k.tag == "ConfigurableElements") {
                if (es) R.wild("second ConfigurableElements");
                else es = &k;
                o = 2;
            } else if (k.tag == "Settings") {
                if (st) R.wild("second Settings");
                else st = &k;
                o = 3;
            } else
                R.gray("<" + k.tag + "> in a domain");
            if (o && o < last) R.gray("sections out of order");
            last = o ? o : last;
        }
        if (!cs) return R.refuse("no Configurations"), false;
        if (!es) return R.refuse("no ConfigurableElements"), false;
        if (!blank(cs->text)) R.gray("text in Configurations");
        for (auto &k : cs->kids) {
            if (k.tag != "Configuration") return R.refuse("<" + k.tag + "> as a configuration"), false;
            Conf c;
            c.name = k.at("Name");
            if (c.name.empty()) return R.refuse("configuration without a name"), false;
            if (m.conf(D, c.name) >= 0) return R.refuse("configuration repeated"), false;
            if (!blank(k.text)) R.gray("text in a configuration");
            if (k.kids.size() > 1) return R.refuse("more than one rule"), false;
            if (k.kids.size() == 1) {
                if (k.kids[0].tag != "CompoundRule") return R.refuse("<" + k.kids[0].tag + "> as root rule"), false;
                Rule r;
                if (!rule(k.kids[0], r)) return false;
                c.rule = m.R.add(S, r);
            }
            D.confs.push_back(c);
        }
        if (!blank(es->text)) R.gray("text in ConfigurableElements");
        for (auto &k : es->kids) {
            if (k.tag != "ConfigurableElement") R.gray("<" + k.tag + "> as an element");
            if (!k.kids.empty() || !blank(k.text)) R.gray("content in an element reference");
            string p = k.at("Path");
            int el = m.findNode(p);
            if (el < 0 && !p.empty() && p[0] == '/') {
                auto items = splitWs(p, "/");
                el = m.findNode("/" + join(items, "/"));
                if (el >= 0) R.gray("path with empty parts");
            }
            if (el < 0) return R.refuse("element '" + p + "'"), false;
            if (m.owns(D, el)) return R.refuse("element owned twice"), false;
            vector<int> keep;
            for (int e : D.els)
                if (!S.isAncestorOrSelf(el, e)) keep.push_back(e);
            D.els = keep;
            D.els.push_back(el);
        }
        vector<vector<bool>> valid(D.confs.size(), vector<bool>(D.els.size(), false));
        for (auto &c : D.confs)
            for (int e : D.els) {
                c.seq.push_back(m.areaOf(live, e));
                c.seq.back().unset = fresh;
            }
        auto elIdx = [&](int e) { return size_t(std::find(D.els.begin(), D.els.end(), e) - D.els.begin()); };
        if (withSettings && st) {
            std::set<int> seenConf;
            if (!blank(st->text)) R.gray("text in Settings");
            for (auto &k : st->kids) {
                if (k.tag != "Configuration") R.gray("<" + k.tag + "> in Settings");
                int ci = m.conf(D, k.at("Name"));
                if (ci < 0) return R.refuse("settings of unknown configuration '" + k.at("Name") + "'"), false;
                if (!seenConf.insert(ci).second) R.wild("settings repeated");
                if (!blank(k.text)) R.gray("text in Settings");
                Conf &c = D.confs[ci];
                vector<Area> front;
                std::set<int> seen;
                for (auto &a : k.kids) {
                    if (a.tag != "ConfigurableElement") R.gray("<" + a.tag + "> in settings");
                    int el = m.findNode(a.at("Path"));
                    if (el < 0 || elIdx(el) == D.els.size())
                        return R.refuse("settings of foreign element '" + a.at("Path") + "'"), false;
                    if (!seen.insert(el).second) return R.refuse("element settings repeated"), false;
                    if (!blank(a.text)) R.gray("text in settings");
                    if (a.kids.size() != 1) return R.refuse("not one content"), false;
                    bool raw = false;
                    Area ar{el, {}};
                    if (!content(a.kids[0], el, raw, ar.v)) return false;
                    front.push_back(ar);
                    valid[ci][elIdx(el)] = true;
                }
                for (auto &a : c.seq)
                    if (!seen.count(a.el)) front.push_back(a);
                c.seq = front;
            }
        }
        for (size_t e = 0; e < D.els.size(); e++) {
            const Area *src = nullptr;
            for (size_t c = 0; c < D.confs.size() && !src; c++)
                if (valid[c][e])
                    for (auto &a : D.confs[c].seq)
                        if (a.el == D.els[e]) src = &a;
            if (!src) continue;
            Area v = *src;
            for (size_t c = 0; c < D.confs.size(); c++)
                if (!valid[c][e])
                    for (auto &a : D.confs[c].seq)
                        if (a.el == D.els[e]) a.v = v.v, a.unset = false;
        }
        return true;
    }
    Reading all(const XNode &x)
    {
        if (x.tag != "ConfigurableDomains") R.refuse("root <" + x.tag + ">");
        else if (x.at("SystemClassName") != S.sys) R.refuse("system '" + x.at("SystemClassName") + "'");
        else {
            if (!blank(x.text)) R.gray("text in domains");
            State tmp;
            for (auto &k : x.kids) {
                Dom d;
                if (!domain(k, d)) break;
                if (m.dom(tmp, d.name) >= 0) {
                    R.refuse("domain repeated");
                    break;
                }
                tmp.doms.push_back(d);
            }
            R.doms = tmp.doms;
        }
        return R;
    }
    Reading one(const XNode &x)
    {
        Dom d;
        if (domain(x, d)) R.doms.push_back(d);
        return R;
    }
};
// reads a document of either kind from its text
inline Reading readDoc(const Model &m, const State &live, const string &doc, bool single, bool withSettings, bool fresh = false)
{
    XNode x;
    Reader r(m, live, withSettings, fresh);
    if (!libParse(doc, x)) {
        r.R.malformed = true;
        r.R.refuse("not XML");
        return r.R;
    }
    return single ? r.one(x) : r.all(x);
}
