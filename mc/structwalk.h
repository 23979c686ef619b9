// Comparison of a started instance with an independent reading of its description
#pragma once
#include "mutate.h"
#include "structdoc.h"
namespace
{
bool sameNumber(const string &a, const string &b)
{
    char *e, *f;
    long double x = strtold(a.c_str(), &e), y = strtold(b.c_str(), &f);
    if (a.empty() || b.empty() || *e || *f) return false;
    return x == y || fabsl(x - y) <= 6e-8L * fabsl(y);
}
string cmpTree(const XNode &g, const SElem &e, const string &path)
{
    if (g.tag != e.tag || g.at("Name") != e.name)
        return path + ": exported as " + g.tag + " " + g.at("Name") + " instead of " + e.tag + " " + e.name;
    std::map<string, string> got, want = e.attrs;
    for (auto &a : g.attrs)
        if (a.first != "Name") got[a.first] = a.second;
    want.erase("!Type"), want.erase("!array");
    // a description may come from the type
    if (!want.count("Description")) got.erase("Description");
    for (auto &w : want) {
        auto it = got.find(w.first);
        if (it == got.end()) return path + ": no attribute " + w.first;
        bool same = it->second == w.second;
        if (!same && (e.tag == "FloatingPointParameter" || w.first == "Max")) {
            same = sameNumber(it->second, w.second);
        }
        if (!same) return path + ": attribute " + w.first + " is " + it->second + " instead of " + w.second;
        got.erase(it);
    }
    if (!got.empty()) return path + ": unexpected attribute " + got.begin()->first + "=" + got.begin()->second;
    vector<const XNode *> kids;
    for (auto &k : g.kids)
        if (k.tag != "ValuePair" && k.tag.find("Adaptation") == string::npos) kids.push_back(&k);
    for (size_t i = 0; i < std::max(kids.size(), e.kids.size()); i++) {
        if (i >= e.kids.size()) return path + ": has an element " + kids[i]->at("Name") + " too many";
        if (i >= kids.size()) return path + ": lacks its element " + e.kids[i].name;
        string r = cmpTree(*kids[i], e.kids[i], path + "/" + e.kids[i].name);
        if (!r.empty()) return r;
    }
    return "";
}
string hexBytes(const string &t)
{
    string r;
    std::istringstream is(t);
    string w;
    while (is >> w) r += char(strtoul(w.c_str(), nullptr, 16));
    return r;
}
string toHex(const string &b)
{
    string r;
    for (unsigned char c : b) {
        char t[8];
        snprintf(t, sizeof t, "%s0x%02X", r.empty() ? "" : " ", c);
        r += t;
    }
    return r;
}
// what the instance says of an element, against the description
bool g_tell = false;
string cmpProperties(const string &text, const SElem &e, const string &size)
{
    std::multimap<string, string> got;
    vector<std::pair<string, string>> pairs;
    std::istringstream is(text);
    string l;
    while (std::getline(is, l)) {
        size_t a = l.find_first_not_of(" \t-"), c = l.find(':');
        if (a == string::npos) continue;
        string w = l.substr(a);
        if (w.compare(0, 9, "Literal: ") == 0) {
            size_t q = w.rfind("\", Numerical: ");
            if (q == string::npos || w[9] != '"') return "value pair shown as " + l;
            pairs.push_back({w.substr(10, q - 10), w.substr(q + 14)});
            continue;
        }
        if (c == string::npos || c < a) return "line '" + l + "'";
        string v = l.substr(c + 1);
        size_t b = v.find_first_not_of(' '), z = v.find_last_not_of(' ');
        got.insert({l.substr(a, c - a), b == string::npos ? "" : v.substr(b, z - b + 1)});
    }
    std::map<string, string> want{{"Kind", e.shownKind()}};
    const string &t = e.tag;
    bool leaf = t.size() > 9 && t.compare(t.size() - 9, 9, "Parameter") == 0;
    if (!size.empty()) want["Total size"] = size + " byte(s)";
    auto at = [&](const char *n) { return e.attrs.count(n) ? e.attrs.at(n) : string(); };
    if (e.attrs.count("Description")) want["Description"] = at("Description");
    if (e.attrs.count("Unit")) want["Unit"] = at("Unit");
    if (leaf && t != "StringParameter" && t != "BitParameter") want["Scalar size"] = std::to_string(e.size) + " byte(s)";
    if (t == "IntegerParameter") want["Signed"] = at("Signed") == "true" ? "yes" : "no";
    if (t == "IntegerParameter" || t == "FloatingPointParameter") want["Min"] = at("Min"), want["Max"] = at("Max");
    if (t == "FixedPointParameter") want["Notation"] = "Q" + at("Integral") + "." + at("Fractional");
    if (t == "StringParameter") want["Max length"] = at("MaxLength");
    if (t == "BitParameter") want["Bit pos"] = at("Pos"), want["Bit size"] = at("Size"), want["Max"] = at("Max");
    if (e.len) want["Array length"] = std::to_string(e.len);
    if (!e.adaptation.empty()) {
        want["Type"] = e.adaptation;
        want["Offset"] = e.adapt.count("Offset") ? e.adapt.at("Offset") : "0";
        for (auto k : {"SlopeNumerator", "SlopeDenominator", "LogarithmBase", "FloorValue"})
            if (e.adapt.count(k)) want[k] = e.adapt.at(k);
    }
    for (auto &w : want) {
        auto n = got.count(w.first);
        if (n != 1) return w.first + " is shown " + std::to_string(n) + " times";
        const string &v = got.find(w.first)->second;
        if (v != w.second && !sameNumber(v, w.second)) return w.first + " is shown as '" + v + "' instead of '" + w.second + "'";
    }
    for (auto k : {"Description", "Unit", "Scalar size", "Signed", "Min", "Max", "Notation", "Max length", "Bit pos", "Bit size", "Array length", "Offset",
                   "SlopeNumerator", "SlopeDenominator", "LogarithmBase", "FloorValue"})
        if (got.count(k) && !want.count(k) && !(string(k) == "Description" || !e.adaptation.empty())) return string("unexpected ") + k;
    if (e.pairs.size() != pairs.size()) return "shows " + std::to_string(pairs.size()) + " value pairs";
    for (size_t i = 0; i < pairs.size(); i++)
        if (pairs[i].first != e.pairs[i].first || !sameNumber(pairs[i].second, e.pairs[i].second)) return "value pair shown as " + pairs[i].first + " = " + pairs[i].second;
    return "";
}
void leavesOf(const SElem &e, const string &p, vector<string> &r)
{
    if (e.tag.size() > 9 && e.tag.compare(e.tag.size() - 9, 9, "Parameter") == 0) r.push_back(p + " [" + e.shownKind() + "]");
    for (auto &k : e.kids) leavesOf(k, p + "/" + k.name, r);
}
bool childless(const SElem &e)
{
    if (e.kids.empty()) return e.tag.size() < 9 || e.tag.compare(e.tag.size() - 9, 9, "Parameter") != 0;
    for (auto &k : e.kids)
        if (childless(k)) return true;
    return false;
}
string cmpDetails(const XNode &g, const SElem &e, const string &p)
{
    vector<const XNode *> kids, pairs, ad;
    for (auto &k : g.kids) (k.tag == "ValuePair" ? pairs : k.tag.find("Adaptation") != string::npos ? ad : kids).push_back(&k);
    if (pairs.size() != e.pairs.size()) return p + ": " + std::to_string(pairs.size()) + " value pairs exported";
    for (size_t i = 0; i < pairs.size(); i++)
        if (pairs[i]->at("Literal") != e.pairs[i].first || !sameNumber(pairs[i]->at("Numerical"), e.pairs[i].second))
            return p + ": value pair exported as " + pairs[i]->at("Literal") + " = " + pairs[i]->at("Numerical");
    if (ad.size() != (e.adaptation.empty() ? 0u : 1u)) return p + ": " + std::to_string(ad.size()) + " adaptations exported";
    if (!ad.empty()) {
        if (ad[0]->tag != e.adaptation + "Adaptation" && ad[0]->at("Name") != e.adaptation) return p + ": a " + e.adaptation + " adaptation exported as " + ad[0]->tag;
        std::map<string, string> want, all{{"Offset", "0"}, {"SlopeNumerator", "1"}, {"SlopeDenominator", "1"}, {"LogarithmBase", "2.718281828459045"}};
        for (auto k : {"Offset", "SlopeNumerator", "SlopeDenominator", "LogarithmBase", "FloorValue"})
            if (e.adapt.count(k)) want[k] = e.adapt.at(k);
        for (auto &w : all) // an attribute left out means its default
            if (!want.count(w.first) && !ad[0]->at(w.first.c_str()).empty()) want.insert(w);
        for (auto &w : want)
            if (!sameNumber(ad[0]->at(w.first.c_str()), w.second)) return p + ": the adaptation's " + w.first + " is exported as '" + ad[0]->at(w.first.c_str()) + "' instead of '" + w.second + "'";
    }
    for (size_t i = 0; i < std::min(kids.size(), e.kids.size()); i++) {
        string r = cmpDetails(*kids[i], e.kids[i], p + "/" + e.kids[i].name);
        if (!r.empty()) return r;
    }
    return "";
}
struct Walk
{
    CParameterMgrFullConnector &pf;
    CommandHandlerInterface &ch;
    const StructDoc &d;
    bool strings = false, virt = false;
    std::map<string, std::pair<size_t, size_t>> range; // path -> offset, size within the system
    string all;                                        // bytes of the system
    string cmd(const char *c, vector<string> a, bool want = true)
    {
        string o;
        if (ch.process(c, a, o) != want) bad = string(c) + " " + join(a, " ") + (want ? " failed: " : " succeeded: ") + o;
        return o;
    }
    string bad;
    vector<const SElem *> chain;
    void elem(const SElem &e, const string &up)
    {
        if (!bad.empty()) return;
        string p = up + "/" + e.name;
        if (e.tag == "Subsystem") virt = e.attrs.count("!virtual") != 0;
        if (e.tag == "StringParameter") strings = true;
        size_t off = all.size();
        if (e.tag == "BitParameter") {
            // within its block
        } else
            all += e.bytes;
        chain.push_back(&e);
        for (auto &k : e.kids) elem(k, p);
        struct Pop { vector<const SElem *> &c; ~Pop() { c.pop_back(); } } pop{chain};
        if (!bad.empty()) return;
        range[p] = {off, all.size() - off};
        std::unique_ptr<ElementHandle> h;
        string err;
        h.reset(pf.createElementHandle(p, err));
        if (!h) {
            bad = "no handle on " + p + ": " + err;
            return;
        }
        bool leaf = e.tag.size() > 9 && e.tag.compare(e.tag.size() - 9, 9, "Parameter") == 0;
        auto say = [&](const string &w) {
            if (bad.empty()) bad = p + ": " + w;
        };
        if (h->getPath() != p) say("handle reports path " + h->getPath());
        if (h->isParameter() != leaf) say("is a parameter or not");
        if (leaf && h->getArrayLength() != e.len) say("array length " + std::to_string(h->getArrayLength()));
        if (leaf && e.tag != "BitParameter" && h->getSize() != all.size() - off) say("size " + std::to_string(h->getSize()));
        for (auto key : {"Ctx", "Amend1", "Amend2", "Amend3", "Obj", "CtxObj"}) {
            string v;
            bool got = h->getMappingData(key, v);
            // the nearest one
            const string *w = nullptr;
            for (size_t i = chain.size(); i-- > 0;)
                for (auto m : chain[i]->maps)
                    if (m && !w) {
                        auto it = m->find(key);
                        if (it != m->end()) w = &it->second;
                    }
            if (got != (w != nullptr) || (w && v != *w)) say(string("mapping data ") + key + ": " + v);
        }
        // (the mapping of an array's members repeats the array's)
        auto it = d.mappings.find(p);
        if (it != d.mappings.end() && e.tag != "SystemClass" && !e.attrs.count("!undershown")) {
            string m = cmd("showMapping", {p});
            if (m != it->second) say("mapping shown as '" + m + "' instead of '" + it->second + "'");
        }
        if (g_tell && bad.empty()) tell(e, p, *h, leaf, all.size() - off);
    }
    void dump(const SElem &e, const string &p, int depth, vector<string> &lines)
    {
        string l = string(size_t(depth) * 4, ' ') + "- " + e.shownKind() + ": " + e.name;
        if (e.tag.size() > 9 && e.tag.compare(e.tag.size() - 9, 9, "Parameter") == 0) {
            string v = cmd("getParameter", {p});
            if (!v.empty()) l += " = " + v;
        }
        lines.push_back(l);
        for (auto &k : e.kids) dump(k, p + "/" + k.name, depth + 1, lines);
    }
    static vector<string> linesOf(const string &t)
    {
        vector<string> r;
        std::istringstream is(t);
        string l;
        while (std::getline(is, l))
            if (!l.empty()) r.push_back(l);
        return r;
    }
    // the ends of the range and each literal are taken, and stored as the type says
    void takes(const SElem &e, const string &p, ElementHandle &h)
    {
        vector<std::pair<string, uint64_t>> vals;
        bool bit = e.tag == "BitParameter";
        if (e.tag == "EnumParameter")
            for (auto &l : e.pairs)
                if (isalpha((unsigned char)l.first[0])) vals.push_back({l.first, uint64_t(strtoll(l.second.c_str(), nullptr, 10))});
        else if (bit || (e.tag == "IntegerParameter" && e.adaptation.empty()))
            for (auto k : {"Max", "Min"}) {
                auto it = e.attrs.find(k);
                if (it == e.attrs.end()) {
                    if (bit && k[2] == 'n') vals.push_back({"0", 0});
                    continue;
                }
                vals.push_back({it->second, it->second[0] == '-' ? uint64_t(strtoll(it->second.c_str(), nullptr, 10)) : strtoull(it->second.c_str(), nullptr, 10)});
            }
        else if (e.tag == "BooleanParameter")
            vals = {{"1", 1}, {"0", 0}};
        bool mapped = virt; // (what is mapped to nothing cannot be synchronised)
        for (auto &o : d.objects) mapped = mapped || p == o.path || p.compare(0, o.path.size() + 1, o.path + "/") == 0;
        if (vals.empty() || !mapped) return;
        string before = cmd("getParameter", {p}), err;
        for (auto &v : vals) {
            cmd("setParameter", {p, v.first});
            string shown = cmd("getParameter", {p});
            size_t same = 0;
            for (auto &o : vals) same += o.second == v.second;
            if (bad.empty() && same == 1 && shown != v.first) bad = p + ": set to " + v.first + " but shown as " + shown;
            if (!bad.empty() || bit) continue;
            vector<uint8_t> b;
            if (!h.getAsBytes(b, err)) bad = p + ": no bytes: " + err;
            uint64_t got = 0;
            for (size_t i = b.size(); i-- > 0;) got = got << 8 | b[i];
            uint64_t mask = b.size() >= 8 ? ~0ull : (1ull << (8 * b.size())) - 1;
            if (bad.empty() && got != (v.second & mask)) bad = p + ": set to " + v.first + " but stored as " + std::to_string(got);
        }
        string o;
        ch.process("setParameter", {p, before}, o); // (what was read at start may be out of range)
    }
    void tell(const SElem &e, const string &p, ElementHandle &h, bool leaf, size_t bytes)
    {
        auto say = [&](const string &w) {
            if (bad.empty()) bad = p + ": " + w;
        };
        auto want = [&](const char *c, const vector<string> &lines) {
            auto got = linesOf(cmd(c, {p}));
            if (got != lines) say(string(c) + " shows\n" + join(got, "\n") + "\ninstead of\n" + join(lines, "\n"));
        };
        string size = e.tag == "BitParameter" ? "" : std::to_string(bytes);
        string r = cmpProperties(cmd("showProperties", {p}), e, size);
        if (!r.empty()) say("showProperties: " + r);
        if (!size.empty() && cmd("getElementSize", {p}) != size + " byte(s)") say("getElementSize answers " + cmd("getElementSize", {p}) + " instead of " + size);
        XNode g;
        string xml = cmd("getElementStructureXML", {p}), err, own;
        if (!XParser::parse(xml, g)) return say("structure exported as " + xml);
        {
            SElem plain = e;
            plain.attrs.erase("!virtual");
            for (auto &k : plain.kids) k.attrs.erase("!virtual");
            r = cmpTree(g, plain, p);
        }
        if (r.empty()) r = cmpDetails(g, e, p);
        if (!r.empty()) say("structure: " + r);
        if (!h.getStructureAsXML(own, err) || own != xml) say("its handle tells the structure " + own + " instead of " + xml);
        if (h.getName() != e.name) say("its handle tells the name " + h.getName());
        if (h.getKind() != e.shownKind()) say("its handle tells the kind " + h.getKind());
        if (e.attrs.count("Description") && h.getDescription() != e.attrs.at("Description")) say("its handle tells the description " + h.getDescription());
        if (leaf && h.isArray() != (e.len != 0)) say("its handle tells it is an array or not");
        bool bit = e.tag == "BitParameter";
        if (leaf && !e.len && (bit || (e.tag == "IntegerParameter" && e.adaptation.empty()))) {
            // refusals of values tell the range
            bool sg = e.attrs.count("Signed") && e.attrs.at("Signed") == "true";
            int width = bit ? atoi(e.attrs.at("Size").c_str()) : int(e.size) * 8;
            i64 lo = bit ? 0 : strtoll(e.attrs.at("Min").c_str(), nullptr, 10), hi = i64(strtoull(e.attrs.at("Max").c_str(), nullptr, 10));
            i64 tlo = sg ? -(i64(1) << (width - 1)) : 0, thi = (i64(1) << (sg ? width - 1 : width)) - 1;
            auto hex = [&](i64 v) {
                char t[32];
                snprintf(t, sizeof t, "0x%0*llX", bit ? 1 : int(e.size) * 2, (unsigned long long)(uint64_t(v) & (width >= 64 ? ~0ull : (1ull << width) - 1)));
                return string(t);
            };
            for (i64 v : {lo - 1, hi + 1}) {
                if (v < tlo || v > thi || width >= 63) continue;
                for (bool h : {false, true}) {
                    string text = h ? hex(v) : std::to_string(v), told, range = "[" + (h ? hex(lo) + ", " + hex(hi) : std::to_string(lo) + ", " + std::to_string(hi)) + "]";
                    bool ok = ch.process("setParameter", {p, text}, told);
                    if (ok) say("accepts the value " + text);
                    else if (told.find(range) == string::npos) say("refuses " + text + " telling '" + told + "', not the range " + range);
                }
            }
        }
        if (leaf && !e.len && bad.empty()) takes(e, p, h);
        vector<string> kids{p + " [" + e.shownKind() + "]"}, ps, d;
        for (auto &k : e.kids) kids.push_back(p + "/" + k.name + " [" + k.shownKind() + "]");
        want("listElements", kids);
        leavesOf(e, p, ps);
        // an element without children may count as a parameter or not
        auto shown = linesOf(cmd("listParameters", {p}));
        vector<string> real;
        for (auto &l : shown)
            if (l.find("Parameter]") != string::npos) real.push_back(l);
        if (real != ps || (shown.size() != real.size() && !childless(e))) say("listParameters shows\n" + join(shown, "\n") + "\ninstead of\n" + join(ps, "\n"));
        auto cs = h.getChildren();
        if (cs.size() != e.kids.size()) return say("its handle has " + std::to_string(cs.size()) + " children");
        for (size_t i = 0; i < cs.size(); i++)
            if (cs[i].getPath() != p + "/" + e.kids[i].name) say("its handle has a child " + cs[i].getPath());
        dump(e, p, 0, d);
        want("dumpElement", d);
    }
};
const char *const xmlHead = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
// the same description in several files: one per subsystem and one per component library
[[maybe_unused]] string split(const string &dir, const XNode &doc)
{
    mkdir((dir + "/parts").c_str(), 0755);
    mkdir((dir + "/parts/libs").c_str(), 0755);
    XNode top = doc;
    int n = 0;
    for (auto &k : top.kids)
        if (k.tag == "Subsystem") {
            string file = "s" + std::to_string(n++);
            for (auto &l : k.kids)
                if (l.tag == "ComponentLibrary") {
                    string lib = writeNode(l);
                    writeFile(dir + "/parts/libs/" + file + ".xml", xmlHead + lib);
                    XNode inc;
                    inc.tag = "xi:include";
                    inc.attrs = {{"xmlns:xi", "http://www.w3.org/2001/XInclude"}, {"href", "libs/" + file + ".xml"}};
                    l = inc;
                    break;
                }
            string text = writeNode(k);
            writeFile(dir + "/parts/" + file + ".xml", xmlHead + text);
            XNode inc;
            inc.tag = "SubsystemInclude";
            inc.attrs = {{"Path", "parts/" + file + ".xml"}};
            k = inc;
        }
    return writeNode(top);
}
// what the started instance shows, against the reading of the description; empty if it conforms
[[maybe_unused]] string judge(CParameterMgrFullConnector &pf, Env &env, const StructDoc &d, SVerdict v, Ctx *x, bool defaults = true)
{
    auto ch = pf.createCommandHandler();
    Walk w{pf, *ch, d};
    string xml = w.cmd("getElementStructureXML", {"/Sys"});
    string blob = (w.cmd("setTuningMode", {"on"}), w.cmd("getElementBytes", {"/Sys"}));
    w.cmd("dumpElement", {"/Sys"});
    w.cmd("getElementXML", {"/Sys"});
    if (v == S_X) return ""; // no crash is all we ask for
    if (!w.bad.empty()) return w.bad;
    if (x) x->sh->distinct++;
    SElem root = d.root;
    XNode got;
    if (!XParser::parse(xml, got)) return "structure exported as " + xml;
    {
        SElem plain = root;
        for (auto &k : plain.kids) k.attrs.erase("!virtual");
        string r = cmpTree(got, plain, "/Sys");
        if (!r.empty()) return r;
    }
    w.elem(root, "");
    if (!w.bad.empty()) return w.bad;
    string bytes = hexBytes(blob);
    if (bytes.size() != w.all.size()) return "the system takes " + std::to_string(bytes.size()) + " bytes instead of " + std::to_string(w.all.size());
    for (auto &s : root.kids) {
        auto r = w.range["/Sys/" + s.name];
        if (defaults && s.attrs.count("!virtual") && bytes.substr(r.first, r.second) != w.all.substr(r.first, r.second))
            return "defaults of " + s.name + ": " + toHex(bytes.substr(r.first, r.second)) + " instead of " + toHex(w.all.substr(r.first, r.second));
    }
    vector<string> want;
    for (auto &o : d.objects) want.push_back(o.text());
    if (want != env.created) return "hardware objects:\n " + join(env.created, "\n ") + "\ninstead of\n " + join(want, "\n ");
    // each object carries the bytes of its element
    if (!w.strings && !w.all.empty()) {
        string pat;
        for (size_t i = 0; i < w.all.size(); i++) pat += char(1 + i % 100);
        string out;
        env.log.clear();
        if (ch->process("setElementBytes", {"/Sys", toHex(pat)}, out)) {
            std::multiset<string> exp, seen;
            for (auto &o : d.objects) {
                auto r = w.range[o.path];
                exp.insert(o.formatted + " " + toHex(pat.substr(r.first, r.second)));
            }
            for (auto &e : env.log)
                if (e.kind == 'S') seen.insert(e.obj + " " + toHex(e.bytes));
            if (exp != seen) return "written to hardware:\n " + join(vector<string>(seen.begin(), seen.end()), "\n ") + "\ninstead of\n " + join(vector<string>(exp.begin(), exp.end()), "\n ");
        }
    }
    if (x) x->sh->validated++;
    return "";
}
} // namespace
