// Independent reading of structure descriptions: what tree, defaults and
// hardware objects a description declares, or that it must be refused.
#pragma once
#include "core.h"
#include "xmlmini.h"
#include <cmath>
#include <set>

struct SElem
{
    string name, tag; // tag: as the structure is exported
    size_t len = 0;   // of an array of parameters
    size_t size = 0;  // bytes of a scalar leaf (0: none), of a bit block
    std::map<string, string> attrs; // exported ones, numbers compared as numbers
    string bytes;                   // default content when it is a leaf or a bit block
    vector<const std::map<string, string> *> maps; // own mapping, then the types' ones
    vector<SElem> kids;
    string kind;                              // as shown; the tag if empty
    string unit;
    vector<std::pair<string, string>> pairs;  // of an enumeration
    string adaptation;                        // Linear, Logarithmic
    std::map<string, string> adapt;           // its attributes, as given
    const string &shownKind() const { return kind.empty() ? tag : kind; }
    string content() const
    {
        string r = bytes;
        if (tag == "BitParameterBlock") return r;
        for (auto &k : kids) r += k.content();
        return r;
    }
};
struct SObj
{
    string raw, formatted, items, path;
    size_t size;
    string text() const { return raw + "|" + formatted + "|" + items + "|" + path + "|" + std::to_string(size); }
};
// A: to be accepted; E: accepted or not, but then as declared; X: not settled; R: to be refused
enum SVerdict { S_A, S_E, S_X, S_R };

struct StructDoc
{
    SVerdict v = S_A;
    bool schemaOk = true; // no reason known for the schemas to refuse it
    string why;
    SElem root;
    vector<SObj> objects;
    std::map<string, string> mappings; // path -> displayed mapping
    bool gray = false; // an array element with a context key: see DESIGN

    // types: those the loaded plugins serve; fallback: others are served by a virtual subsystem
    StructDoc(const XNode &doc, const string &sys, std::set<string> types = {"MC"}, bool fallback = false)
        : known_(types), fallback_(fallback)
    {
        read(doc, sys);
    }

private:
    std::set<string> known_;
    bool fallback_;
    void read(const XNode &doc, const string &sys)
    {
        if (doc.tag != "SystemClass") return worse(S_R, "not a system class");
        if (doc.at("Name") != sys) return worse(S_R, "name of the system class");
        root.tag = "SystemClass", root.name = sys;
        attrs(doc, {"Name"});
        if (doc.kids.empty()) worse(S_E, "no subsystem");
        for (auto &k : doc.kids) {
            if (k.tag != "Subsystem") {
                worse(S_R, "a " + k.tag + " in the system class");
                continue;
            }
            subsystem(k);
        }
        if (v == S_R) return;
        names(root);
        for (auto &s : root.kids)
            if (!s.attrs.count("!virtual")) {
                Ctx c;
                c = contexts(s, c, "/" + sys + "/" + s.name);
                for (auto &k : s.kids) map(k, c, "/" + sys + "/" + s.name);
            }
        if (v <= S_E) {
            show(root, "", "");
            for (auto &s : root.kids) s.attrs.erase("!Type");
        }
    }

    typedef std::map<string, string> M;
    struct TypeDef
    {
        const XNode *x;
        string ext;
        size_t order;
    };
    std::map<string, TypeDef> types_;
    vector<std::unique_ptr<M>> pool_;
    std::map<const XNode *, const M *> mapOf_;
    void worse(SVerdict w, const string &y)
    {
        schemaOk = false;
        if (w > v) v = w, why = y;
    }
    static bool num(const string &t, long double &r, bool integer)
    {
        if (t.empty() || t.find_first_of(" \t\r\n\v") != string::npos) return false;
        const char *b = t.c_str();
        char *e;
        r = strtold(b, &e);
        if (*e || (integer && r != floorl(r))) return false;
        if (integer && t.find_first_not_of("0123456789+-") != string::npos) return false;
        return true;
    }
    // an integer attribute within [lo, hi]; false if it is absent
    bool intAttr(const XNode &x, const char *n, long double lo, long double hi, long double &r)
    {
        auto a = x.attr(n);
        if (!a) return false;
        if (a->compare(0, 2, "0x") == 0) return worse(S_X, "hexadecimal attribute"), false;
        long double v2;
        if (!num(*a, v2, true)) return worse(S_R, string("unreadable ") + n), false;
        if (*a != plain(v2)) worse(S_X, string("odd notation of ") + n);
        if (v2 < lo || v2 > hi) return worse(S_R, string("out of range ") + n), false;
        r = v2;
        return true;
    }
    static string plain(long double d)
    {
        char b[80];
        snprintf(b, sizeof b, "%.0Lf", d);
        return b;
    }
    const M *mapping(const XNode &x)
    {
        auto it = mapOf_.find(&x);
        if (it != mapOf_.end()) return it->second;
        M *m = nullptr;
        string t = x.at("Mapping");
        if (!t.empty()) {
            pool_.emplace_back(new M);
            m = pool_.back().get();
            size_t b = 0;
            while (b <= t.size()) {
                size_t e = t.find(',', b);
                string w = t.substr(b, e == string::npos ? string::npos : e - b);
                b = e == string::npos ? t.size() + 1 : e + 1;
                if (w.empty()) {
                    worse(S_X, "empty mapping entry");
                    continue;
                }
                if (w.find(' ') != string::npos) worse(S_X, "blank in a mapping");
                size_t c = w.find(':');
                string key = w.substr(0, c), val = c == string::npos ? "" : w.substr(c + 1);
                if (!m->insert({key, val}).second) worse(S_R, "mapping key given twice");
            }
        }
        mapOf_[&x] = m;
        return m;
    }
    void attrs(const XNode &x, std::initializer_list<const char *> known)
    {
        std::set<string> seen;
        for (auto &a : x.attrs) {
            if (!seen.insert(a.first).second) worse(S_R, "attribute given twice");
            bool k = false;
            for (auto n : known) k |= a.first == n;
            if (!k) schemaOk = false;
            for (unsigned char c : a.second)
                if (c < 32 || c > 126) worse(S_X, "unusual character");
        }
    }
    string name(const XNode &x)
    {
        string n = x.at("Name");
        // only what can be addressed; uniqueness is checked on the tree
        if (n.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-") != string::npos &&
            n.find('/') == string::npos)
            worse(S_X, "unusual name");
        return n;
    }
    void subsystem(const XNode &x)
    {
        attrs(x, {"Name", "Description", "Type", "Mapping"});
        SElem s;
        s.tag = "Subsystem", s.name = name(x);
        s.attrs["!Type"] = x.at("Type");
        if (!known_.count(x.at("Type"))) {
            if (x.at("Type") != "Virtual" && !fallback_) return worse(S_R, "unknown type of subsystem");
            s.attrs["!virtual"] = "1";
        }
        types_.clear();
        s.maps.push_back(mapping(x));
        const XNode *lib = nullptr, *inst = nullptr;
        for (auto &k : x.kids) {
            if (k.tag == "ComponentLibrary") {
                if (lib) worse(S_X, "two libraries");
                if (inst) worse(S_E, "library after the instances");
                else if (!lib) {}
                if (!lib) lib = &k;
            } else if (k.tag == "InstanceDefinition") {
                if (inst) worse(S_X, "two instance definitions");
                if (!inst) inst = &k;
            } else
                worse(S_X, "a " + k.tag + " in a subsystem");
        }
        if (!inst) return worse(S_R, "no instance definition");
        if (!lib) worse(S_E, "no library");
        if (lib) library(*lib);
        attrs(*inst, {});
        mapping(*inst);
        if (inst->attr("ArrayLength")) worse(S_X, "an array of instances");
        if (inst->kids.empty()) worse(S_E, "empty instance definition");
        content(*inst, s, {}, false);
        root.kids.push_back(std::move(s));
    }
    void library(const XNode &l)
    {
        attrs(l, {});
        for (auto &k : l.kids) {
            if (k.tag == "ComponentLibrary" || k.tag == "ComponentTypeSet") {
                library(k);
                continue;
            }
            if (k.tag != "ComponentType") {
                worse(S_R, "a " + k.tag + " in a library");
                continue;
            }
            attrs(k, {"Name", "Description", "Extends", "Mapping"});
            string n = name(k);
            if (n.empty()) worse(S_R, "component type without a name");
            for (char c : n)
                if (!isalnum((unsigned char)c) && !strchr("_-.:", c)) schemaOk = false; // not a name token
            if (types_.count(n)) {
                worse(S_R, "component type given twice");
                continue;
            }
            TypeDef t{&k, "", types_.size()};
            if (k.attr("Extends")) {
                t.ext = k.at("Extends");
                if (t.ext == n) worse(S_R, "type extending itself");
                else if (!types_.count(t.ext)) worse(S_R, "extended type unknown (so far)");
            }
            mapping(k);
            if (k.attr("ArrayLength")) worse(S_X, "an array as a type");
            types_[n] = t;
            if (k.kids.empty()) schemaOk = false;
            schemaNames(k);
            SElem dummy;
            content(k, dummy, {n}, true);
        }
    }
    // the schemas also look into types without instances
    void schemaNames(const XNode &x)
    {
        std::set<string> own;
        for (auto &k : x.kids) {
            if (k.tag.find("Adaptation") == string::npos && k.tag != "ValuePair") {
                string n = k.at("Name");
                if (n.empty() || !own.insert(n).second) schemaOk = false;
                for (char c : n)
                    if (!isalnum((unsigned char)c) && !strchr("_-.:", c)) schemaOk = false; // not a name token
            }
            schemaNames(k);
        }
    }
    // contents of a component type, instance definition or parameter block; `in`: types being
    // expanded; `only`: checked as part of the library, components are not expanded
    void content(const XNode &x, SElem &to, std::set<string> in, bool only)
    {
        for (auto &k : x.kids) {
            if (v == S_R) return;
            const string &t = k.tag;
            if (t == "Component") component(k, to, in, only);
            else if (t == "ParameterBlock") {
                attrs(k, {"Name", "Description", "Mapping", "ArrayLength"});
                if (k.kids.empty()) schemaOk = false;
                SElem e;
                e.tag = t, e.name = name(k);
                describe(k, e);
                e.maps.push_back(mapping(k));
                array(k, to, e, [&](SElem &c) { content(k, c, in, only); }, only);
            } else if (t == "BitParameterBlock") bitBlock(k, to);
            else if (t == "BooleanParameter" || t == "IntegerParameter" || t == "EnumParameter" ||
                     t == "FixedPointParameter" || t == "FloatingPointParameter" || t == "StringParameter")
                leaf(k, to);
            else
                worse(S_R, "a " + t + " in a " + x.tag);
        }
    }
    void describe(const XNode &x, SElem &e)
    {
        if (!x.at("Description").empty()) e.attrs["Description"] = x.at("Description");
    }
    template <class F>
    void array(const XNode &x, SElem &to, SElem e, F fill, bool)
    {
        long double n = 0;
        intAttr(x, "ArrayLength", 0, 1e6, n);
        if (n > 50) return worse(S_X, "long array");
        if (v >= S_X) return;
        if (n == 0) fill(e);
        else {
            for (int i = 0; i < n; i++) {
                SElem c;
                c.tag = e.tag, c.name = std::to_string(i), c.maps = e.maps, c.attrs = e.attrs, c.kind = e.kind;
                c.attrs["!array"] = "1";
                fill(c);
                e.kids.push_back(std::move(c));
            }
            e.attrs["!array"] = "1";
        }
        to.kids.push_back(std::move(e));
    }
    void component(const XNode &x, SElem &to, std::set<string> in, bool only)
    {
        attrs(x, {"Name", "Description", "Type", "Mapping", "ArrayLength"});
        string ty = x.at("Type");
        auto it = types_.find(ty);
        if (it == types_.end()) return worse(S_R, "unknown component type " + ty);
        SElem e;
        e.tag = "ParameterBlock", e.name = name(x), e.kind = "ComponentInstance";
        describe(x, e);
        e.maps.push_back(mapping(x));
        vector<const XNode *> chain;
        std::set<string> seen;
        for (string t = ty; !t.empty(); t = types_[t].ext) {
            if (in.count(t)) return worse(S_R, "recursive component type");
            if (!types_.count(t) || !seen.insert(t).second) return worse(S_R, "type chain");
            chain.push_back(types_[t].x);
            e.maps.push_back(mapping(*types_[t].x));
        }
        if (!x.kids.empty()) worse(S_X, "content in a component");
        array(x, to, e,
              [&](SElem &c) {
                  if (only) return;
                  for (size_t i = 0; i < chain.size(); i++) {
                      auto in2 = in;
                      in2.insert(chain[i]->at("Name"));
                      content(*chain[i], c, in2, false);
                  }
              },
              only);
    }
    static string le(long double d, size_t n)
    {
        uint64_t u = uint64_t(int64_t(d));
        string r;
        for (size_t i = 0; i < n; i++) r += char(u >> 8 * i & 255);
        return r;
    }
    bool size(const XNode &x, std::initializer_list<int> ok, SElem &e)
    {
        long double s = 0;
        if (!x.attr("Size")) return worse(S_R, "no size"), false;
        if (!intAttr(x, "Size", 0, 1e18L, s)) return worse(S_X, "size"), false;
        for (int k : ok)
            if (s == k) {
                e.size = size_t(k) / 8;
                e.attrs["Size"] = std::to_string(k);
                return true;
            }
        return worse(S_R, "unsupported size"), false;
    }
    void bitBlock(const XNode &x, SElem &to)
    {
        attrs(x, {"Name", "Description", "Mapping", "Size"});
        SElem e;
        e.tag = x.tag, e.name = name(x);
        describe(x, e);
        e.maps.push_back(mapping(x));
        if (x.attr("ArrayLength")) worse(S_X, "array of bit blocks");
        if (!size(x, {8, 16, 32, 64}, e)) return;
        if (x.kids.empty()) schemaOk = false;
        for (auto &k : x.kids) {
            if (k.tag != "BitParameter") return worse(S_R, "a " + k.tag + " in a bit block");
            attrs(k, {"Name", "Description", "Pos", "Size", "Max"});
            if (k.attr("ArrayLength") || k.attr("Mapping")) worse(S_X, "attribute of a bit");
            if (!k.kids.empty()) worse(S_X, "content of a bit");
            SElem b;
            b.tag = k.tag, b.name = name(k);
            describe(k, b);
            long double pos = 0, sz = 0, mx = 0;
            if (!k.attr("Pos")) worse(S_X, "no position");
            if (!k.attr("Size")) worse(S_X, "no size");
            intAttr(k, "Pos", 0, 1e19L, pos);
            intAttr(k, "Size", 0, 1e19L, sz);
            if (v == S_R) return;
            if (sz < 1) worse(S_X, "empty bit field");
            if (pos + sz > e.size * 8) return worse(S_R, "bit field beyond its block");
            mx = sz >= 64 ? 18446744073709551615.0L : powl(2, sz) - 1;
            long double given;
            if (sz < 1) mx = 1e19L; // (not settled already)
            if (intAttr(k, "Max", 0, mx, given)) mx = given;
            b.attrs["Pos"] = plain(pos), b.attrs["Size"] = plain(sz), b.attrs["Max"] = plain(mx);
            e.kids.push_back(b);
        }
        e.bytes = string(e.size, '\0');
        to.kids.push_back(e);
    }
    void leaf(const XNode &x, SElem &to)
    {
        SElem e;
        e.tag = x.tag, e.name = name(x);
        describe(x, e);
        e.maps.push_back(mapping(x));
        long double len = 0;
        string one;
        if (x.tag == "StringParameter") {
            attrs(x, {"Name", "Description", "Mapping", "MaxLength"});
            if (x.attr("ArrayLength")) worse(S_X, "array of strings");
            long double m = 0;
            if (!x.attr("MaxLength")) worse(S_X, "no maximum length");
            intAttr(x, "MaxLength", 0, 1e18L, m);
            if (m > 1e6) return worse(S_X, "long string");
            e.attrs["MaxLength"] = plain(m);
            e.size = size_t(m) + 1;
            one = string(e.size, '\0');
            if (!x.kids.empty()) worse(S_X, "content of a string");
        } else {
            intAttr(x, "ArrayLength", 0, 1e18L, len);
            if (len > 1000) return worse(S_X, "long array");
            e.len = size_t(len);
            if (len > 0) e.attrs["ArrayLength"] = plain(len);
            if (!x.at("Unit").empty()) e.attrs["Unit"] = x.at("Unit");
        }
        if (v == S_R) return;
        if (x.tag == "BooleanParameter") {
            attrs(x, {"Name", "Description", "Mapping", "ArrayLength", "Size"});
            if (x.attr("Size") && x.at("Size") != "8") worse(S_X, "size of a boolean");
            if (!x.kids.empty()) worse(S_X, "content of a boolean");
            e.attrs.erase("Unit");
            if (x.attr("Unit")) worse(S_X, "unit of a boolean");
            e.size = 1;
            one = string(1, '\0');
        } else if (x.tag == "IntegerParameter") {
            attrs(x, {"Name", "Description", "Mapping", "ArrayLength", "Size", "Min", "Max", "Signed", "Unit"});
            if (!x.attr("Size")) return worse(S_X, "no size");
            if (!size(x, {8, 16, 32}, e)) return;
            bool sgn = false;
            if (auto s = x.attr("Signed")) {
                if (*s == "true" || *s == "1") sgn = true;
                else if (*s == "TRUE" || *s == "FALSE") {
                    sgn = *s == "TRUE";
                    schemaOk = false;
                } else if (*s != "false" && *s != "0") return worse(S_R, "unreadable Signed");
            }
            long double lo = sgn ? -powl(2, 8 * e.size - 1) : 0, hi = powl(2, 8 * e.size - (sgn ? 1 : 0)) - 1, g;
            long double mn = lo, mx = hi;
            if (intAttr(x, "Min", lo, hi, g)) mn = g;
            if (intAttr(x, "Max", lo, hi, g)) mx = g;
            if (v == S_R) return;
            if (mn > mx) return worse(S_R, "empty range");
            e.attrs["Signed"] = sgn ? "true" : "false";
            e.attrs["Min"] = plain(mn), e.attrs["Max"] = plain(mx);
            one = le(mn, e.size);
            int ad = 0;
            for (auto &k : x.kids) {
                if (k.tag == "LinearAdaptation" || k.tag == "LogarithmicAdaptation") {
                    if (++ad > 1) worse(S_X, "two adaptations");
                    attrs(k, {"SlopeNumerator", "SlopeDenominator", "Offset", "LogarithmBase", "FloorValue"});
                    if (!k.kids.empty()) worse(S_X, "content of an adaptation");
                    e.adaptation = k.tag.substr(0, k.tag.size() - 10);
                    for (auto &a : k.attrs) e.adapt[a.first] = a.second;
                    long double d;
                    for (auto n : {"SlopeNumerator", "SlopeDenominator", "Offset", "LogarithmBase", "FloorValue"})
                        if (auto a = k.attr(n)) {
                            if (!num(*a, d, string(n) == "Offset")) worse(S_R, string("unreadable ") + n);
                            else if (string(n) == "SlopeDenominator" && d == 0) worse(S_R, "division by zero");
                            else if (string(n) == "LogarithmBase" && (d <= 0 || d == 1)) worse(S_X, "base");
                            else if (a->find_first_of("eExXiInN+") != string::npos) worse(S_X, "notation");
                        }
                    if (k.tag == "LinearAdaptation" && (k.attr("LogarithmBase") || k.attr("FloorValue")))
                        worse(S_X, "attribute of an adaptation");
                } else
                    worse(S_R, "a " + k.tag + " in an integer");
            }
        } else if (x.tag == "EnumParameter") {
            attrs(x, {"Name", "Description", "Mapping", "ArrayLength", "Size"});
            if (x.attr("Unit")) worse(S_X, "unit of an enumeration");
            if (!size(x, {8, 16, 32}, e)) return;
            long double hi = powl(2, 8 * e.size - 1) - 1, first = 0;
            std::set<string> lits;
            std::set<long double> nums;
            for (auto &k : x.kids) {
                if (k.tag != "ValuePair") {
                    worse(S_R, "a " + k.tag + " in an enumeration");
                    continue;
                }
                long double n = 0;
                attrs(k, {"Literal", "Numerical"});
                if (!k.attr("Literal") || !k.attr("Numerical") || !k.kids.empty()) worse(S_X, "value pair");
                if (k.attr("Numerical") && k.at("Numerical").compare(0, 2, "0x") == 0) {
                    char *end;
                    n = strtoull(k.at("Numerical").c_str(), &end, 16);
                    if (*end) worse(S_R, "unreadable number");
                } else
                    intAttr(k, "Numerical", -2147483648.0L, 2147483647.0L, n);
                e.pairs.push_back({k.at("Literal"), plain(n)});
                if (n > hi || n < -hi - 1) worse(S_X, "number beyond the size");
                if (!lits.insert(k.at("Literal")).second || !nums.insert(n).second) worse(S_X, "value given twice");
                if (&k == &x.kids[0]) first = n;
            }
            if (x.kids.empty()) worse(S_X, "empty enumeration");
            one = le(first, e.size);
        } else if (x.tag == "FixedPointParameter") {
            attrs(x, {"Name", "Description", "Mapping", "ArrayLength", "Size", "Integral", "Fractional", "Unit"});
            if (!size(x, {8, 16, 32}, e)) return;
            long double i = 0, f = 0;
            if (!x.attr("Integral") || !x.attr("Fractional")) worse(S_X, "no Q notation");
            intAttr(x, "Integral", 0, 1e19L, i);
            intAttr(x, "Fractional", 0, 1e19L, f);
            if (i + f + 1 > 8 * e.size) worse(S_R, "Q notation beyond the size");
            if (!x.kids.empty()) worse(S_X, "content of a fixed point");
            e.attrs["Integral"] = plain(i), e.attrs["Fractional"] = plain(f);
            one = string(e.size, '\0');
        } else if (x.tag == "FloatingPointParameter") {
            attrs(x, {"Name", "Description", "Mapping", "ArrayLength", "Size", "Min", "Max", "Unit"});
            if (x.attr("Size") && x.at("Size") != "32") worse(S_R, "unsupported size");
            long double mn = -3.4028234663852886e38L, mx = -mn, g;
            for (auto n : {"Min", "Max"})
                if (auto a = x.attr(n)) {
                    if (!num(*a, g, false)) worse(S_R, string("unreadable ") + n);
                    else if (fabsl(g) > 3.4028234663852886e38L) worse(S_R, "bound of a floating point");
                    else if (a->find_first_of("xXiInNpP") != string::npos) worse(S_X, "notation of a bound");
                    else (string(n) == "Min" ? mn : mx) = (long double)(float)g;
                    if (a->find_first_not_of("0123456789.-") != string::npos || a->empty() ||
                        a->find_first_of("0123456789") == string::npos)
                        schemaOk = false;
                }
            if (v == S_R) return;
            if (mn > mx) return worse(S_R, "empty range");
            e.size = 4;
            e.attrs["Size"] = "32";
            char b[2][40];
            snprintf(b[0], 40, "%.17Lg", mn), snprintf(b[1], 40, "%.17Lg", mx);
            e.attrs["Min"] = b[0], e.attrs["Max"] = b[1];
            float def = mn > 0 ? float(mn) : mx < 0 ? float(mx) : 0;
            one = string((const char *)&def, 4);
            if (!x.kids.empty()) worse(S_X, "content of a floating point");
        }
        for (size_t i = 0; i < (e.len ? e.len : 1); i++) e.bytes += one;
        to.kids.push_back(e);
    }
    void names(const SElem &e)
    {
        std::set<string> seen;
        for (auto &k : e.kids) {
            if (k.name.empty()) worse(S_R, "a " + k.tag + " without a name");
            if (k.name.find('/') != string::npos) worse(S_R, "a name with a separator");
            if (!seen.insert(k.name).second) worse(S_R, "a name given twice");
            names(k);
        }
    }
    struct Ctx
    {
        string val[4];
        bool set[4] = {false, false, false, false};
    };
    static const string *look(const SElem &e, const string &key)
    {
        for (auto m : e.maps)
            if (m) {
                auto it = m->find(key);
                if (it != m->end()) return &it->second;
            }
        return nullptr;
    }
    Ctx contexts(const SElem &e, Ctx c, const string &path)
    {
        static const char *keys[] = {"Ctx", "Amend1", "Amend2", "Amend3"};
        bool any = false;
        for (auto m : e.maps) any |= m != nullptr;
        if (!any) return c;
        for (int i = 0; i < 4; i++)
            if (auto s = look(e, keys[i])) {
                if (e.attrs.count("!array")) {
                    // an array and its members share their mapping: not settled
                    worse(S_X, "context key on an array");
                    continue;
                }
                if (c.set[i]) worse(S_R, string(keys[i]) + " already set at " + path);
                c.set[i] = true, c.val[i] = *s;
            }
        return c;
    }
    void map(const SElem &e, Ctx c, const string &up)
    {
        if (v >= S_X) return;
        string path = up + "/" + e.name;
        bool any = false;
        for (auto m : e.maps) any |= m != nullptr;
        if (any) {
            c = contexts(e, c, path);
            for (int kind = 0; kind < 2; kind++)
                if (auto s = look(e, kind ? "CtxObj" : "Obj")) {
                    if (kind && !c.set[0]) return worse(S_R, "required key not set at " + path);
                    SObj o;
                    o.raw = *s, o.path = path, o.size = e.content().size();
                    string f = *s;
                    if (f.size() >= 2 && f[0] == '\'') {
                        if (f.back() != '\'') worse(S_X, "unbalanced quote");
                        f = f.substr(1, f.size() - 2);
                    }
                    string r;
                    for (size_t i = 0; i < f.size(); i++) {
                        if (f[i] != '%') {
                            r += f[i];
                            continue;
                        }
                        int d = i + 1 < f.size() ? f[i + 1] - '0' : -1;
                        if (d >= 1 && d <= 3 && c.set[d]) r += c.val[d], i++;
                        else {
                            // what remains after something that is no amendment: not settled
                            if (f.find('%', i + 1) != string::npos) worse(S_X, "amendment after a lone %");
                            r += f[i];
                        }
                    }
                    o.formatted = r;
                    for (int i = 0; i < 4; i++) o.items += (i ? "|" : "") + (c.set[i] ? c.val[i] : string("-"));
                    objects.push_back(o);
                    return;
                }
            if (e.tag != "ParameterBlock" && e.tag != "BitParameter")
                return worse(S_R, "leaf with a mapping but no object at " + path);
        }
        if (e.tag == "BitParameterBlock") return;
        for (auto &k : e.kids) map(k, c, path);
    }
    void show(const SElem &e, const string &up, const string &above)
    {
        string path = up + "/" + e.name, m;
        for (size_t i = e.maps.size(); i-- > 0;)
            if (e.maps[i])
                for (auto &kv : *e.maps[i]) m += (m.empty() ? "" : ", ") + kv.first + ":" + kv.second;
        string all = above.empty() ? m : m.empty() ? above : above + ", " + m;
        string s = all;
        for (auto &o : objects)
            if (o.path == path)
                s += string(s.empty() ? "" : ", ") + (look(e, "Obj") ? "Obj" : "CtxObj") + ":" + o.formatted;
        mappings[path] = s;
        for (auto &k : e.kids) show(k, path, all);
    }
};
