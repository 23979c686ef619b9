// Reference model of the parameter framework: structure, value codec, rules,
// and the semantics of every command (the oracle of the E1 explorations).
#pragma once
#include "env.h"
#include <algorithm>
#include <cassert>
#include <cctype>
#include <cfloat>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

using std::string;
using std::vector;
typedef int64_t i64;
typedef vector<string> Op; // command name followed by its arguments

inline string join(const vector<string> &v, const string &sep)
{
    string r;
    for (size_t i = 0; i < v.size(); i++) r += (i ? sep : "") + v[i];
    return r;
}
inline vector<string> splitWs(const string &s, const char *delim = " \t\n\r")
{
    vector<string> out;
    string cur;
    for (char c : s) {
        if (strchr(delim, c) && c) {
            if (!cur.empty()) out.push_back(cur), cur.clear();
        } else
            cur += c;
    }
    if (!cur.empty()) out.push_back(cur);
    return out;
}
inline string xmlEsc(const string &s)
{
    string r;
    for (char c : s) switch (c) {
        case '&': r += "&amp;"; break;
        case '<': r += "&lt;"; break;
        case '>': r += "&gt;"; break;
        case '"': r += "&quot;"; break;
        case '\'': r += "&apos;"; break;
        case '\n': r += "&#10;"; break;
        case '\t': r += "&#9;"; break;
        case '\r': r += "&#13;"; break;
        default: r += c;
        }
    return r;
}

// ---------------------------------------------------------------- types
enum TK { T_BOOL, T_INT, T_ENUM, T_STR, T_BIT, T_FIX, T_FLT };
struct PType
{
    TK k = T_INT;
    int size = 1; // bytes (of the block for a bit parameter)
    bool sgn = false;
    i64 mn = 0, mx = 255, def = 0;
    bool hasMin = false, hasMax = false, hasDef = false;
    vector<std::pair<string, i64>> lits; // enum
    int maxLen = 0;                      // string
    int pos = 0, width = 0;              // bit
    int integ = 0, frac = 0;             // fixed point; its value is the signed stored integer
    float fmn = -FLT_MAX, fmx = FLT_MAX; // float; its value is the bit pattern
    string child;                        // adaptation element
    int bits() const { return size * 8; }
    int shift() const { return bits() - (integ + frac + 1); }
};

struct StrTable
{
    vector<string> s{""};
    std::map<string, i64> id{{"", 0}};
    i64 get(const string &x)
    {
        auto it = id.find(x);
        if (it != id.end()) return it->second;
        s.push_back(x);
        return id[x] = i64(s.size() - 1);
    }
};
inline StrTable &strTab()
{
    static StrTable t;
    return t;
}

// ---------------------------------------------------------------- structure
struct NodeDef // declaration
{
    string name, kind, mapping; // kind: SUB, PB, BB (bit block), P (parameter)
    PType t;
    int len = 0; // array length, 0: scalar
    vector<NodeDef> kids;
};
typedef NodeDef ND;
inline ND pb(const string &n, vector<ND> kids, const string &map = "")
{
    ND d;
    d.name = n, d.kind = "PB", d.mapping = map, d.kids = std::move(kids);
    return d;
}
inline ND pbArray(const string &n, int len, vector<ND> kids, const string &map = "")
{
    // an array of blocks behaves as a block whose children are "0".."len-1"
    ND d = pb(n, {}, map);
    d.len = len;
    for (int i = 0; i < len; i++) d.kids.push_back(pb(std::to_string(i), kids));
    return d;
}
inline ND sub(const string &n, vector<ND> kids, const string &map = "")
{
    ND d = pb(n, std::move(kids), map);
    d.kind = "SUB";
    return d;
}
inline ND integer(const string &n, int size, bool sgn, const string &map = "", int len = 0)
{
    ND d;
    d.name = n, d.kind = "P", d.mapping = map, d.len = len;
    d.t.k = T_INT, d.t.size = size, d.t.sgn = sgn;
    int b = size * 8;
    d.t.mn = sgn ? -(i64(1) << (b - 1)) : 0;
    d.t.mx = sgn ? (i64(1) << (b - 1)) - 1 : (i64(1) << b) - 1;
    return d;
}
inline ND u8(const string &n, const string &map = "", int len = 0)
{
    return integer(n, 1, false, map, len);
}
inline ND u16(const string &n, const string &map = "", int len = 0)
{
    return integer(n, 2, false, map, len);
}
inline ND ranged(ND d, i64 mn, i64 mx)
{
    d.t.mn = mn, d.t.mx = mx, d.t.hasMin = d.t.hasMax = true;
    return d;
}
// Default applied when nothing else is known; the framework's is Min
inline ND boolean(const string &n, const string &map = "", int len = 0)
{
    ND d = u8(n, map, len);
    d.t.k = T_BOOL, d.t.mx = 1;
    return d;
}
inline ND enumeration(const string &n, vector<std::pair<string, i64>> lits, const string &map = "",
                      int len = 0)
{
    ND d = u8(n, map, len);
    d.t.k = T_ENUM, d.t.sgn = true, d.t.lits = lits;
    return d;
}
inline ND strParam(const string &n, int maxLen, const string &map = "")
{
    ND d = u8(n, map);
    d.t.k = T_STR, d.t.maxLen = maxLen, d.t.size = maxLen + 1;
    return d;
}
inline ND bitBlock(const string &n, int size, vector<std::tuple<string, int, int>> bits,
                   const string &map = "")
{
    ND d;
    d.name = n, d.kind = "BB", d.mapping = map, d.t.size = size;
    for (auto &b : bits) {
        ND e;
        e.name = std::get<0>(b), e.kind = "P";
        e.t.k = T_BIT, e.t.size = size, e.t.pos = std::get<1>(b), e.t.width = std::get<2>(b);
        e.t.mn = 0, e.t.mx = i64(e.t.width >= 64 ? ~0ull : (1ull << e.t.width) - 1);
        d.kids.push_back(e);
    }
    return d;
}

inline ND fixedPt(const string &n, int size, int integ, int frac, const string &map = "", int len = 0)
{
    ND d = integer(n, size, true, map, len);
    d.t.k = T_FIX, d.t.integ = integ, d.t.frac = frac;
    return d;
}
inline ND floating(const string &n, const string &map = "", int len = 0)
{
    ND d = integer(n, 4, false, map, len);
    d.t.k = T_FLT;
    return d;
}

struct Node
{
    string name, path, kind;
    PType t;
    int len = 0, parent = -1;
    vector<int> kids;
    int leaf0 = 0, leaf1 = 0; // leaves of the subtree
    int obj = -1;             // hardware object carried by this very node
    int sub = -1;             // index of its subsystem (-1: root)
    int off = 0, size = 0;    // in bytes, structure order
    bool isParam() const { return kind == "P"; }
};
struct Leaf
{
    string path; // path usable in get/setParameter
    int node, index;
    PType t;
    int obj; // owner object or -1
    int off; // absolute byte offset (of the block for a bit)
};
struct ObjDef
{
    string name;
    int node, sub;
    bool virt() const { return name.compare(0, 2, "V_") == 0; } // stands for a virtual subsystem: no hardware
};
struct CritDef
{
    string name;
    bool incl;
    vector<std::pair<string, int>> vals;
};

struct Structure
{
    string sys;
    vector<Node> nodes; // 0 is the root
    vector<Leaf> leaves;
    vector<ObjDef> objs;
    vector<string> subs;
    vector<CritDef> crits;
    std::unordered_map<string, int> byPath;
    std::unordered_map<string, std::pair<int, int>> leafRange; // access path -> leaves
    string xml;
    vector<ND> defs;

    static string obName(const string &mapping)
    {
        for (auto &kv : splitWs(mapping, ",")) {
            auto p = kv.find(':');
            if (p != string::npos && kv.substr(0, p) == "Obj") return kv.substr(p + 1);
        }
        return "";
    }
    int add(const ND &d, int parent, int owner, int sub)
    {
        int id = int(nodes.size());
        nodes.push_back(Node());
        Node n;
        n.name = d.name, n.kind = d.kind, n.t = d.t, n.len = d.len, n.parent = parent;
        n.path = (parent < 0 ? "" : nodes[parent].path) + "/" + d.name;
        if (d.kind == "SUB") {
            sub = int(subs.size());
            subs.push_back(d.name);
        }
        n.sub = sub;
        string ob = obName(d.mapping);
        if (!ob.empty()) {
            n.obj = int(objs.size());
            objs.push_back({ob, id, sub});
            owner = n.obj;
        }
        n.leaf0 = int(leaves.size());
        n.off = cursor;
        nodes[id] = n;
        byPath[n.path] = id;
        if (d.kind == "P") {
            int cnt = d.len ? d.len : 1;
            for (int i = 0; i < cnt; i++) {
                Leaf l;
                l.path = d.len ? n.path + "/" + std::to_string(i) : n.path;
                l.node = id, l.index = i, l.t = d.t, l.obj = owner;
                l.off = d.t.k == T_BIT ? nodes[parent].off : cursor;
                leafRange[l.path] = {int(leaves.size()), int(leaves.size()) + 1};
                leaves.push_back(l);
                if (d.t.k != T_BIT) cursor += d.t.size;
            }
            leafRange[n.path] = {n.leaf0, int(leaves.size())};
        } else {
            for (auto &k : d.kids) {
                int c = add(k, id, owner, sub);
                nodes[id].kids.push_back(c);
            }
            if (d.kind == "BB") cursor += d.t.size;
        }
        nodes[id].leaf1 = int(leaves.size());
        nodes[id].size = cursor - nodes[id].off;
        return id;
    }
    int cursor = 0;
    static string typeXml(const ND &d)
    {
        string a = " Name=\"" + d.name + "\"";
        if (!d.mapping.empty()) a += " Mapping=\"" + d.mapping + "\"";
        if (d.len) a += " ArrayLength=\"" + std::to_string(d.len) + "\"";
        auto num = [](i64 v) { return std::to_string(v); };
        if (d.kind == "BB") {
            string s = "<BitParameterBlock" + a + " Size=\"" + num(d.t.size * 8) + "\">";
            for (auto &k : d.kids)
                s += "<BitParameter Name=\"" + k.name + "\" Size=\"" + num(k.t.width) +
                     "\" Pos=\"" + num(k.t.pos) +
                     (k.t.hasMax ? "\" Max=\"" + num(k.t.mx) : string()) + "\"/>";
            return s + "</BitParameterBlock>";
        }
        if (d.kind == "P") switch (d.t.k) {
            case T_BOOL: return "<BooleanParameter" + a + "/>";
            case T_INT:
                return "<IntegerParameter" + a + " Size=\"" + num(d.t.size * 8) + "\" Signed=\"" +
                       (d.t.sgn ? "true" : "false") + "\"" +
                       (d.t.hasMin ? " Min=\"" + num(d.t.mn) + "\"" : "") +
                       (d.t.hasMax ? " Max=\"" + num(d.t.mx) + "\"" : "") +
                       (d.t.child.empty() ? "/>" : ">" + d.t.child + "</IntegerParameter>");
            case T_ENUM: {
                string s = "<EnumParameter" + a + " Size=\"" + num(d.t.size * 8) + "\">";
                for (auto &l : d.t.lits)
                    s += "<ValuePair Literal=\"" + l.first + "\" Numerical=\"" + num(l.second) +
                         "\"/>";
                return s + "</EnumParameter>";
            }
            case T_STR:
                return "<StringParameter" + a + " MaxLength=\"" + num(d.t.maxLen) + "\"/>";
            case T_FIX:
                return "<FixedPointParameter" + a + " Size=\"" + num(d.t.size * 8) +
                       "\" Integral=\"" + num(d.t.integ) + "\" Fractional=\"" + num(d.t.frac) +
                       "\"/>";
            case T_FLT: {
                char b[100] = "";
                if (d.t.hasMin) snprintf(b, sizeof b, " Min=\"%.9g\" Max=\"%.9g\"", d.t.fmn, d.t.fmx);
                return "<FloatingPointParameter" + a + " Size=\"32\"" + b + "/>";
            }
            default: abort();
            }
        string s;
        if (d.kind == "SUB") {
            s = "<Subsystem" + a + " Type=\"MC\"><ComponentLibrary/><InstanceDefinition>";
            for (auto &k : d.kids) s += typeXml(k);
            return s + "</InstanceDefinition></Subsystem>";
        }
        s = "<ParameterBlock" + a + ">";
        if (d.len) {
            for (auto &k : d.kids[0].kids) s += typeXml(k);
        } else
            for (auto &k : d.kids) s += typeXml(k);
        return s + "</ParameterBlock>";
    }
    Structure(const string &sysName, vector<ND> subsys, vector<CritDef> cr)
        : sys(sysName), crits(cr), defs(subsys)
    {
        ND root;
        root.name = sysName, root.kind = "SYS";
        root.kids = subsys;
        add(root, -1, -1, -1);
        xml = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<SystemClass Name=\"" + sysName + "\">";
        for (auto &k : subsys) xml += typeXml(k);
        xml += "</SystemClass>\n";
    }
    bool isAncestorOrSelf(int a, int n) const
    {
        for (; n >= 0; n = nodes[n].parent)
            if (n == a) return true;
        return false;
    }
    // hardware objects concerned by a node
    std::set<int> syncers(int n) const
    {
        for (int k = n; k >= 0; k = nodes[k].parent)
            if (nodes[k].obj >= 0) return {nodes[k].obj};
        std::set<int> r;
        std::function<void(int)> dig = [&](int k) {
            if (nodes[k].obj >= 0)
                r.insert(nodes[k].obj);
            else
                for (int c : nodes[k].kids) dig(c);
        };
        dig(n);
        return r;
    }
    // --- codec: an independent statement of the text forms of values
    static float flt(i64 v)
    {
        uint32_t u = uint32_t(v);
        float f;
        memcpy(&f, &u, 4);
        return f;
    }
    static i64 fltBits(float f)
    {
        uint32_t u;
        memcpy(&u, &f, 4);
        return u;
    }
    static uint64_t mask(int bits) { return bits >= 64 ? ~0ull : (1ull << bits) - 1; }
    static i64 sext(uint64_t v, int bits)
    {
        v &= mask(bits);
        return bits < 64 && (v >> (bits - 1) & 1) ? i64(v | ~mask(bits)) : i64(v);
    }
    static string text(const PType &t, i64 v, bool raw = false, bool hex = false)
    {
        char b[400];
        bool h = raw && hex;
        switch (t.k) {
        case T_STR: return strTab().s[v];
        case T_BOOL: return string(h ? "0x" : "") + (v ? "1" : "0");
        case T_ENUM:
            if (!raw) {
                for (auto &l : t.lits)
                    if (l.second == v) return l.first;
                return std::to_string(v);
            }
            break;
        case T_BIT:
            if (!h) return std::to_string(uint64_t(v));
            snprintf(b, sizeof b, "0x%llX", (unsigned long long)v);
            return b;
        case T_FIX:
            if (!raw) {
                snprintf(b, sizeof b, "%.*f", t.frac, double(v >> t.shift()) / double(1ull << t.frac));
                return b;
            }
            break;
        case T_FLT:
            if (raw) {
                snprintf(b, sizeof b, hex ? "0x%08x" : "%u", unsigned(v));
                return b;
            }
            for (int p = 6; p <= 9; p++) {
                snprintf(b, sizeof b, "%.*g", p, flt(v));
                if (strtof(b, nullptr) == flt(v)) break;
            }
            return b;
        default: break;
        }
        if (!h) return std::to_string(v);
        snprintf(b, sizeof b, "0x%0*llX", t.size * 2, (unsigned long long)(uint64_t(v) & mask(t.bits())));
        return b;
    }
    // integer literal: [+-]digits or 0x hexdigits
    static bool intText(const string &s, bool &hexa, bool &neg, unsigned __int128 &mag)
    {
        size_t i = 0;
        hexa = neg = false, mag = 0;
        if (s.compare(0, 2, "0x") == 0)
            hexa = true, i = 2;
        else if (!s.empty() && (s[0] == '+' || s[0] == '-'))
            neg = s[0] == '-', i = 1;
        if (i >= s.size()) return false;
        for (; i < s.size(); i++) {
            int d = s[i] >= '0' && s[i] <= '9' ? s[i] - '0'
                    : hexa && s[i] >= 'a' && s[i] <= 'f' ? s[i] - 'a' + 10
                    : hexa && s[i] >= 'A' && s[i] <= 'F' ? s[i] - 'A' + 10 : -1;
            if (d < 0) return false;
            if (mag >> 100) continue; // far out of any range
            mag = mag * (hexa ? 16 : 10) + unsigned(d);
        }
        return true;
    }
    static bool realText(const string &s)
    {
        size_t i = 0, n = 0;
        auto dig = [&] {
            size_t k = i;
            while (i < s.size() && s[i] >= '0' && s[i] <= '9') i++;
            return i - k;
        };
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
        n = dig();
        if (i < s.size() && s[i] == '.') i++, n += dig();
        if (!n) return false;
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
            i++;
            if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
            if (!dig()) return false;
        }
        return i == s.size();
    }
    static bool parse(const PType &t, const string &s, i64 &v, bool raw = false)
    {
        bool hexa, neg;
        unsigned __int128 m;
        auto num = [&](i64 mn, i64 mx) { // plain integer in [mn, mx]
            if (m >> 63 || hexa) return false;
            v = neg ? -i64(m) : i64(m);
            return v >= mn && v <= mx;
        };
        auto fit = [&] { // m as a two's complement pattern of the size
            if (m >> t.bits()) return false;
            v = t.sgn ? sext(uint64_t(m), t.bits()) : i64(m);
            return true;
        };
        switch (t.k) {
        case T_STR:
            if (int(s.size()) > t.maxLen || s.find('\0') != string::npos) return false;
            v = strTab().get(s);
            return true;
        case T_BOOL:
            if (s != "0" && s != "1" && s != "0x0" && s != "0x1") return false;
            v = s.back() - '0';
            return true;
        case T_ENUM:
            if (intText(s, hexa, neg, m)) {
                if (m >> 40) return false;
                v = neg ? -i64(m) : i64(m);
                if (hexa ? !fit() : raw && v >= 0 && v <= INT32_MAX && !fit()) return false;
            } else {
                bool found = false;
                for (auto &l : t.lits)
                    if (l.first == s) v = l.second, found = true;
                if (!found) return false;
            }
            for (auto &l : t.lits)
                if (l.second == v) return true;
            return false;
        case T_INT:
        case T_BIT:
            if (!intText(s, hexa, neg, m)) return false;
            if (t.k == T_BIT) {
                if (neg || m > (unsigned __int128)uint64_t(t.mx)) return false;
                v = i64(m);
                return true;
            }
            if (!t.sgn && neg) return false;
            if (hexa ? !fit() : !num(t.mn, t.mx)) return false;
            return v >= t.mn && v <= t.mx;
        case T_FIX: {
            if (raw) {
                if (!intText(s, hexa, neg, m)) return false;
                return hexa ? fit() : num(t.mn, t.mx);
            }
            if (!realText(s)) return false;
            double x = strtod(s.c_str(), nullptr), one = double(1ull << t.frac);
            double top = double(1ull << (t.integ + t.frac));
            if (!(x * one <= top - 1 && x * one >= -top)) return false;
            v = i64(std::round(x * one)) * (i64(1) << t.shift());
            return true;
        }
        case T_FLT: {
            float f;
            if (raw) {
                if (!intText(s, hexa, neg, m) || neg || m >> 32) return false;
                v = i64(m);
                f = flt(v);
            } else {
                if (!realText(s)) return false;
                f = strtof(s.c_str(), nullptr);
                v = fltBits(f);
            }
            return std::isfinite(f) && f >= t.fmn && f <= t.fmx;
        }
        }
        return false;
    }
    string objBytes(int o, const vector<i64> &vals) const
    {
        return nodeBytes(objs[o].node, vals);
    }
    string nodeBytes(int nidx, const vector<i64> &vals) const
    {
        const Node &n = nodes[nidx];
        string b(n.size, '\0');
        if (!n.size) return b;
        for (int l = n.leaf0; l < n.leaf1; l++) {
            const Leaf &f = leaves[l];
            int at = f.off - n.off;
            if (f.t.k == T_STR) {
                const string &s = strTab().s[vals[l]];
                memcpy(&b[at], s.data(), s.size());
            } else if (f.t.k == T_BIT) {
                uint64_t w = 0;
                memcpy(&w, &b[at], f.t.size);
                uint64_t m = (f.t.width >= 64 ? ~0ull : ((1ull << f.t.width) - 1));
                w = (w & ~(m << f.t.pos)) | ((uint64_t(vals[l]) & m) << f.t.pos);
                memcpy(&b[at], &w, f.t.size);
            } else {
                i64 v = vals[l];
                memcpy(&b[at], &v, f.t.size); // little endian
            }
        }
        return b;
    }
    // What follows the end of a string in its slot is not significant
    string canonNode(int nidx, string b) const
    {
        const Node &n = nodes[nidx];
        for (int l = n.leaf0; l < n.leaf1; l++)
            if (leaves[l].t.k == T_STR) {
                size_t at = leaves[l].off - n.off, e = at + leaves[l].t.size;
                if (b.size() < e) continue;
                size_t z = at;
                while (z < e - 1 && b[z]) z++;
                while (z < e) b[z++] = 0;
            }
        return b;
    }
    string canonObj(const string &obj, const string &b) const
    {
        for (auto &o : objs)
            if (o.name == obj) return b.empty() ? b : canonNode(o.node, b);
        return b;
    }
    int critIdx(const string &n) const
    {
        for (size_t i = 0; i < crits.size(); i++)
            if (crits[i].name == n) return int(i);
        return -1;
    }
};

// ---------------------------------------------------------------- rules
enum MW { M_IS, M_ISNOT, M_INC, M_EXC };
inline const char *mwName(int m)
{
    static const char *n[] = {"Is", "IsNot", "Includes", "Excludes"};
    return n[m];
}
struct Rule
{
    bool comp = true, all = true;
    vector<Rule> kids;
    int crit = 0, mw = 0, val = 0;
    string valName;
    bool eval(const vector<int> &cs) const
    {
        if (!comp) {
            int s = cs[crit];
            switch (mw) {
            case M_IS: return s == val;
            case M_ISNOT: return s != val;
            case M_INC: return (s & val) == val;
            default: return (s & val) == 0;
            }
        }
        if (all) {
            for (auto &k : kids)
                if (!k.eval(cs)) return false;
            return true;
        }
        for (auto &k : kids)
            if (k.eval(cs)) return true;
        return false;
    }
    string text(const Structure &S) const
    {
        if (!comp) return S.crits[crit].name + " " + mwName(mw) + " " + valName;
        string r = all ? "All{" : "Any{";
        for (size_t i = 0; i < kids.size(); i++) r += (i ? " , " : "") + kids[i].text(S);
        return r + "}";
    }
    string xml(const Structure &S) const
    {
        if (!comp)
            return "<SelectionCriterionRule SelectionCriterion=\"" + S.crits[crit].name +
                   "\" MatchesWhen=\"" + mwName(mw) + "\" Value=\"" + xmlEsc(valName) + "\"/>";
        string r = string("<CompoundRule Type=\"") + (all ? "All" : "Any") + "\">";
        for (auto &k : kids) r += k.xml(S);
        return r + "</CompoundRule>";
    }
};
inline Rule rAll(vector<Rule> k)
{
    Rule r;
    r.kids = std::move(k);
    return r;
}
inline Rule rAny(vector<Rule> k)
{
    Rule r = rAll(std::move(k));
    r.all = false;
    return r;
}
inline Rule rCrit(const Structure &S, const string &c, int mw, const string &v)
{
    Rule r;
    r.comp = false;
    r.crit = S.critIdx(c), r.mw = mw, r.valName = v;
    r.val = 0;
    for (auto &part : splitWs(v, "|"))
        for (auto &p : S.crits[r.crit].vals)
            if (p.first == part) r.val |= p.second;
    return r;
}
// whitespace-insensitive form, used to compare rule texts
inline string normRule(const string &s)
{
    string r;
    bool sp = false;
    for (char c : s) {
        if (strchr(" \t\r\n", c))
            sp = true;
        else {
            if (strchr("{},", c))
                sp = false;
            else if (sp && !r.empty() && !strchr("{},", r.back()))
                r += ' ';
            sp = false;
            r += c;
        }
    }
    return r;
}
struct RuleTab
{
    vector<Rule> r;
    vector<string> norm;
    std::map<string, int> id;
    int add(const Structure &S, const Rule &x)
    {
        string n = normRule(x.text(S));
        auto it = id.find(n);
        if (it != id.end()) return it->second;
        r.push_back(x);
        norm.push_back(n);
        return id[n] = int(r.size()) - 1;
    }
};

// ---------------------------------------------------------------- state
struct Area
{
    int el;
    vector<i64> v;
    bool unset = false; // without a value until the start has read the hardware
};
struct Conf
{
    string name;
    int rule = -1;
    vector<Area> seq;
};
struct Dom
{
    string name;
    bool aware = false;
    vector<int> els;
    vector<Conf> confs;
    int last = -1;
};
struct State
{
    vector<i64> main, hw;
    vector<Dom> doms;
    bool tuning = false, autosync = true, raw = false, hex = false;
    vector<int> crit;
    uint64_t failW = 0, dead = 0, restart = 0;
    std::map<int, std::pair<int, vector<i64>>> slots; // values read from an element, by slot

    string key() const
    {
        string k;
        auto n = [&](i64 v) {
            if (v >= 0 && v < 250)
                k += char(v);
            else {
                k += char(255);
                k.append((const char *)&v, 8);
            }
        };
        for (i64 v : main) n(v);
        for (i64 v : hw) n(v);
        n(tuning | autosync << 1 | raw << 2 | hex << 3);
        for (int c : crit) n(c);
        n(failW), n(dead), n(restart);
        for (auto &sl : slots) {
            n(sl.first), n(sl.second.first);
            for (i64 v : sl.second.second) n(v);
        }
        for (auto &d : doms) {
            k += d.name;
            n(d.aware), n(d.els.size());
            for (int e : d.els) n(e);
            n(d.last + 1), n(d.confs.size());
            for (auto &c : d.confs) {
                k += c.name;
                n(c.rule + 1);
                for (auto &a : c.seq) {
                    n(a.el);
                    for (i64 v : a.v) n(v);
                }
            }
        }
        return k;
    }
};

struct Outcome
{
    bool ok = true;
    bool hasVal = false;
    string val;
    vector<vector<HwEvent>> hw; // ordered groups of unordered accesses
    void group(const vector<HwEvent> &g)
    {
        if (!g.empty()) hw.push_back(g);
    }
};

struct Model
{
    const Structure &S;
    RuleTab &R;
    bool tuningAllowed = true;
    // exported settings kept by !save and used by !load (P08)
    Model(const Structure &s, RuleTab &r) : S(s), R(r) {}

    // ---------------- helpers
    int dom(const State &s, const string &n) const
    {
        for (size_t i = 0; i < s.doms.size(); i++)
            if (s.doms[i].name == n) return int(i);
        return -1;
    }
    int conf(const Dom &d, const string &n) const
    {
        for (size_t i = 0; i < d.confs.size(); i++)
            if (d.confs[i].name == n) return int(i);
        return -1;
    }
    int applicable(const State &s, const Dom &d) const
    {
        for (size_t i = 0; i < d.confs.size(); i++)
            if (d.confs[i].rule >= 0 && R.r[d.confs[i].rule].eval(s.crit)) return int(i);
        return -1;
    }
    int findNode(const string &p) const
    {
        auto it = S.byPath.find(p);
        return it == S.byPath.end() ? -1 : it->second;
    }
    bool owns(const Dom &d, int node) const
    {
        for (int e : d.els)
            if (S.isAncestorOrSelf(e, node)) return true;
        return false;
    }
    // neither the node, nor an ancestor, nor a descendant belongs to a domain
    bool rogue(const State &s, int node) const
    {
        for (auto &d : s.doms)
            for (int e : d.els)
                if (S.isAncestorOrSelf(e, node) || S.isAncestorOrSelf(node, e)) return false;
        return true;
    }
    std::set<int> domSyncers(const Dom &d) const
    {
        std::set<int> r;
        for (int e : d.els) {
            auto x = S.syncers(e);
            r.insert(x.begin(), x.end());
        }
        return r;
    }
    // sends the objects; false when one was refused or is on a dead subsystem
    bool send(State &s, const std::set<int> &objs, Outcome &o) const
    {
        bool ok = true;
        vector<HwEvent> g;
        for (int b : objs) {
            if (S.objs[b].virt()) continue;
            if (s.dead >> S.objs[b].sub & 1) {
                ok = false;
                continue;
            }
            string bytes = S.objBytes(b, s.main);
            if (s.failW >> b & 1) {
                ok = false;
                g.push_back({'F', S.objs[b].name, bytes});
                continue;
            }
            g.push_back({'S', S.objs[b].name, bytes});
            const Node &n = S.nodes[S.objs[b].node];
            for (int l = n.leaf0; l < n.leaf1; l++) s.hw[l] = s.main[l];
        }
        o.group(g);
        return ok;
    }
    void copyArea(State &s, const Area &a) const
    {
        const Node &n = S.nodes[a.el];
        for (int l = n.leaf0; l < n.leaf1; l++) s.main[l] = a.v[l - n.leaf0];
    }
    Area areaOf(const State &s, int el) const
    {
        const Node &n = S.nodes[el];
        return {el, vector<i64>(s.main.begin() + n.leaf0, s.main.begin() + n.leaf1)};
    }
    bool restoreConf(State &s, const Conf &c, bool sync, Outcome &o) const
    {
        bool ok = true;
        for (auto &a : c.seq) {
            copyArea(s, a);
            if (sync && !send(s, S.syncers(a.el), o)) ok = false;
        }
        return ok;
    }
    void apply(State &s, bool force, Outcome &o) const
    {
        std::set<int> batch;
        for (size_t k = 0; k < S.subs.size(); k++)
            if (s.restart >> k & 1)
                for (size_t b = 0; b < S.objs.size(); b++)
                    if (S.objs[b].sub == int(k)) batch.insert(int(b));
        s.restart = 0;
        for (auto &d : s.doms)
            if (!d.aware) {
                if (force) d.last = -1;
                int a = applicable(s, d);
                if (a >= 0 && a != d.last) {
                    restoreConf(s, d.confs[a], false, o);
                    d.last = a;
                    auto x = domSyncers(d);
                    batch.insert(x.begin(), x.end());
                }
            }
        send(s, batch, o);
        for (auto &d : s.doms)
            if (d.aware) {
                if (force) d.last = -1;
                int a = applicable(s, d);
                if (a >= 0 && a != d.last) {
                    restoreConf(s, d.confs[a], true, o);
                    d.last = a;
                }
            }
    }
    std::set<int> allObjs() const
    {
        std::set<int> r;
        for (size_t b = 0; b < S.objs.size(); b++) r.insert(int(b));
        return r;
    }
    i64 defVal(const Leaf &l) const
    {
        if (l.t.hasDef) return l.t.def;
        if (l.t.k == T_INT) return l.t.mn;
        if (l.t.k == T_ENUM) return l.t.lits.empty() ? 0 : l.t.lits[0].second;
        return 0;
    }
    // start from a settings document (doms of s), hardware contents in s.hw
    Outcome start(State &s) const
    {
        Outcome o;
        s.main.assign(S.leaves.size(), 0);
        // nodes for which no domain brings a valid applicable configuration
        std::function<bool(int)> uncovered = [&](int n) {
            for (auto &d : s.doms)
                for (int e : d.els) {
                    int a = e == n ? applicable(s, d) : -1;
                    if (a < 0) continue;
                    for (auto &ar : d.confs[size_t(a)].seq)
                        if (ar.el == n && !ar.unset) return false;
                }
            return true;
        };
        std::set<int> back;
        std::function<bool(int, vector<int> &)> agg = [&](int n, vector<int> &out) {
            if (!uncovered(n)) return false;
            vector<int> sub;
            size_t m = 0;
            for (int c : S.nodes[n].kids) m += agg(c, sub);
            if (m == S.nodes[n].kids.size()) {
                out.push_back(n);
                return true;
            }
            out.insert(out.end(), sub.begin(), sub.end());
            return false;
        };
        vector<int> nodes;
        agg(0, nodes);
        for (int n : nodes) {
            auto x = S.syncers(n);
            back.insert(x.begin(), x.end());
        }
        vector<HwEvent> g;
        for (int b : back) {
            const Node &n = S.nodes[S.objs[b].node];
            bool dead = s.dead >> S.objs[b].sub & 1, fail = s.failW >> b & 1;
            if (dead || fail || S.objs[b].virt()) {
                for (int l = n.leaf0; l < n.leaf1; l++) s.main[l] = defVal(S.leaves[l]);
                if (!dead && !S.objs[b].virt()) g.push_back({'f', S.objs[b].name, ""});
            } else {
                for (int l = n.leaf0; l < n.leaf1; l++) s.main[l] = s.hw[l];
                g.push_back({'R', S.objs[b].name, S.objBytes(b, s.main)});
            }
        }
        o.group(g);
        for (auto &d : s.doms)
            for (auto &c : d.confs)
                for (auto &a : c.seq)
                    if (a.unset) a = areaOf(s, a.el);
        s.restart = 0;
        apply(s, true, o);
        return o;
    }

    // ---------------- domain editing
    bool addElement(State &s, Dom &d, int el) const
    {
        if (owns(d, el)) return false;
        vector<int> merged;
        for (int e : d.els)
            if (e != el && S.isAncestorOrSelf(el, e)) merged.push_back(e);
        for (auto &c : d.confs) {
            Area a = areaOf(s, el);
            for (int e : merged)
                for (auto &x : c.seq)
                    if (x.el == e)
                        for (size_t i = 0; i < x.v.size(); i++)
                            a.v[S.nodes[e].leaf0 - S.nodes[el].leaf0 + i] = x.v[i];
            for (int e : merged)
                c.seq.erase(std::remove_if(c.seq.begin(), c.seq.end(),
                                           [&](const Area &y) { return y.el == e; }),
                            c.seq.end());
            c.seq.push_back(a);
        }
        for (int e : merged) d.els.erase(std::find(d.els.begin(), d.els.end(), e));
        d.els.push_back(el);
        return true;
    }
    bool splitEl(Dom &d, int el) const
    {
        auto it = std::find(d.els.begin(), d.els.end(), el);
        if (it == d.els.end() || S.nodes[el].kids.empty()) return false;
        d.els.erase(it);
        for (int k : S.nodes[el].kids) d.els.push_back(k);
        for (auto &c : d.confs) {
            auto x = std::find_if(c.seq.begin(), c.seq.end(),
                                  [&](const Area &a) { return a.el == el; });
            Area from = *x;
            c.seq.erase(x);
            for (int k : S.nodes[el].kids) {
                Area a{k, {}};
                for (int l = S.nodes[k].leaf0; l < S.nodes[k].leaf1; l++)
                    a.v.push_back(from.v[l - S.nodes[el].leaf0]);
                c.seq.push_back(a);
            }
        }
        return true;
    }

    // text access to a range of leaves (array: space or comma separated, may be partial)
    bool setText(const string &path, const string &text, std::function<void(int, i64)> put,
                 bool raw = false) const
    {
        auto it = S.leafRange.find(path);
        if (it == S.leafRange.end()) return false;
        int a = it->second.first, b = it->second.second;
        const Leaf &l = S.leaves[a];
        if (!S.nodes[l.node].len) {
            i64 v;
            if (!Structure::parse(l.t, text, v, raw)) return false;
            put(a, v);
            return true;
        }
        b = S.nodes[l.node].leaf1; // an index only says where to start
        auto toks = splitWs(text, " \t\n\r,");
        if (int(toks.size()) > b - a) return false;
        vector<i64> vs;
        for (auto &t : toks) {
            i64 v;
            if (!Structure::parse(l.t, t, v, raw)) return false;
            vs.push_back(v);
        }
        for (size_t i = 0; i < vs.size(); i++) put(a + int(i), vs[i]);
        return true;
    }
    string getText(const string &path, const vector<i64> &vals, int base = 0, bool raw = false,
                   bool hex = false) const
    {
        auto it = S.leafRange.find(path);
        string r;
        for (int l = it->second.first; l < it->second.second; l++)
            r += (l > it->second.first ? " " : "") + Structure::text(S.leaves[l].t, vals[l - base], raw, hex);
        return r;
    }

    // ---------------- the commands. State s is only left modified if the
    // command succeeds or if its partial effect is the specified one.
    static string trim(const string &x)
    {
        auto a = x.find_first_not_of(" \n\r\t\v\f");
        return a == string::npos ? "" : x.substr(a, x.find_last_not_of(" \n\r\t\v\f") - a + 1);
    }
    // typed interface of a parameter without adaptation: which conversions exist, and their values
    static bool typedParse(const PType &t, char kind, const string &x, i64 &v)
    {
        if (kind == 't') return Structure::parse(t, x, v);
        if (t.k == T_STR) return false;
        if (kind == 'd') {
            if (t.k != T_FIX && t.k != T_FLT) return false;
            double d = strtod(x.c_str(), nullptr);
            if (t.k == T_FIX) {
                double one = double(1ull << t.frac), top = double(1ull << (t.integ + t.frac));
                if (!(d * one <= top - 1 && d * one >= -top)) return false;
                v = i64(std::round(d * one)) * (i64(1) << t.shift());
                return true;
            }
            if (!(d >= -double(FLT_MAX) && d <= double(FLT_MAX) && float(d) >= t.fmn && float(d) <= t.fmx)) return false;
            v = Structure::fltBits(float(d));
            return true;
        }
        if (t.k == T_FIX || t.k == T_FLT) return false;
        i64 k = strtoll(x.c_str(), nullptr, 10);
        if (kind == 'b') {
            if (t.k != T_BOOL && !(t.k == T_BIT && t.width == 1)) return false;
            v = k != 0;
            return true;
        }
        if (kind == 'u' ? t.k == T_ENUM : t.k == T_BOOL || t.k == T_BIT) return false;
        if (t.k == T_ENUM) {
            for (auto &l : t.lits)
                if (l.second == k) {
                    v = k;
                    return true;
                }
            return false;
        }
        if (t.k == T_BIT ? uint64_t(k) > uint64_t(t.mx) : k < t.mn || k > t.mx) return false;
        v = k;
        return true;
    }
    static bool typedText(const PType &t, char kind, i64 v, string &x)
    {
        if (kind == 't') {
            x = Structure::text(t, v);
            return true;
        }
        if (t.k == T_STR) return false;
        if (kind == 'd') {
            if (t.k != T_FIX && t.k != T_FLT) return false;
            char b[60];
            snprintf(b, sizeof b, "%.17g", t.k == T_FLT ? double(Structure::flt(v)) : double(v >> t.shift()) / double(1ull << t.frac));
            x = b;
            return true;
        }
        if (t.k == T_FIX || t.k == T_FLT) return false;
        if (kind == 'b' && t.k != T_BOOL && !(t.k == T_BIT && t.width == 1)) return false;
        if (kind == 'u' && (t.k == T_ENUM || (t.k == T_BIT && uint64_t(v) > UINT32_MAX))) return false;
        if (kind == 's' && (t.k == T_BOOL || t.k == T_BIT)) return false;
        x = std::to_string(v);
        return true;
    }
    Outcome exec(State &s, const Op &op0) const
    {
        Outcome o;
        // a command and its arguments are taken without surrounding blanks
        Op op = op0;
        if (op[0].empty() || op[0][0] != '!')
            for (auto &x : op) x = trim(x);
        const string &c = op[0];
        size_t n = op.size() - 1;
        auto A = [&](size_t i) -> const string & { return op[i + 1]; };
        auto fail = [&]() {
            o.ok = false;
            return o;
        };
        auto ret = [&](const string &v) {
            o.hasVal = true;
            o.val = v;
            return o;
        };
        // --- environment
        if (c == "!crit") {
            s.crit[S.critIdx(A(0))] = atoi(A(1).c_str());
            return o;
        }
        if (c == "!apply") {
            if (!s.tuning) apply(s, false, o);
            return o;
        }
        if (c == "!fail" || c == "!heal") {
            for (size_t b = 0; b < S.objs.size(); b++)
                if (S.objs[b].name == A(0)) {
                    if (c == "!fail")
                        s.failW |= 1ull << b;
                    else
                        s.failW &= ~(1ull << b);
                }
            return o;
        }
        if (c == "!die" || c == "!live" || c == "!restart") {
            for (size_t k = 0; k < S.subs.size(); k++)
                if (S.subs[k] == A(0)) {
                    if (c == "!die") s.dead |= 1ull << k;
                    if (c == "!live") s.dead &= ~(1ull << k);
                    if (c == "!restart") {
                        s.restart |= 1ull << k;
                        // a restarted hardware has lost its contents
                        for (size_t l = 0; l < S.leaves.size(); l++)
                            if (S.leaves[l].obj >= 0 && S.objs[S.leaves[l].obj].sub == int(k))
                                s.hw[l] = 0;
                    }
                }
            return o;
        }
        if (c == "!hset") { // client handle write, text form
            auto it = S.leafRange.find(A(0));
            int node = findNode(A(0));
            if (it == S.leafRange.end() || node < 0 || S.nodes[node].len) return fail();
            for (auto &d : s.doms)
                if (owns(d, node)) return fail();
            if (s.tuning) return o; // accepted, ignored
            vector<i64> nv = s.main;
            if (!setText(A(0), A(1), [&](int l, i64 v) { nv[l] = v; })) return fail();
            s.main = nv;
            const Leaf &l = S.leaves[it->second.first];
            if (l.obj < 0) return o;
            o.ok = send(s, {l.obj}, o);
            return o;
        }
        // typed access of a handle: kind (b, u, s, d, t), dimension (0 scalar, 1 array), path, values
        if (c == "!ht" || c == "!hg") {
            int node = findNode(A(2));
            if (node < 0 || S.nodes[node].kind != "P") return fail();
            bool arr = S.nodes[node].len > 0;
            if ((A(1) == "1") != arr) return fail();
            int l0 = S.nodes[node].leaf0, len = S.nodes[node].leaf1 - l0;
            const PType &t = S.nodes[node].t;
            if (c == "!hg") {
                vector<string> r;
                for (int k = 0; k < len; k++) {
                    string x;
                    if (!typedText(t, A(0)[0], s.main[l0 + k], x)) return fail();
                    r.push_back(x);
                }
                return ret(join(r, " "));
            }
            if (!rogue(s, node) || int(n) - 3 != len) return fail();
            if (s.tuning) return o;
            vector<i64> nv = s.main;
            for (int k = 0; k < len; k++)
                if (!typedParse(t, A(0)[0], A(3 + k), nv[l0 + k])) return fail();
            s.main = nv;
            if (S.leaves[l0].obj >= 0) o.ok = send(s, {S.leaves[l0].obj}, o);
            return o;
        }
        // reading an element into a slot, by XML or bytes, through a command or a handle
        if (c == "!grab") {
            int el = findNode(A(1));
            if (el < 0) return fail();
            s.slots[atoi(A(0).c_str())] = {el, vector<i64>(s.main.begin() + S.nodes[el].leaf0,
                                                           s.main.begin() + S.nodes[el].leaf1)};
            return o;
        }
        if (c == "!put" || c == "!puton") { // writing it back (onto another element)
            auto it = s.slots.find(atoi(A(0).c_str()));
            if (it == s.slots.end()) return fail();
            int el = it->second.first;
            bool handle = A(1) == "X" || A(1) == "B";
            if (c == "!puton" && findNode(A(2)) != el) {
                el = findNode(A(2));
                if (handle && el >= 0 && rogue(s, el) && s.tuning) return o;
                return fail();
            }
            if (handle) {
                if (!rogue(s, el)) return fail();
                if (s.tuning) return o;
            } else if (!s.tuning)
                return fail();
            std::copy(it->second.second.begin(), it->second.second.end(),
                      s.main.begin() + S.nodes[el].leaf0);
            if (s.autosync) o.ok = send(s, S.syncers(el), o);
            return o;
        }
        if (c == "!badsub") return fail(); // path, channel, document or bytes that do not suit
        if (c == "!rogue") { // what a handle tells of the ownership
            int el = findNode(A(0));
            if (el < 0) return fail();
            return ret(rogue(s, el) ? "rogue" : "owned");
        }
        if (c == "!hget") {
            auto it = S.leafRange.find(A(0));
            int hnode = findNode(A(0));
            if (it == S.leafRange.end() || hnode < 0 || S.nodes[hnode].len) return fail();
            return ret(getText(A(0), s.main));
        }
        // --- modes
        if (c == "setTuningMode") {
            if (n < 1 || (A(0) != "on" && A(0) != "off")) return fail();
            bool on = A(0) == "on";
            if (on == s.tuning || (on && !tuningAllowed)) return fail();
            if (!on) apply(s, true, o);
            s.tuning = on;
            return o;
        }
        if (c == "getTuningMode") return ret(s.tuning ? "on" : "off");
        if (c == "setAutoSync") {
            if (n < 1 || (A(0) != "on" && A(0) != "off")) return fail();
            bool on = A(0) == "on";
            if (on && !s.autosync && !send(s, allObjs(), o)) return fail();
            s.autosync = on;
            return o;
        }
        if (c == "getAutoSync") return ret(s.autosync ? "on" : "off");
        if (c == "sync") {
            if (s.autosync) return fail();
            o.ok = send(s, allObjs(), o);
            return o;
        }
        if (c == "setValueSpace") {
            if (n < 1 || (A(0) != "raw" && A(0) != "real")) return fail();
            s.raw = A(0) == "raw";
            return o;
        }
        if (c == "getValueSpace") return ret(s.raw ? "raw" : "real");
        if (c == "setOutputRawFormat") {
            if (n < 1 || (A(0) != "hex" && A(0) != "dec")) return fail();
            s.hex = A(0) == "hex";
            return o;
        }
        if (c == "getOutputRawFormat") return ret(s.hex ? "hex" : "dec");
        // --- parameters
        if (c == "setParameter") {
            if (n < 2 || !s.tuning) return fail();
            string v = join(vector<string>(op.begin() + 2, op.end()), " ");
            vector<i64> nv = s.main;
            if (!setText(A(0), v, [&](int l, i64 x) { nv[l] = x; }, s.raw)) return fail();
            s.main = nv;
            if (s.autosync) o.ok = send(s, {S.leaves[S.leafRange.at(A(0)).first].obj}, o);
            return o;
        }
        if (c == "getParameter") {
            if (n < 1 || !S.leafRange.count(A(0))) return fail();
            return ret(getText(A(0), s.main, 0, s.raw, s.hex));
        }
        if (c == "setElementBytes" || c == "!hbytes" || c == "!hxml") {
            if (n < 2) return fail();
            int el = findNode(A(0));
            if (c[0] == '!') {
                if (el < 0 || !rogue(s, el)) return fail();
                if (s.tuning) return o; // client writes are ignored
            } else if (!s.tuning)
                return fail();
            if (el < 0 || int(n) - 1 != S.nodes[el].size) return fail();
            vector<i64> nv = s.main;
            string b;
            for (size_t i = 1; i < n; i++) {
                // decimal digits, or hexadecimal ones after 0x
                string a = A(i);
                bool hex = a.compare(0, 2, "0x") == 0;
                if (hex) a.erase(0, 2);
                long x = 0;
                for (char ch : a)
                    x = hex ? isxdigit((unsigned char)ch) ? std::min(256L, x * 16 + (isdigit((unsigned char)ch) ? ch - '0' : (ch | 32) - 'a' + 10)) : 256L
                        : isdigit((unsigned char)ch) ? std::min(256L, x * 10 + ch - '0') : 256L;
                if (a.empty() || x > 255) return fail();
                b += char(x);
            }
            decode(el, b, nv);
            s.main = nv;
            if (s.autosync) o.ok = send(s, S.syncers(el), o);
            return o;
        }
        if (c == "getElementBytes") {
            int el = n < 1 ? -1 : findNode(A(0));
            if (el < 0) return fail();
            return ret(hexBytes(S.nodeBytes(el, s.main))); // a lone bit field has none
        }
        if (c == "!setxml") { // write element subtree: path, values of the leaves (texts)
            if (!s.tuning) return fail();
            int el = findNode(A(0));
            if (el < 0) return fail();
            vector<i64> nv = s.main;
            const Node &nd = S.nodes[el];
            for (int l = nd.leaf0; l < nd.leaf1; l++) {
                i64 v;
                if (!Structure::parse(S.leaves[l].t, A(1 + l - nd.leaf0), v)) return fail();
                nv[l] = v;
            }
            s.main = nv;
            if (s.autosync) o.ok = send(s, S.syncers(el), o);
            return o;
        }
        // --- domains
        auto needTuning = [&]() { return s.tuning; };
        if (c == "createDomain") {
            if (n < 1 || !needTuning() || A(0).empty() || dom(s, A(0)) >= 0) return fail();
            Dom d;
            d.name = A(0);
            s.doms.push_back(d);
            return o;
        }
        if (c == "deleteDomain") {
            if (n < 1 || !needTuning()) return fail();
            int d = dom(s, A(0));
            if (d < 0) return fail();
            s.doms.erase(s.doms.begin() + d);
            return o;
        }
        if (c == "deleteAllDomains") {
            if (!needTuning()) return fail();
            s.doms.clear();
            return o;
        }
        if (c == "renameDomain") {
            if (n < 2 || A(1).empty()) return fail();
            int d = dom(s, A(0));
            if (d < 0) return fail();
            int e = dom(s, A(1));
            if (e >= 0 && e != d) return fail();
            s.doms[d].name = A(1);
            return o;
        }
        if (c == "setSequenceAwareness") {
            if (n < 2 || (A(1) != "true" && A(1) != "false") || !needTuning()) return fail();
            int d = dom(s, A(0));
            if (d < 0) return fail();
            s.doms[d].aware = A(1) == "true";
            return o;
        }
        if (c == "getSequenceAwareness") {
            int d = n < 1 ? -1 : dom(s, A(0));
            if (d < 0) return fail();
            return ret(s.doms[d].aware ? "true" : "false");
        }
        if (c == "addElement" || c == "removeElement" || c == "splitDomain") {
            if (n < 2 || !needTuning()) return fail();
            int el = findNode(A(1));
            int d = dom(s, A(0));
            if (el < 0 || d < 0) return fail();
            Dom &D = s.doms[d];
            if (c == "addElement") {
                if (!addElement(s, D, el)) return fail();
            } else if (c == "removeElement") {
                auto it = std::find(D.els.begin(), D.els.end(), el);
                if (it == D.els.end()) return fail();
                D.els.erase(it);
                for (auto &cf : D.confs)
                    cf.seq.erase(std::remove_if(cf.seq.begin(), cf.seq.end(),
                                                [&](const Area &y) { return y.el == el; }),
                                 cf.seq.end());
            } else if (!splitEl(D, el))
                return fail();
            return o;
        }
        if (c == "createConfiguration") {
            if (n < 2 || !needTuning()) return fail();
            int d = dom(s, A(0));
            if (d < 0 || A(1).empty() || conf(s.doms[d], A(1)) >= 0) return fail();
            Dom &D = s.doms[d];
            Conf cf;
            cf.name = A(1);
            for (int e : D.els) {
                if (D.confs.empty())
                    cf.seq.push_back(areaOf(s, e));
                else
                    for (auto &a : D.confs[0].seq)
                        if (a.el == e) cf.seq.push_back(a);
            }
            D.confs.push_back(cf);
            return o;
        }
        if (c == "deleteConfiguration" || c == "saveConfiguration" ||
            c == "restoreConfiguration") {
            if (n < 2 || !needTuning()) return fail();
            int d = dom(s, A(0));
            if (d < 0) return fail();
            Dom &D = s.doms[d];
            int k = conf(D, A(1));
            if (k < 0) return fail();
            if (c == "deleteConfiguration") {
                D.confs.erase(D.confs.begin() + k);
                if (D.last == k)
                    D.last = -1;
                else if (D.last > k)
                    D.last--;
            } else if (c == "saveConfiguration") {
                for (auto &a : D.confs[k].seq) a = areaOf(s, a.el);
            } else {
                o.ok = restoreConf(s, D.confs[k], s.autosync && D.aware, o);
                D.last = k;
                if (s.autosync && !D.aware) {
                    auto x = domSyncers(D);
                    if (!send(s, x, o)) o.ok = false;
                }
            }
            return o;
        }
        if (c == "renameConfiguration") {
            if (n < 3 || A(2).empty()) return fail();
            int d = dom(s, A(0));
            if (d < 0) return fail();
            Dom &D = s.doms[d];
            int k = conf(D, A(1));
            int e = conf(D, A(2));
            if (k < 0 || (e >= 0 && e != k)) return fail();
            D.confs[k].name = A(2);
            return o;
        }
        if (c == "setElementSequence") {
            if (n < 3 || !needTuning()) return fail();
            int d = dom(s, A(0));
            if (d < 0) return fail();
            int k = conf(s.doms[d], A(1));
            if (k < 0) return fail();
            Conf &cf = s.doms[d].confs[k];
            vector<Area> front;
            std::set<int> seen;
            for (size_t i = 2; i < n; i++) {
                int el = findNode(A(i));
                auto it = std::find_if(cf.seq.begin(), cf.seq.end(),
                                       [&](const Area &a) { return a.el == el; });
                if (el < 0 || it == cf.seq.end() || !seen.insert(el).second) return fail();
                front.push_back(*it);
            }
            for (auto &a : cf.seq)
                if (!seen.count(a.el)) front.push_back(a);
            cf.seq = front;
            return o;
        }
        if (c == "getElementSequence") {
            if (n < 2) return fail();
            int d = dom(s, A(0));
            if (d < 0) return fail();
            int k = conf(s.doms[d], A(1));
            if (k < 0) return fail();
            string r = "\n";
            for (auto &a : s.doms[d].confs[k].seq) r += S.nodes[a.el].path + "\n";
            return ret(r);
        }
        if (c == "setRule" || c == "clearRule" || c == "getRule") {
            if (n < 2) return fail();
            if (c == "setRule" && n < 3) return fail();
            int d = dom(s, A(0));
            if (d < 0) return fail();
            int k = conf(s.doms[d], A(1));
            if (k < 0) return fail();
            int &r = s.doms[d].confs[k].rule;
            if (c == "getRule") return ret(r < 0 ? "<none>" : R.norm[r]);
            if (c == "clearRule") {
                r = -1;
                return o;
            }
            auto it = R.id.find(normRule(join(vector<string>(op.begin() + 3, op.end()), " ")));
            if (it == R.id.end()) return fail();
            r = it->second;
            return o;
        }
        if (c == "setConfigurationParameter" || c == "getConfigurationParameter") {
            bool set = c[0] == 's';
            if (n < (set ? 4u : 3u)) return fail();
            int el = findNode(A(2));
            int d = dom(s, A(0));
            if (el < 0 || d < 0) return fail();
            Dom &D = s.doms[d];
            int k = conf(D, A(1));
            if (k < 0 || !owns(D, el)) return fail();
            Area *a = nullptr;
            for (auto &x : D.confs[k].seq)
                if (S.isAncestorOrSelf(x.el, el)) a = &x;
            if (!S.nodes[el].isParam()) return fail();
            int base = S.nodes[a->el].leaf0;
            if (!set) {
                if (D.last == k) return ret(getText(A(2), s.main, 0, s.raw, s.hex));
                return ret(getText(A(2), a->v, base, s.raw, s.hex));
            }
            string v = join(vector<string>(op.begin() + 4, op.end()), " ");
            vector<i64> nv = a->v;
            if (!setText(A(2), v, [&](int l, i64 x) { nv[l - base] = x; }, s.raw)) return fail();
            a->v = nv;
            if (D.last == k) {
                setText(A(2), v, [&](int l, i64 x) { s.main[l] = x; }, s.raw);
                if (s.autosync) o.ok = send(s, {S.leaves[S.leafRange.at(A(2)).first].obj}, o);
            }
            return o;
        }
        // --- browsing
        if (c == "listDomains") {
            string r = "\n";
            for (auto &d : s.doms) r += d.name + (d.aware ? " [sequence aware]" : "") + "\n";
            return ret(r);
        }
        if (c == "listDomainElements") {
            int d = n < 1 ? -1 : dom(s, A(0));
            if (d < 0) return fail();
            string r;
            for (int e : s.doms[d].els) r += S.nodes[e].path + "\n";
            return ret("\n" + r);
        }
        if (c == "listConfigurations") {
            int d = n < 1 ? -1 : dom(s, A(0));
            if (d < 0) return fail();
            string r = "\n";
            for (auto &k : s.doms[d].confs) r += k.name + "\n";
            return ret(r);
        }
        // --- document exchange (the harness exports then imports)
        // (in a file, or after deleting it)
        if (c == "!xd" || c == "!xfd" || c == "!xdd") {
            int d = dom(s, A(0));
            if (d < 0 || !s.tuning) return fail();
            Dom D = s.doms[d];
            s.doms.erase(s.doms.begin() + d);
            D.last = -1;
            s.doms.push_back(D);
            return o;
        }
        if (c == "!xa" || c == "!xfa") { // export all, import all (in a file)
            if (!s.tuning) return fail();
            for (auto &d : s.doms) d.last = -1;
            return o;
        }
        if (c == "!xns") { // without settings: configurations take the live values
            if (!s.tuning) return fail();
            for (auto &d : s.doms) {
                d.last = -1;
                for (auto &k : d.confs) {
                    k.seq.clear();
                    for (int e : d.els) k.seq.push_back(areaOf(s, e));
                }
            }
            return o;
        }
        if (c == "!x1ns") { // one domain, its settings left out
            int d = dom(s, A(0));
            if (d < 0 || !s.tuning) return fail();
            Dom D = s.doms[d];
            s.doms.erase(s.doms.begin() + d);
            D.last = -1;
            for (auto &k : D.confs) {
                k.seq.clear();
                for (int e : D.els) k.seq.push_back(areaOf(s, e));
            }
            s.doms.push_back(D);
            return o;
        }
        if (c == "!xfresh" || c == "!xboot" || c == "!xschema") return ret(domainsText(s, false));
        if (c == "!xdup") { // import an exported domain without overwrite
            return fail();
        }
        if (c == "!xas") { // import an exported domain under another name
            int d = dom(s, A(0)), e = dom(s, A(1));
            if (d < 0 || !s.tuning || A(1).empty() || (e >= 0 && n < 3)) return fail();
            Dom D = s.doms[d];
            D.name = A(1), D.last = -1;
            if (e >= 0) s.doms.erase(s.doms.begin() + e);
            s.doms.push_back(D);
            return o;
        }
        if (c == "!xkas") { // import an exported domain with a configuration renamed
            int d = dom(s, A(0));
            if (d < 0 || !s.tuning) return fail();
            Dom D = s.doms[d];
            int k = conf(D, A(1)), e = conf(D, A(2));
            if (k >= 0 && (A(2).empty() || (e >= 0 && e != k))) return fail();
            if (k >= 0) D.confs[k].name = A(2);
            D.last = -1;
            s.doms.erase(s.doms.begin() + d);
            s.doms.push_back(D);
            return o;
        }
        if (c == "!badall") { // faulty document imported in place of all domains
            if (s.tuning) s.doms.clear();
            return fail();
        }
        if (c == "!badone") return fail();
        if (c.empty() || c == "noSuchCommand") return fail();
        fprintf(stderr, "model: unknown op %s\n", c.c_str());
        abort();
    }
    static string hexBytes(const string &b)
    {
        string r;
        char t[8];
        for (size_t i = 0; i < b.size(); i++) {
            snprintf(t, sizeof t, "%s0x%02x", i ? " " : "", (unsigned char)b[i]);
            r += t;
        }
        return r;
    }
    void decode(int el, const string &b, vector<i64> &v) const
    {
        const Node &n = S.nodes[el];
        if (!n.size) return;
        for (int l = n.leaf0; l < n.leaf1; l++) {
            const Leaf &f = S.leaves[l];
            int at = f.off - n.off;
            if (f.t.k == T_STR)
                v[l] = strTab().get(string(b.c_str() + at).substr(0, f.t.maxLen));
            else {
                uint64_t w = 0;
                memcpy(&w, &b[at], f.t.size);
                if (f.t.k == T_BIT) {
                    v[l] = i64(w >> f.t.pos & Structure::mask(f.t.width));
                } else if (f.t.sgn) {
                    int sh = 64 - 8 * f.t.size;
                    v[l] = i64(w << sh) >> sh;
                } else
                    v[l] = i64(w);
            }
        }
    }

    // ---------------- documents
    string settingsXml(const Area &a, const vector<string> *texts = nullptr) const
    {
        int l0 = S.nodes[a.el].leaf0;
        std::function<string(int)> rec = [&](int n) -> string {
            const Node &d = S.nodes[n];
            string nm = " Name=\"" + d.name + "\"";
            if (d.kind == "P") {
                static const char *tags[] = {"BooleanParameter", "IntegerParameter", "EnumParameter",
                                             "StringParameter", "BitParameter", "FixedPointParameter",
                                             "FloatingPointParameter"};
                string tag = tags[d.t.k];
                string txt;
                for (int l = d.leaf0; l < d.leaf1; l++)
                    txt += (l > d.leaf0 ? " " : "") +
                           (texts ? (*texts)[l - l0] : Structure::text(S.leaves[l].t, a.v[l - l0]));
                return "<" + tag + nm + ">" + xmlEsc(txt) + "</" + tag + ">";
            }
            string tag = d.kind == "BB" ? "BitParameterBlock"
                                        : d.kind == "SUB" ? "Subsystem"
                                                          : d.kind == "SYS" ? "SystemClass"
                                                                            : "ParameterBlock";
            string r = "<" + tag + nm + ">";
            for (int k : d.kids) r += rec(k);
            return r + "</" + tag + ">";
        };
        return rec(a.el);
    }
    string domainXml(const Dom &d, bool settings = true) const
    {
        string x = "<ConfigurableDomain Name=\"" + xmlEsc(d.name) + "\" SequenceAware=\"" +
                   (d.aware ? "true" : "false") + "\"><Configurations>";
        for (auto &c : d.confs)
            x += "<Configuration Name=\"" + xmlEsc(c.name) + "\">" +
                 (c.rule >= 0 ? R.r[c.rule].xml(S) : "") + "</Configuration>";
        x += "</Configurations><ConfigurableElements>";
        for (int e : d.els) x += "<ConfigurableElement Path=\"" + S.nodes[e].path + "\"/>";
        x += "</ConfigurableElements>";
        if (settings) {
            x += "<Settings>";
            for (auto &c : d.confs) {
                x += "<Configuration Name=\"" + xmlEsc(c.name) + "\">";
                for (auto &a : c.seq)
                    x += "<ConfigurableElement Path=\"" + S.nodes[a.el].path + "\">" +
                         settingsXml(a) + "</ConfigurableElement>";
                x += "</Configuration>";
            }
            x += "</Settings>";
        }
        return x + "</ConfigurableDomain>";
    }
    string domainsXml(const State &s, bool settings = true) const
    {
        string x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<ConfigurableDomains "
                   "SystemClassName=\"" +
                   S.sys + "\">";
        for (auto &d : s.doms) x += domainXml(d, settings);
        return x + "</ConfigurableDomains>\n";
    }

    string domainsText(const State &s, bool lasts) const
    {
        string r;
        for (auto &d : s.doms) {
            r += "domain " + d.name + " aware=" + (d.aware ? "true" : "false") + "\n elements";
            for (int e : d.els) r += " " + S.nodes[e].path;
            r += "\n";
            for (auto &c : d.confs) {
                r += " conf " + c.name + " rule " +
                     (c.rule < 0 ? string("<none>") : R.norm[c.rule]) + "\n";
                for (auto &a : c.seq) {
                    r += "  area " + S.nodes[a.el].path + ":";
                    const Node &n = S.nodes[a.el];
                    int prev = -1;
                    for (int l = n.leaf0; l < n.leaf1; l++) {
                        r += prev == S.leaves[l].node ? " " : " | ";
                        prev = S.leaves[l].node;
                        r += Structure::text(S.leaves[l].t, a.v[l - n.leaf0]);
                    }
                    r += "\n";
                }
            }
            if (!lasts) continue;
            int ap = applicable(s, d);
            r += " last " + (d.last < 0 ? string("<none>") : d.confs[d.last].name) + " [" +
                 (ap < 0 ? string("<none>") : ap == d.last ? string("") : d.confs[ap].name) + "]\n";
        }
        return r;
    }
    // ---------------- canonical description of everything observable
    string observe(const State &s) const
    {
        string r;
        r.reserve(2048);
        r += string("tuning=") + (s.tuning ? "on" : "off") + " autosync=" +
             (s.autosync ? "on" : "off") + " space=" + (s.raw ? "raw" : "real") + " fmt=" +
             (s.hex ? "hex" : "dec") + "\n";
        for (size_t l = 0; l < S.leaves.size(); l++)
            r += "value " + S.leaves[l].path + "=" + Structure::text(S.leaves[l].t, s.main[l]) +
                 "\n";
        r += domainsText(s, true);
        for (size_t c = 0; c < S.crits.size(); c++)
            r += "crit " + S.crits[c].name + "=" + std::to_string(s.crit[c]) + "\n";
        for (size_t b = 0; b < S.objs.size(); b++)
            if (!S.objs[b].virt()) r += "hw " + S.objs[b].name + "=" + hexBytes(S.objBytes(int(b), s.hw)) + "\n";
        return r;
    }
};
