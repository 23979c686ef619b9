// P10: one parameter of every scalar type variant, every text and typed value of
// exhaustive small ranges and boundary sets, through every interface.
#include "drivers.h"
#include "worldset.h"
#include <limits>

// ------------------------------------------------------------ variants
struct Adapt
{
    int kind = 0; // 0 none, 1 linear, 2 logarithmic
    long double num = 1, den = 1, base = 10, floor = -HUGE_VALL;
    i64 off = 0;
    string xml() const
    {
        if (!kind) return "";
        char b[300];
        snprintf(b, sizeof b, "<%sAdaptation SlopeNumerator=\"%.17Lg\" SlopeDenominator=\"%.17Lg\" Offset=\"%lld\"",
                 kind == 1 ? "Linear" : "Logarithmic", num, den, (long long)off);
        string s = b;
        if (kind == 2) {
            snprintf(b, sizeof b, " LogarithmBase=\"%.17Lg\"", base);
            s += b;
            if (std::isfinite((double)floor)) {
                snprintf(b, sizeof b, " FloorValue=\"%.17Lg\"", floor);
                s += b;
            }
        }
        return s + "/>";
    }
    // raw values a faithful conversion may give, none: unrepresentable
    std::set<i64> from(double x, bool &gray) const
    {
        gray = false;
        if (!std::isfinite(x)) return {};
        long double t;
        if (kind == 1)
            t = (long double)x * num / den;
        else {
            if (x < 0) gray = true;
            if (x < 0 || x == 0) {
                if (!std::isfinite((double)floor)) return {};
                return {i64(floor)};
            }
            t = logl((long double)x) / logl(base) * num / den;
        }
        if (fabsl(t) > 1e15L) return {};
        std::set<i64> r;
        long double eps = 1e-12L * std::max(1.0L, fabsl(t));
        for (long double y : {t, t - eps, t + eps}) r.insert(i64(truncl(y)) + off);
        // no rounding on the way, no other result
        long double p = (long double)x * num;
        if (kind == 1 && fabsl(p) < 9e15L && p == truncl(p) && fmodl(p, den) == 0) r = {i64(truncl(t)) + off};
        if (kind == 2 && std::isfinite((double)floor)) {
            std::set<i64> q;
            for (i64 v : r) q.insert(std::max(v, i64(floor)));
            r = q;
        }
        return r;
    }
    long double to(i64 v) const
    {
        long double y = (long double)(v - off) * den / num;
        return kind == 1 ? y : expl(y * logl(base));
    }
};
struct Variant
{
    ND nd; // parameter, or bit block whose first child is the parameter
    Adapt ad;
    bool bit = false;
    string cls; // text alphabet class
};
static vector<Variant> variants(bool T)
{
    vector<Variant> v;
    auto put = [&](ND d, const char *cls, Adapt a = Adapt()) {
        Variant x;
        x.nd = d, x.ad = a, x.cls = cls, x.bit = d.kind == "BB";
        if (a.kind) x.nd.t.child = a.xml();
        v.push_back(x);
    };
    put(boolean("b"), "int");
    for (int s : {1, 2, 4})
        for (bool sg : {false, true}) put(integer("i", s, sg), "int");
    put(ranged(integer("i", 1, true), -10, 10), "int");
    put(ranged(integer("i", 1, false), 3, 200), "int");
    put(ranged(integer("i", 2, true), -300, -5), "int");
    put(ranged(integer("i", 4, true), -70000, 70000), "int");
    put(ranged(integer("i", 4, false), 0, 3000000000ll), "int");
    put(ranged(integer("i", 4, true), 5, 9), "int");
    auto en = [&](int size, vector<std::pair<string, i64>> l) {
        ND d = enumeration("e", l);
        d.t.size = size;
        return d;
    };
    put(en(1, {{"a", -128}, {"b", 5}, {"c", 127}, {"1x", 0}}), "enum");
    put(en(2, {{"a", -3}, {"ab", 300}, {"b", 1}}), "enum");
    put(en(4, {{"a", 1}, {"b", -2147483647ll}, {"c", 2147483647ll}, {"x", -1}}), "enum");
    put(bitBlock("k", 1, {{"f", 2, 3}}), "int");
    put(bitBlock("k", 1, {{"f", 7, 1}}), "int");
    put(bitBlock("k", 2, {{"f", 0, 16}}), "int");
    put(bitBlock("k", 4, {{"f", 31, 1}}), "int");
    put(bitBlock("k", 4, {{"f", 0, 32}}), "int");
    put(bitBlock("k", 8, {{"f", 20, 40}}), "int");
    put(bitBlock("k", 8, {{"f", 0, 64}}), "int");
    put(bitBlock("k", 8, {{"f", 63, 1}}), "int");
    {
        ND d = bitBlock("k", 2, {{"f", 3, 5}});
        d.kids[0].t.mx = 20, d.kids[0].t.hasMax = true;
        put(d, "int");
    }
    put(fixedPt("q", 1, 3, 4), "real");
    put(fixedPt("q", 1, 2, 2), "real");
    put(fixedPt("q", 1, 0, 7), "real");
    put(fixedPt("q", 1, 7, 0), "real");
    put(fixedPt("q", 2, 7, 8), "real");
    put(fixedPt("q", 2, 5, 3), "real");
    put(fixedPt("q", 4, 15, 16), "real");
    put(fixedPt("q", 4, 31, 0), "real");
    put(fixedPt("q", 4, 0, 31), "real");
    put(fixedPt("q", 4, 8, 8), "real");
    put(floating("r"), "real");
    {
        ND d = floating("r");
        d.t.hasMin = true, d.t.fmn = -1.5f, d.t.fmx = 2.25f;
        put(d, "real");
        d.t.fmn = 0.5f, d.t.fmx = 1e30f;
        put(d, "real");
    }
    put(strParam("s", 2), "str");
    put(strParam("s", 0), "str");
    put(strParam("s", 7), "str");
    Adapt a;
    a.kind = 1, a.num = 10, a.den = 1, a.off = 0;
    put(ranged(integer("i", 1, true), -100, 100), "int", a);
    a.num = 1, a.den = 3, a.off = -7;
    put(ranged(integer("i", 2, false), 2, 1000), "int", a);
    a.num = -2, a.den = 1, a.off = 5;
    put(integer("i", 4, true), "int", a);
    a.num = 7, a.den = 3, a.off = 0;
    put(integer("i", 4, false), "int", a);
    a.num = 1, a.den = 49, a.off = 2;
    put(ranged(integer("i", 2, true), -100, 100), "int", a);
    a.num = 11, a.den = -107, a.off = 0;
    put(integer("i", 2, true), "int", a);
    a.kind = 2, a.num = 20, a.den = 1, a.off = 0, a.base = 10;
    put(ranged(integer("i", 4, true), -144, 30), "int", a);
    a.floor = -90;
    put(ranged(integer("i", 2, true), -144, 30), "int", a);
    a.base = 2, a.num = 1, a.floor = 0, a.off = 3;
    put(ranged(integer("i", 1, false), 0, 20), "int", a);
    (void)T;
    return v;
}
static std::shared_ptr<Structure> wrap(const Variant &v, bool owned)
{
    ND d = v.nd;
    d.mapping = "Obj:O";
    (void)owned;
    return std::make_shared<Structure>("Sys", vector<ND>{sub("A", {d})}, vector<CritDef>{});
}
// ------------------------------------------------------------ texts
static vector<string> strings(const string &alpha, int len)
{
    vector<string> r{""};
    size_t from = 0;
    for (int l = 0; l < len; l++) {
        size_t end = r.size();
        for (size_t i = from; i < end; i++)
            for (char c : alpha) r.push_back(r[i] + c);
        from = end;
    }
    return r;
}
static vector<string> textsFor(const Variant &v, bool T)
{
    const PType &t = v.bit ? v.nd.kids[0].t : v.nd.t;
    vector<string> r;
    auto add = [&](const vector<string> &x) { r.insert(r.end(), x.begin(), x.end()); };
    char b[100];
    if (v.cls == "str") {
        add(strings(string("a,0 <\0", 6), T ? 4 : 3));
        for (int n = t.maxLen - 1; n <= t.maxLen + 2; n++)
            if (n >= 0) r.push_back(string(size_t(n), 'z')), r.push_back(string(size_t(n), '\xe9'));
        return r;
    }
    add(strings(v.cls == "enum" ? "0ab1-x" : v.cls == "real" ? "01.-e+x9" : "019-+xF ", T ? 5 : 4));
    auto big = [&](i64 k) {
        r.push_back(std::to_string(k));
        if (k >= 0) r.push_back("+" + std::to_string(k)), r.push_back("00" + std::to_string(k));
        snprintf(b, sizeof b, "0x%llX", (unsigned long long)k);
        r.push_back(b);
        snprintf(b, sizeof b, "0x%llx", (unsigned long long)((uint64_t)k & Structure::mask(t.bits())));
        r.push_back(b);
        snprintf(b, sizeof b, "0X%llX", (unsigned long long)((uint64_t)k & Structure::mask(t.bits())));
        r.push_back(b);
    };
    int lim = t.size == 1 ? 300 : T ? 70000 : 260;
    for (int k = -lim; k <= lim; k++) {
        r.push_back(std::to_string(k));
        if (k >= 0 && (t.size > 1 || k < 300)) {
            snprintf(b, sizeof b, "0x%X", k);
            r.push_back(b);
        }
    }
    for (i64 m : {t.mn, t.mx}) for (i64 d = -2; d <= 2; d++) big(m + d);
    for (int s = 7; s < 64; s++)
        for (i64 d = -2; d <= 2; d++) big(i64(1ull << s) + d), big(-i64(1ull << s) + d);
    for (auto &l : t.lits)
        for (i64 d = -1; d <= 1; d++) big(l.second + d), r.push_back(l.first), r.push_back(l.first + " "), r.push_back(" " + l.first);
    add({"99999999999999999999", "-99999999999999999999", "0x10000000000000000", "0xFFFFFFFFFFFFFFFF", "1 2", "1,2", "true", "false", "on", "nan", "NaN", "inf", "-inf", "INF", "0x1p3", "1e400", "-1e400", "1e-400", "1.e5", ".5", "-.5", "5.", "1e", "1e+", "--1", "0b1", "0o7", "1u", "\xd9\xa1", "1\t", "\n1"});
    if (v.cls == "real") {
        double one = t.k == T_FIX ? double(1ull << t.frac) : 16;
        double top = t.k == T_FIX ? double(1ull << (t.integ + t.frac)) / one : 4;
        // every half step of a small format, and around the limits
        int n = t.k == T_FIX && t.integ + t.frac <= 8 ? int(2 * top * one) + 4 : 200;
        for (int k = -n; k <= n; k++)
            for (double d : {0.0, 0.125, 0.25}) {
                snprintf(b, sizeof b, "%.17g", (k / 2.0 + d) / one);
                r.push_back(b);
            }
        for (double lim2 : {top, -top, (top * one - 1) / one, double(t.fmn), double(t.fmx), double(FLT_MAX), -double(FLT_MAX), double(FLT_MIN), 1e-45, 1.0000001192092896, 16777217.0, 3.4028235677973366e38})
            for (int k = -3; k <= 3; k++) {
                double x = lim2;
                for (int i = 0; i < std::abs(k); i++) x = std::nextafter(x, k < 0 ? -HUGE_VAL : HUGE_VAL);
                if (!std::isfinite(x)) continue;
                snprintf(b, sizeof b, "%.17g", x);
                r.push_back(b);
                snprintf(b, sizeof b, "%.40g", x + k / one / 4);
                r.push_back(b);
                snprintf(b, sizeof b, "%.10f", lim2 + k / one / 4);
                if (strlen(b) < 60) r.push_back(b);
                float f = float(lim2);
                for (int i = 0; i < std::abs(k); i++) f = std::nextafterf(f, k < 0 ? -HUGE_VALF : HUGE_VALF);
                if (!std::isfinite(f)) continue;
                snprintf(b, sizeof b, "%.9g", f);
                r.push_back(b);
                r.push_back(std::to_string(uint32_t(Structure::fltBits(f))));
                snprintf(b, sizeof b, "0x%08x", uint32_t(Structure::fltBits(f)));
                r.push_back(b);
            }
        add({"0x7f800000", "0xff800000", "0x7fc00000", "0x7f7fffff", "0x80000000", "-0", "-0.0", "1e-46", "1.17549e-38", "2139095040"});
    }
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}
// ------------------------------------------------------------ one parameter under test
struct Cell
{
    const Variant &V;
    World W;
    std::unique_ptr<Real> r;
    PType t;
    string path;
    i64 cur = 0;
    bool tuning = false, owned;
    Ctx &c;
    Cell(const Variant &v, const string &name, bool own, Ctx &cc) : V(v), owned(own), c(cc)
    {
        auto S = wrap(v, own);
        t = S->leaves[0].t, path = S->leaves[0].path;
        WB b(name, S);
        if (own) {
            auto &d = b.dom("D", {S->nodes[size_t(S->leaves[0].node)].path});
            b.conf(d, "k", -1, 0);
            b.conf(d, "l", -1, 0);
        }
        if (t.k == T_FLT) b.w.init.hw[0] = Structure::fltBits(t.fmn > 0 ? t.fmn : 0.5f);
        else if (t.k == T_STR) b.w.init.hw[0] = 0;
        else if (t.k == T_ENUM) b.w.init.hw[0] = t.lits[0].second;
        else b.w.init.hw[0] = t.mn;
        for (auto &d : b.w.init.doms)
            for (auto &k : d.confs) k.seq[0].v[0] = b.w.init.hw[0];
        cur = b.w.init.hw[0];
        W = b.w;
        r.reset(new Real(W));
    }
    bool start() { return r->started || c.violate("start failed: " + r->error); }
    bool bad(const string &what) { return c.violate(what); }
    // a valid value other than v
    i64 other(i64 v)
    {
        if (t.k == T_STR) return t.maxLen == 0 ? 0 : strTab().get(v == strTab().get("y") ? "w" : "y");
        if (t.k == T_ENUM) return t.lits[t.lits[0].second == v ? 1 : 0].second;
        if (t.k == T_FLT) {
            i64 a = Structure::fltBits(t.fmn > 0 ? t.fmn : 0.5f), b = Structure::fltBits(1.0f);
            return v == a ? b : a;
        }
        return v == t.mn ? t.mx : t.mn;
    }
    void space(bool raw) { r->pf->setValueSpace(raw); }
    void hex(bool h) { r->pf->setOutputRawFormat(h); }
    bool setTuning(bool on)
    {
        if (on == tuning) return true;
        string e;
        if (!r->pf->setTuningMode(on, e)) return bad("tuning mode: " + e);
        tuning = on;
        return true;
    }
    // prior value, set through raw text
    bool prior(i64 v)
    {
        if (cur == v) return true;
        if (!setTuning(true)) return false;
        space(true);
        string x = Structure::text(t, v, true), e = x;
        if (t.k == T_STR) space(false);
        if (!r->pf->accessParameterValue(path, e, true, e)) {
            space(false);
            return bad("could not set '" + x + "' (raw): " + e);
        }
        space(false);
        cur = v;
        return true;
    }
    string vtext(i64 v) { return "'" + Structure::text(t, v) + "' (raw " + Structure::text(t, v, true) + ")"; }
    // ---- every way of reading the value
    bool readAll(const string &how)
    {
        string o;
        for (int m = 0; m < 3; m++) {
            space(m > 0), hex(m == 2);
            string exp = Structure::text(t, cur, m > 0, m == 2);
            bool ok = r->cmd("getParameter", {path}, o);
            string h, e;
            bool hok = r->handle(path)->getAsString(h, e);
            hex(false), space(false);
            const char *mode[] = {"real", "raw decimal", "raw hexadecimal"};
            if (!ok || o != exp)
                return bad(how + ": reads back in " + mode[m] + " form as '" + o + "', expected '" + exp + "'");
            // handles always use the real space
            if (!hok || h != Structure::text(t, cur))
                return bad(how + ": handle reads back as '" + h + "', expected '" + Structure::text(t, cur) + "'");
        }
        string bytes = W.S->objBytes(0, {cur});
        if (W.S->canonObj("O", r->env.shadow["O"]) != bytes)
            return bad(how + ": hardware holds" + Model::hexBytes(r->env.shadow["O"]) + ", expected" +
                       Model::hexBytes(bytes));
        return readTyped(how);
    }
    bool readTyped(const string &how)
    {
        auto *h = r->handle(path);
        string e;
        bool b = false;
        uint32_t u = 0;
        int32_t s = 0;
        double d = 0;
        bool gb = h->getAsBoolean(b, e), gu = h->getAsInteger(u, e), gs = h->getAsSignedInteger(s, e),
             gd = h->getAsDouble(d, e);
        auto need = [&](const char *k, bool got, bool want) {
            return got == want || bad(how + ": " + k + " reading " + (got ? "accepted" : "refused") + ", value " + vtext(cur));
        };
        switch (t.k) {
        case T_BOOL:
            if (!need("boolean", gb, true) || !need("integer", gu, true) || !need("double", gd, false)) return false;
            return (b == bool(cur) && u == uint32_t(cur)) || bad(how + ": typed reading differs");
        case T_INT:
            if (!need("boolean", gb, false) || !need("double", gd, V.ad.kind != 0)) return false;
            if (cur >= 0 && (!gu || u != uint32_t(cur)))
                return bad(how + ": read as unsigned " + std::to_string(u) + ", expected " + std::to_string(cur));
            if (cur <= INT32_MAX && (!gs || s != int32_t(cur)))
                return bad(how + ": read as signed " + std::to_string(s) + ", expected " + std::to_string(cur));
            if (V.ad.kind) {
                long double x = V.ad.to(cur);
                if (std::fabs((long double)d - x) > 1e-9L * std::max(1.0L, fabsl(x)))
                    return bad(how + ": read as double " + std::to_string(d) + ", expected " + std::to_string(double(x)));
            }
            return true;
        case T_BIT:
            if (!need("boolean", gb, t.width == 1) || !need("double", gd, false)) return false;
            if (t.width == 1 && b != bool(cur)) return bad(how + ": boolean reading differs");
            if (uint64_t(cur) > UINT32_MAX)
                return !gu || bad(how + ": value " + vtext(cur) + " read as unsigned " + std::to_string(u));
            return (gu && u == uint32_t(cur)) || bad(how + ": read as unsigned " + std::to_string(u) + ", expected " + std::to_string(cur));
        case T_ENUM:
            if (!need("boolean", gb, false) || !need("double", gd, false) || !need("signed", gs, true)) return false;
            return s == cur || bad(how + ": read as signed " + std::to_string(s) + ", expected " + std::to_string(cur));
        case T_FIX:
            if (!need("boolean", gb, false) || !need("double", gd, true)) return false;
            return d == double(cur >> t.shift()) / double(1ull << t.frac) || bad(how + ": read as double " + std::to_string(d));
        case T_FLT:
            if (!need("boolean", gb, false) || !need("double", gd, true)) return false;
            return d == double(Structure::flt(cur)) || bad(how + ": read as double " + std::to_string(d));
        case T_STR:
            return (!gb && !gu && !gs && !gd) || bad(how + ": typed reading of a string accepted");
        }
        return true;
    }
    bool unchanged(const string &how)
    {
        if (!r->env.log.empty()) return bad(how + ": refused, yet the hardware was accessed");
        return readAll(how + ", refused");
    }
    static string show(const string &s)
    {
        string r;
        for (unsigned char ch : s) {
            char b[8];
            snprintf(b, sizeof b, ch < 32 || ch > 126 ? "\\x%02x" : "%c", ch);
            r += b;
        }
        return "\"" + r + "\"";
    }
    // ---- text channels on the live value. ch: 0 command, 1 handle, 2 subtree XML, 3 handle XML
    bool text(int ch, bool raw, const string &x)
    {
        i64 v = 0;
        bool acc = Structure::parse(t, ch == 0 ? Model::trim(x) : x, v, raw && ch != 1);
        const char *chn[] = {"setParameter", "handle setAsString", "setElementXML", "handle setAsXML"};
        string how = string(chn[ch]) + " " + show(x) + (raw ? " in raw space" : " in real space");
        if (!prior(acc ? other(v) : cur)) return false;
        if (!setTuning(ch == 0 || ch == 2)) return false;
        r->env.log.clear();
        space(raw);
        string e, o;
        bool ok;
        if (ch == 0)
            ok = r->cmd("setParameter", {path, x}, o);
        else if (ch == 1)
            ok = r->handle(path)->setAsString(x, e);
        else {
            const Node &n = W.S->nodes[size_t(W.S->leaves[0].node)];
            static const char *tag[] = {"BooleanParameter", "IntegerParameter", "EnumParameter", "StringParameter", "BitParameter", "FixedPointParameter", "FloatingPointParameter"};
            string doc = string("<") + tag[t.k] + " Name=\"" + n.name + "\"" + (raw && (t.k == T_FIX || t.k == T_FLT) ? " ValueSpace=\"Raw\"" : "") + ">" + xmlEsc(x) + "</" + tag[t.k] + ">";
            ok = ch == 2 ? r->cmd("setElementXML", {path, doc}, o) : r->handle(path)->setAsXML(doc, e);
        }
        space(false);
        if (ok != acc)
            return bad(how + (ok ? ": accepted, " : ": refused (" + o + e + "), ") + "expected to be " +
                       (acc ? "accepted as " + vtext(v) : "refused"));
        c.sh->transitions++, c.sh->validated++;
        if (!acc) return unchanged(how);
        cur = v;
        return readAll(how);
    }
    // ---- stored configuration
    bool conf(bool raw, const string &x, i64 &stored)
    {
        i64 v = 0;
        bool acc = Structure::parse(t, Model::trim(x), v, raw);
        string how = "setConfigurationParameter " + show(x) + (raw ? " in raw space" : " in real space"), o;
        if (!setTuning(true)) return false;
        r->env.log.clear();
        space(raw);
        bool ok = r->cmd("setConfigurationParameter", {"D", "k", path, x}, o);
        space(false);
        if (ok != acc)
            return bad(how + (ok ? ": accepted, " : ": refused (" + o + "), ") + "expected to be " +
                       (acc ? "accepted as " + vtext(v) : "refused"));
        if (acc) stored = v;
        c.sh->transitions++, c.sh->validated++;
        for (int m = 0; m < 3; m++) {
            space(m > 0), hex(m == 2);
            string exp = Structure::text(t, stored, m > 0, m == 2);
            bool g = r->cmd("getConfigurationParameter", {"D", "k", path}, o);
            space(false), hex(false);
            if (!g || o != exp) return bad(how + ": reads back as '" + o + "', expected '" + exp + "'");
        }
        if (!r->env.log.empty()) return bad(how + ": the hardware was accessed");
        return true;
    }
    // ---- typed writes
    bool after(const string &how, bool ok, bool acc, i64 v)
    {
        if (ok != acc)
            return bad(how + (ok ? ": accepted" : ": refused") + ", expected to be " +
                       (acc ? "accepted as " + vtext(v) : "refused"));
        c.sh->transitions++, c.sh->validated++;
        if (!acc) return unchanged(how);
        cur = v;
        return readAll(how);
    }
    bool typedInt(i64 x, bool sgn)
    {
        bool sup = t.k == T_INT || (t.k == T_ENUM && sgn) || ((t.k == T_BOOL || t.k == T_BIT) && !sgn);
        bool acc = sup && (t.k == T_BIT ? uint64_t(x) <= uint64_t(t.mx) : x >= t.mn && x <= t.mx);
        if (t.k == T_ENUM && sup) {
            acc = false;
            for (auto &l : t.lits) acc = acc || l.second == x;
        }
        if (!prior(acc ? other(x) : cur) || !setTuning(false)) return false;
        r->env.log.clear();
        string e;
        bool ok = sgn ? r->handle(path)->setAsSignedInteger(int32_t(x), e) : r->handle(path)->setAsInteger(uint32_t(x), e);
        return after(string(sgn ? "setAsSignedInteger(" : "setAsInteger(") + std::to_string(x) + ")", ok, acc, x);
    }
    bool typedBool(bool x)
    {
        bool acc = t.k == T_BOOL || (t.k == T_BIT && t.width == 1);
        if (!prior(acc ? !x : cur) || !setTuning(false)) return false;
        r->env.log.clear();
        string e;
        bool ok = r->handle(path)->setAsBoolean(x, e);
        return after(string("setAsBoolean(") + (x ? "true)" : "false)"), ok, acc, x);
    }
    bool typedDouble(double x)
    {
        char b[60];
        snprintf(b, sizeof b, "setAsDouble(%.17g)", x);
        bool acc = false;
        i64 v = 0;
        std::set<i64> cand;
        bool gray = false;
        if (t.k == T_FIX) {
            double one = double(1ull << t.frac), top = double(1ull << (t.integ + t.frac));
            acc = x * one <= top - 1 && x * one >= -top;
            if (acc) v = i64(std::round(x * one)) * (i64(1) << t.shift());
        } else if (t.k == T_FLT) {
            acc = x >= -double(FLT_MAX) && x <= double(FLT_MAX) && float(x) >= t.fmn && float(x) <= t.fmx;
            if (acc) v = Structure::fltBits(float(x));
        } else if (t.k == T_INT && V.ad.kind) {
            cand = V.ad.from(x, gray);
            size_t in = 0;
            for (i64 k : cand) in += k >= t.mn && k <= t.mx;
            acc = in > 0;
            if (in < cand.size()) gray = true;
            if (acc) v = *cand.begin();
        }
        if (!prior(acc && !gray ? other(v) : cur) || !setTuning(false)) return false;
        r->env.log.clear();
        string e;
        auto *h = r->handle(path);
        bool ok = h->setAsDouble(x, e);
        if (t.k == T_INT && V.ad.kind) {
            if (gray && !ok) acc = false;
            if (ok && acc) {
                uint32_t u = 0;
                int32_t s = 0;
                if (t.sgn ? h->getAsSignedInteger(s, e) : h->getAsInteger(u, e)) v = t.sgn ? i64(s) : i64(u);
                if (!cand.count(v) || v < t.mn || v > t.mx) return bad(string(b) + ": stored as " + std::to_string(v));
            }
        }
        return after(b, ok, acc, v);
    }
};
static vector<double> doubles(const Variant &v, bool T)
{
    const PType &t = v.nd.t;
    vector<double> r{0.0, -0.0, NAN, HUGE_VAL, -HUGE_VAL, 1e300, -1e300, 9.3e18, -9.3e18, 1e19, 4294967296.0, -4294967296.0, 2147483648.0, -2147483649.0, 5e-324};
    auto near = [&](double x) {
        for (int k = -3; k <= 3; k++) {
            double y = x;
            for (int i = 0; i < std::abs(k); i++) y = std::nextafter(y, k < 0 ? -HUGE_VAL : HUGE_VAL);
            r.push_back(y);
        }
    };
    if (t.k == T_FIX) {
        double one = double(1ull << t.frac), top = double(1ull << (t.integ + t.frac));
        for (double x : {top / one, -top / one, (top - 1) / one, (top - 0.5) / one, (-top - 0.5) / one}) near(x);
        int n = top <= 256 ? int(top) + 2 : T ? 40000 : 300;
        for (int k = -n; k <= n; k++)
            for (double d : {-0.5, -0.25, 0.0, 0.25}) r.push_back((k + d) / one);
        if (top > 256)
            for (int k = 0; k < 300; k++)
                for (double d : {-0.5, 0.0}) r.push_back((top - 1 - k + d) / one), r.push_back((-top + k + d) / one);
    } else if (t.k == T_FLT) {
        for (double x : {double(t.fmn), double(t.fmx), double(FLT_MAX), -double(FLT_MAX), double(FLT_MIN), 1e-45, 7e-46, 1.0, 16777217.0}) near(x);
        int n = T ? 20000 : 500;
        for (int k = -n; k <= n; k++) r.push_back(k / 64.0), r.push_back(k * 1.1e-3);
    } else if (v.ad.kind) {
        int n = T ? 30000 : 2000;
        for (int k = -n; k <= n; k++) r.push_back(k / 16.0), r.push_back(k * 0.1);
        for (i64 k = t.mn - 2; k <= std::min(t.mx + 2, t.mn + 1200); k++) near(double(v.ad.to(k)));
        for (i64 k = t.mx + 2; k >= std::max(t.mx - 50, t.mn); k--) near(double(v.ad.to(k)));
    }
    return r;
}
static vector<i64> ints(const Variant &v, bool sgn, bool T)
{
    const PType &t = v.bit ? v.nd.kids[0].t : v.nd.t;
    std::set<i64> s;
    int lim = t.size == 1 ? 300 : T ? 70000 : 400;
    for (int k = -lim; k <= lim; k++) s.insert(k);
    for (int b = 7; b <= 33; b++)
        for (i64 d = -2; d <= 2; d++) s.insert((i64(1) << b) + d), s.insert(-(i64(1) << b) + d);
    for (i64 m : {t.mn, t.mx})
        for (i64 d = -2; d <= 2; d++) s.insert(m + d);
    for (auto &l : t.lits)
        for (i64 d = -1; d <= 1; d++) s.insert(l.second + d), s.insert((l.second & 255) + d), s.insert((l.second & 65535) + d);
    vector<i64> r;
    for (i64 k : s)
        if (sgn ? k >= INT32_MIN && k <= INT32_MAX : k >= 0 && k <= i64(UINT32_MAX)) r.push_back(k);
    return r;
}

static int p10(Checker &c)
{
    bool T = c.thorough;
    auto vs = variants(T);
    size_t total = 0;
    // items: variant x kind of access; every item has an instance of its own
    struct It { size_t v; int kind; size_t from, to; };
    vector<It> its;
    vector<vector<string>> tx;
    const size_t BLK = T ? 12000 : 100000;
    for (size_t i = 0; i < vs.size(); i++) {
        tx.push_back(textsFor(vs[i], T));
        total += tx.back().size();
        for (int k = 0; k < 10; k++)
            for (size_t f = 0; f < tx.back().size(); f += BLK) its.push_back({i, k, f, std::min(f + BLK, tx.back().size())});
        for (int k = 10; k < 13; k++) its.push_back({i, k, 0, 0});
    }
    c.bounds.push_back(std::to_string(vs.size()) + " type variants; " + std::to_string(total) +
                       " texts x 2 value spaces x 5 text interfaces; all typed values of small ranges and around every limit");
    c.sample("boolean: handle setAsString \"01\" in real space");
    c.states += total;
    c.items_("P10", long(its.size()), [&](Ctx &x, long n) {
        const It &it = its[size_t(n)];
        const Variant &v = vs[it.v];
        string label = "variant " + std::to_string(it.v) + " (" + Structure::typeXml(v.nd) + ")";
        x.note(label + ", access kind " + std::to_string(it.kind));
        bool own = it.kind >= 8 && it.kind < 10;
        Cell cell(v, "P10v" + std::to_string(it.v) + (own ? "o" : "r"), own, x);
        if (!cell.start()) return false;
        auto step = [&](const string &s) {
            x.note(label + "\n" + s);
            alarm(60);
        };
        if (it.kind < 10) {
            i64 stored = cell.cur;
            for (size_t i = it.from; i < it.to; i++) {
                const string &s = tx[it.v][i];
                bool raw = it.kind & 1;
                if (cell.t.k == T_STR && raw) raw = true;
                int ch = it.kind / 2;
                if (ch >= 2 && ch < 4)
                    for (unsigned char q : s)
                        if (q >= 0x80 || q == 0) goto skip; // not a valid document
                step(Cell::show(s));
                if (!(it.kind < 8 ? cell.text(ch, raw, s) : cell.conf(raw, s, stored))) return false;
            skip:;
            }
        } else if (it.kind == 10 || it.kind == 11) {
            for (i64 k : ints(v, it.kind == 11, T)) {
                step(std::to_string(k));
                if (!cell.typedInt(k, it.kind == 11)) return false;
            }
        } else {
            if (!cell.typedBool(true) || !cell.typedBool(false) || !cell.typedBool(true)) return false;
            for (double d : doubles(v, T)) {
                step(std::to_string(d));
                if (!cell.typedDouble(d)) return false;
            }
        }
        return true;
    });
    // the same values given to two parameters in turn, of every pair of variants
    vector<std::pair<size_t, size_t>> duo;
    for (size_t a = 0; a < vs.size(); a++)
        for (size_t b = a; b < vs.size(); b++) duo.push_back({a, b});
    c.bounds.push_back("P10duo: " + std::to_string(duo.size()) + " pairs of variants, the same values in turn");
    c.items_("P10duo", long(duo.size()), [&](Ctx &x, long n) {
        auto &p = duo[size_t(n)];
        string label = "variants " + std::to_string(p.first) + " and " + std::to_string(p.second);
        x.note(label);
        Cell a(vs[p.first], "P10duoA" + std::to_string(p.first), false, x), b(vs[p.second], "P10duoB" + std::to_string(p.second), false, x);
        if (!a.start() || !b.start()) return false;
        vector<string> tx{"0", "1", "5", "9", "-1", "127", "200", "0x1", "0x10", "0.5", "1.25", "a", "b", "300", "99999999999"};
        vector<double> ds{0, 1, 5, 5.5, 9, -1, 100, 0.125};
        auto both = [&](const string &what, const std::function<bool(Cell &)> &f) {
            x.note(label + "\n" + what);
            return f(a) && f(b) && a.readAll(what + " given to the other parameter") && f(a) && b.readAll(what + " given to the other parameter");
        };
        for (auto &s : tx)
            for (int raw = 0; raw < 2; raw++)
                if (!both(Cell::show(s), [&](Cell &k) { return k.text(0, raw, s); })) return false;
        for (double d : ds) {
            if (!both(std::to_string(d), [&](Cell &k) { return k.typedDouble(d); })) return false;
            if (d == i64(d) && !both(std::to_string(i64(d)), [&](Cell &k) { return k.typedInt(i64(d), true) && (d < 0 || k.typedInt(i64(d), false)); })) return false;
        }
        x.sh->states++, x.sh->transitions += 60, x.sh->validated += 60;
        return true;
    });
    return c.finish("model_checking",
                    "every value of each variant's exhaustive text and typed alphabets, in turn on one live instance, "
                    "each followed by a reading through every interface and a comparison of the hardware bytes; "
                    "a refused value is followed by the same readings of the old one");
}
static Reg r10("P10", p10);
