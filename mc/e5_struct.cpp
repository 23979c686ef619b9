// P26: structure descriptions. Every description of bounded families (type graphs, mapping
// placements, leaf kinds, single faults) is started for real and compared with an
// independent reading of it.
#include "drivers.h"
#include "structwalk.h"
#include "worldset.h"

namespace
{
struct Bench
{
    string dir;
    Bench()
    {
        dir = g_scratch + "/struct";
        mkdir(dir.c_str(), 0755);
        writeFile(dir + "/config.xml",
                  "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<ParameterFrameworkConfiguration SystemClassName=\"Sys\" "
                  "ServerPort=\"5000\" TuningAllowed=\"true\"><SubsystemPlugins><Location Folder=\"" +
                      g_pluginDir + "\"><Plugin Name=\"libmcplugin.so\"/></Location></SubsystemPlugins>"
                                    "<StructureDescriptionFileLocation Path=\"" +
                      dir + "/structure.xml\"/></ParameterFrameworkConfiguration>\n");
    }
};
// empty if the real start of the description conforms
enum { Plain, Schemas, Split, SplitSchemas };
string check(Bench &B, const XNode &doc, int how, Ctx *x)
{
    bool schemas = how & 1;
    StructDoc d(doc, "Sys");
    string text = writeNode(doc);
    if (x) x->note(string("schemas ") + (schemas ? "checked" : "not checked") + (how & 2 ? ", in several files" : "") + ", expected " + "AEXR"[d.v] + " " + d.why + "\n" + text);
    writeFile(B.dir + "/structure.xml", xmlHead + (how & 2 ? split(B.dir, doc) : text));
    Env env;
    g_env = &env;
    string err;
    std::unique_ptr<CParameterMgrFullConnector> pf(new CParameterMgrFullConnector(B.dir + "/config.xml"));
    pf->setForceNoRemoteInterface(true);
    if (schemas) {
        const char *repo = getenv("REPO");
        pf->setSchemaUri(string(repo ? repo : "/repo") + "/schemas");
        pf->setValidateSchemasOnStart(true);
    }
    bool ok = pf->start(err);
    SVerdict v = d.v;
    if (schemas && v == S_A && !d.schemaOk) v = S_E;
    if (!ok && err.empty()) return "start failed without an error";
    if (ok && v == S_R) return "accepted although to be refused: " + d.why;
    if (!ok && v == S_A) return "refused: " + err;
    if (!ok) return "";
    return judge(*pf, env, d, v, x);
}
bool run(Ctx &x, Bench &B, const XNode &doc, int how = Plain)
{
    x.sh->transitions++;
    string r = check(B, doc, how, &x);
    if (r.empty()) return true;
    return x.violate(r);
}
XNode doc1(const string &lib, const string &inst, const string &type = "MC", const string &map = "")
{
    return mk("<SystemClass Name=\"Sys\"><Subsystem Name=\"S\" Type=\"" + type + "\"" + (map.empty() ? "" : " Mapping=\"" + map + "\"") +
              "><ComponentLibrary>" + lib + "</ComponentLibrary><InstanceDefinition>" + inst + "</InstanceDefinition></Subsystem></SystemClass>");
}
// ---- type graphs: three types, each extending an earlier one or none
void graphs(Checker &c)
{
    const string U = "<IntegerParameter Size=\"8\" Name=\"%\"/>", P = "<ParameterBlock Name=\"%p\">";
    auto named = [](string s, const string &n) {
        for (size_t p; (p = s.find('%')) != string::npos;) s.replace(p, 1, n);
        return s;
    };
    auto comp = [](const string &n, const string &t, int len) {
        return "<Component Name=\"" + n + "\" Type=\"" + t + "\"" + (len ? " ArrayLength=\"" + std::to_string(len) + "\"" : "") + "/>";
    };
    // contents of a type given the earlier ones; %: its letter
    auto menu = [&](const string &n, const vector<string> &earlier, bool full) {
        vector<string> r{U, "", U + named(U, n + "2")};
        r.push_back(P + "<BooleanParameter Name=\"%\"/>" + "</ParameterBlock>");
        r.push_back("<BitParameterBlock Name=\"%\" Size=\"16\"><BitParameter Name=\"lo\" Pos=\"0\" Size=\"4\"/></BitParameterBlock>" + U.substr(0, U.size() - 3) + "z\"/>");
        for (auto &t : earlier) {
            r.push_back(comp("%c", t, 0));
            r.push_back(U + comp("%c", t, 2));
            r.push_back(comp("%c", t, 0) + U);
            if (full) {
                r.push_back(P + comp("%c", t, 0) + U + "</ParameterBlock>");
                r.push_back("<ParameterBlock Name=\"%p\" ArrayLength=\"2\">" + comp("%c", t, 2) + "</ParameterBlock>");
                r.push_back(comp("%c", t, 0) + comp("%d", t, 3));
            }
        }
        // to be refused: of its own type, directly or deeper; unknown; the same name as in another type
        r.push_back(comp("%c", n, 0));
        r.push_back(P + comp("%c", n, 0) + "</ParameterBlock>");
        r.push_back(P + "<ParameterBlock Name=\"q\">" + comp("%c", n, 2) + "</ParameterBlock></ParameterBlock>");
        r.push_back("<IntegerParameter Size=\"16\" Name=\"T\"/>");
        if (full) r.push_back(comp("%c", "Nope", 0));
        for (auto &s : r) s = named(s, n);
        return r;
    };
    bool full = c.thorough;
    auto m1 = menu("T", {}, full), m2 = menu("V", {"T"}, full), m3 = menu("W", {"T", "V"}, full);
    vector<string> insts{comp("x", "W", 0), comp("x", "W", 2), "<ParameterBlock Name=\"p\" ArrayLength=\"2\">" + comp("x", "W", 0) + comp("y", "V", 0) + "</ParameterBlock>",
                         named(U, "T") + comp("x", "W", 0) + comp("y", "W", 1) + comp("t", "T", 0)};
    size_t e2 = 2, e3 = 3;
    long n = long(m1.size() * m2.size() * e2 * m3.size() * e3);
    c.bounds.push_back("graphs: " + std::to_string(n * long(insts.size())) + " descriptions of three types (contents " + std::to_string(m1.size()) + "/" +
                       std::to_string(m2.size()) + "/" + std::to_string(m3.size()) + ", extensions 2 and 3) and 4 uses");
    if (g_tell) insts = {insts[1], insts[3]};
    c.items_("graphs", n, [&](Ctx &x, long it) {
        Bench B;
        size_t k = size_t(it);
        auto take = [&](size_t m) {
            size_t r = k % m;
            k /= m;
            return r;
        };
        size_t a = take(m1.size()), b = take(m2.size()), d = take(m3.size()), p = take(e2), q = take(e3);
        string lib = "<ComponentType Name=\"T\">" + m1[a] + "</ComponentType><ComponentType Name=\"V\"" + (p ? " Extends=\"T\"" : "") + ">" + m2[b] +
                     "</ComponentType><ComponentType Name=\"W\"" + (q ? q == 1 ? " Extends=\"T\"" : " Extends=\"V\"" : "") + ">" + m3[d] + "</ComponentType>";
        x.sh->states++;
        for (size_t i = 0; i < insts.size(); i++)
            if (!run(x, B, doc1(lib, insts[i]))) return false;
        if (g_tell) return true;
        if ((it & 15) == 0 && !run(x, B, doc1(lib, insts[0], "Virtual"), Schemas)) return false;
        if ((it & 3) == 1 && !run(x, B, doc1(lib, insts[3]), it & 4 ? SplitSchemas : Split)) return false;
        return true;
    }, 32);
}
// ---- placements of mapping values: subsystem, block, component, its type, extended type, inner block, leaf
void placements(Checker &c)
{
    // levels: 0 subsystem 1 outer block 2 component 3 type 4 extended type 5 inner block 6 parameter
    auto build = [](const vector<string> &m) {
        auto at = [&](int l) { return m[size_t(l)].empty() ? string() : " Mapping=\"" + m[size_t(l)] + "\""; };
        string leaf = "<ParameterBlock Name=\"q\"" + at(5) + "><IntegerParameter Size=\"16\" Name=\"x\"" + at(6) + "/></ParameterBlock>";
        string lib = "<ComponentType Name=\"E\"" + at(4) + ">" + leaf + "</ComponentType><ComponentType Name=\"T\" Extends=\"E\"" + at(3) +
                     "><BooleanParameter Name=\"t\" Mapping=\"Obj:t%1\"/></ComponentType>";
        return doc1(lib, "<ParameterBlock Name=\"p\"" + at(1) + "><Component Name=\"c\" Type=\"T\"" + at(2) + "/></ParameterBlock><Component Name=\"d\" Type=\"E\"/>",
                    "MC", m[0]);
    };
    vector<string> templates{"o%1", "o", "%1%2", "x%2-%1%", "'%1 y'", "%3%1", "%9", "''", "%1%1%2%3"};
    // per key: the levels holding it (0, 1 or 2 of them)
    vector<vector<int>> places{{}};
    for (int i = 0; i < 7; i++) places.push_back({i});
    vector<vector<int>> two = places;
    for (int i = 0; i < 7; i++)
        for (int j = i + 1; j < 7; j++) two.push_back({i, j});
    vector<vector<int>> objs{{6}, {5}, {2}, {3}, {4}, {1}, {}, {5, 6}, {3, 6}, {2, 3}, {3, 4}, {1, 5}};
    auto &pc = c.thorough ? two : places;
    vector<size_t> dims{places.size(), two.size(), pc.size(), objs.size()};
    long n = long(dims[0] * dims[1] * dims[2] * dims[3]);
    c.bounds.push_back("placements: " + std::to_string(n) + " placements of Ctx, Amend1, Amend2 and object keys on 7 levels, templates in turn, and " +
                       std::to_string(two.size() * objs.size() * templates.size() * 2) + " with every template");
    auto put = [](vector<string> &m, int l, const string &t) { m[size_t(l)] += (m[size_t(l)].empty() ? "" : ",") + t; };
    c.items_("placements", long(dims[0] * dims[1]), [&](Ctx &x, long it) {
        Bench B;
        x.sh->states++;
        size_t a = size_t(it) % dims[0], b = size_t(it) / dims[0];
        for (size_t d = 0; d < dims[2]; d++)
            for (size_t o = 0; o < dims[3]; o++) {
                vector<string> m(7);
                for (int l : places[a]) put(m, l, "Ctx:k" + std::to_string(l));
                for (int l : two[b]) put(m, l, "Amend1:a" + std::to_string(l));
                for (int l : pc[d]) put(m, l, "Amend2:b" + std::to_string(l));
                bool ctx = (a + o) % 3 == 1;
                for (int l : objs[o])
                    put(m, l, (ctx ? "CtxObj:" : "Obj:") + (templates[(a + b + d + o) % templates.size()] + "_" + std::to_string(l)));
                // an object key on the parameter itself, unless what is above it is the object
                if (!run(x, B, build(m))) return false;
            }
        return true;
    }, 2);
    c.items_("templates", long(two.size() * objs.size()), [&](Ctx &x, long it) {
        Bench B;
        x.sh->states++;
        size_t a = size_t(it) % two.size(), o = size_t(it) / two.size();
        for (auto &t : templates)
            for (int v = 0; v < 2; v++) {
                vector<string> m(7);
                for (int l : two[a]) put(m, l, v ? "Amend3:c%1" : "Amend1:a" + std::to_string(l));
                put(m, 0, v ? "Amend2:" : "Amend2:s,Unknown:u,Lone");
                for (int l : objs[o]) put(m, l, "Obj:" + t);
                if (!run(x, B, build(m))) return false;
                if (v && !run(x, B, build(m), Schemas)) return false;
            }
        return true;
    }, 4);
}
// ---- all kinds of leaves and their attributes, in virtual and hardware subsystems
vector<string> leafMenu()
{
    vector<string> r;
    for (auto arr : {"", " ArrayLength=\"0\"", " ArrayLength=\"1\"", " ArrayLength=\"3\""}) {
        string A = arr;
        r.push_back("<BooleanParameter Name=\"n\"" + A + "/>");
        r.push_back("<BooleanParameter Name=\"n\" Size=\"8\"" + A + "/>");
        for (int s : {8, 16, 32}) {
            string S = " Size=\"" + std::to_string(s) + "\"";
            string top = s == 8 ? "255" : s == 16 ? "65535" : "4294967295", smax = s == 8 ? "127" : s == 16 ? "32767" : "2147483647",
                   smin = s == 8 ? "-128" : s == 16 ? "-32768" : "-2147483648";
            for (string mm : vector<string>{string(), " Min=\"3\"", " Min=\"3\" Max=\"3\"", " Max=\"100\"", " Min=\"" + top + "\"", " Max=\"" + top + "\"", string(" Min=\"0\" Max=\"0\"")})
                r.push_back("<IntegerParameter Name=\"n\"" + S + mm + A + "/>");
            for (string mm : vector<string>{string(), " Min=\"-3\"", " Min=\"-3\" Max=\"-3\"", " Max=\"-100\"", " Min=\"" + smax + "\"", " Max=\"" + smin + "\"", string(" Min=\"5\"")})
                r.push_back("<IntegerParameter Name=\"n\" Signed=\"true\" Unit=\"dB\"" + S + mm + A + "/>");
            for (auto f : {"7", "0", "-5"})
                r.push_back("<EnumParameter Name=\"n\"" + S + A + "><ValuePair Literal=\"a\" Numerical=\"" + f + "\"/><ValuePair Literal=\"b\" Numerical=\"1\"/></EnumParameter>");
            r.push_back("<EnumParameter Name=\"n\"" + S + A + "><ValuePair Literal=\"m\" Numerical=\"" + smin + "\"/><ValuePair Literal=\"M\" Numerical=\"" + smax + "\"/></EnumParameter>");
            r.push_back("<FixedPointParameter Name=\"n\" Integral=\"2\" Fractional=\"5\"" + S + A + "/>");
            r.push_back("<FixedPointParameter Name=\"n\" Integral=\"0\" Fractional=\"" + std::to_string(s - 1) + "\"" + S + A + "/>");
            r.push_back("<FixedPointParameter Name=\"n\" Integral=\"" + std::to_string(s - 1) + "\" Fractional=\"0\" Unit=\"dB\"" + S + A + "/>");
        }
        for (auto mm : {"", " Min=\"-1.5\" Max=\"2.5\"", " Min=\"1\"", " Max=\"-1\"", " Min=\"0\"", " Max=\"0\" Size=\"32\"", " Unit=\"dB\"", " Min=\"1.5\" Max=\"1.5\"", " Min=\"-2\" Max=\"-2\""})
            r.push_back(string("<FloatingPointParameter Name=\"n\"") + mm + A + "/>");
        r.push_back("<IntegerParameter Name=\"n\" Size=\"8\"" + A + "><LinearAdaptation SlopeNumerator=\"2\" SlopeDenominator=\"3\" Offset=\"-1\"/></IntegerParameter>");
        r.push_back("<IntegerParameter Name=\"n\" Size=\"16\" Signed=\"1\"" + A + "><LogarithmicAdaptation LogarithmBase=\"2\" FloorValue=\"-96\"/></IntegerParameter>");
    }
    for (auto l : {"0", "1", "7", "100"}) r.push_back(string("<StringParameter Name=\"n\" MaxLength=\"") + l + "\"/>");
    for (int s : {8, 16, 32, 64}) {
        string S = " Size=\"" + std::to_string(s) + "\"", e = std::to_string(s - 1), f = std::to_string(s);
        r.push_back("<BitParameterBlock Name=\"n\"" + S + "><BitParameter Name=\"a\" Pos=\"0\" Size=\"" + f + "\"/></BitParameterBlock>");
        r.push_back("<BitParameterBlock Name=\"n\"" + S + "><BitParameter Name=\"a\" Pos=\"" + e + "\" Size=\"1\"/><BitParameter Name=\"b\" Pos=\"1\" Size=\"3\" Max=\"5\"/></BitParameterBlock>");
        r.push_back("<BitParameterBlock Name=\"n\" Description=\"some\"" + S + "><BitParameter Name=\"a\" Pos=\"0\" Size=\"2\" Max=\"0\"/></BitParameterBlock>");
    }
    return r;
}
void leaves(Checker &c)
{
    auto m = leafMenu();
    // pairs: each leaf next to each other one, in every surrounding
    vector<size_t> second;
    for (size_t i = 0; i < m.size(); i++)
        if (c.thorough || i % 7 == 0) second.push_back(i);
    c.bounds.push_back("leaves: " + std::to_string(m.size() * second.size()) + " pairs of leaf descriptions in virtual and hardware subsystems, and each alone with schemas");
    auto ren = [](string s, const string &n) {
        s.replace(s.find("\"n\""), 3, "\"" + n + "\"");
        return s;
    };
    auto mapped = [](string s, const string &k) {
        size_t p = s.find("Name=\"");
        s.insert(p, "Mapping=\"Obj:" + k + "\" ");
        return s;
    };
    c.items_("leaves", long(m.size()), [&](Ctx &x, long it) {
        Bench B;
        x.sh->states++;
        string a = m[size_t(it)];
        for (size_t j : second) {
            string b = ren(m[j], "o");
            if (!run(x, B, doc1("", a + b, "Virtual"))) return false;
            if (!run(x, B, doc1("<ComponentType Name=\"T\">" + mapped(a, "a%1") + mapped(b, "b%1") + "</ComponentType>",
                                "<Component Name=\"c\" Type=\"T\" Mapping=\"Amend1:u\"/><ParameterBlock Name=\"v\" Mapping=\"Obj:v\" ArrayLength=\"2\">" + a + b + "</ParameterBlock>")))
                return false;
        }
        if (!run(x, B, doc1("", a + "<ParameterBlock Name=\"v\" ArrayLength=\"2\">" + a + "</ParameterBlock>", "Virtual"), Schemas)) return false;
        return true;
    }, 2);
}
// ---- single faults
vector<XNode> faultBases()
{
    vector<XNode> r;
    r.push_back(mk(
        "<SystemClass Name=\"Sys\"><Subsystem Name=\"S\" Type=\"MC\" Mapping=\"Ctx:s,Amend2:b\"><ComponentLibrary><ComponentType Name=\"E\" Mapping=\"Amend1:e\">"
        "<IntegerParameter Name=\"e\" Size=\"16\" Signed=\"true\" Min=\"-5\" Max=\"9\"/></ComponentType><ComponentType Name=\"T\" Extends=\"E\">"
        "<BitParameterBlock Name=\"bb\" Size=\"8\"><BitParameter Name=\"lo\" Pos=\"0\" Size=\"4\" Max=\"9\"/><BitParameter Name=\"hi\" Pos=\"4\" Size=\"4\"/></BitParameterBlock>"
        "<EnumParameter Name=\"en\" Size=\"8\"><ValuePair Literal=\"a\" Numerical=\"2\"/><ValuePair Literal=\"b\" Numerical=\"-1\"/></EnumParameter></ComponentType>"
        "<ComponentType Name=\"D\"><BooleanParameter Name=\"z\"/><IntegerParameter Name=\"y\" Size=\"8\" ArrayLength=\"2\"/></ComponentType>"
        "</ComponentLibrary><InstanceDefinition><Component Name=\"c\" Type=\"T\" Mapping=\"CtxObj:o%1%2\"/><ParameterBlock Name=\"p\" Mapping=\"Amend1:p\">"
        "<Component Name=\"d\" Type=\"D\" ArrayLength=\"2\" Mapping=\"Obj:d%2%3\"/></ParameterBlock></InstanceDefinition></Subsystem></SystemClass>"));
    // the second exercises the other leaves in a virtual subsystem
    r[0].kids[0].kids[1].kids[1].attrs[1].second = "Amend3:p";
    r.push_back(mk(
        "<SystemClass Name=\"Sys\"><Subsystem Name=\"V\" Type=\"Virtual\"><ComponentLibrary/><InstanceDefinition><ParameterBlock Name=\"p\" ArrayLength=\"2\">"
        "<FixedPointParameter Name=\"q\" Size=\"16\" Integral=\"3\" Fractional=\"12\"/><FloatingPointParameter Name=\"f\" Min=\"-1\" Max=\"2\"/>"
        "<StringParameter Name=\"s\" MaxLength=\"5\"/><BooleanParameter Name=\"b\" ArrayLength=\"2\"/>"
        "<IntegerParameter Name=\"i\" Size=\"32\" ArrayLength=\"2\"><LinearAdaptation SlopeNumerator=\"2\" SlopeDenominator=\"3\" Offset=\"1\"/></IntegerParameter>"
        "</ParameterBlock></InstanceDefinition></Subsystem><Subsystem Name=\"S\" Type=\"MC\"><ComponentLibrary/><InstanceDefinition>"
        "<BooleanParameter Name=\"z\" Mapping=\"Obj:z\"/></InstanceDefinition></Subsystem></SystemClass>"));
    return r;
}
vector<string> valuesOf(const string &attr)
{
    if (attr == "Size") return {"0", "1", "7", "8", "16", "24", "32", "64", "65", "-8", "", "x", "8x", " 8", "0x8", "99999999999999999999"};
    if (attr == "ArrayLength") return {"0", "1", "3", "-1", "", "x", "2x", "2.5", "99999999999999999999"};
    if (attr == "Min" || attr == "Max" || attr == "Numerical")
        return {"0", "1", "-1", "-5", "9", "10", "127", "128", "-128", "-129", "255", "32767", "32768", "-32768", "-32769", "65536", "4294967295", "4294967296", "", "x", "1x", "1.5", "1e1", "1e39", "-1e39", "--1", "nan", "inf", "99999999999999999999"};
    if (attr == "Pos") return {"0", "3", "4", "5", "7", "8", "63", "64", "-1", "", "x", "18446744073709551615", "18446744073709551612", "99999999999999999999"};
    if (attr == "Integral" || attr == "Fractional") return {"0", "3", "4", "12", "13", "15", "16", "-1", "", "x", "18446744073709551615", "18446744073709551612"};
    if (attr == "MaxLength") return {"0", "1", "100", "-1", "", "x"};
    if (attr == "Signed") return {"true", "false", "0", "1", "TRUE", "yes", ""};
    if (attr == "Mapping")
        return {"", "Obj:z", "Obj", "Ctx:x", "Amend1:x", "Amend1:x,Amend1:y", "Obj:a,Obj:b", "Obj:%1", "CtxObj:k", "Obj:a,CtxObj:b", "Bogus:1", ",", "Obj:a,,Ctx:x", "Obj:'%1'", "Obj:'", ":", "Amend3:q"};
    if (attr == "Type") return {"T", "E", "MC", "Virtual", "Nope", "", "t"};
    if (attr == "Extends") return {"T", "E", "Nope", ""};
    if (attr == "Name") return {"", "S", "V", "Sys", "c", "p", "d", "E", "T", "e", "bb", "lo", "hi", "en", "q", "f", "i", "z", "0", "1", "a/b", "/", "/c"};
    if (attr == "Literal") return {"", "a", "b", "c", "1"};
    if (attr == "SlopeNumerator" || attr == "SlopeDenominator" || attr == "Offset") return {"0", "1", "-1", "0.5", "", "x", "1e400", "nan"};
    return {"", "x"};
}
void faultsOf(const XNode &D, bool full, vector<XNode> &out)
{
    vector<Path> ps;
    paths(D, {}, ps);
    static const vector<string> tags{"SystemClass", "Subsystem", "ComponentLibrary", "ComponentTypeSet", "ComponentType", "InstanceDefinition", "Component", "ParameterBlock",
                                     "BitParameterBlock", "BitParameter", "BooleanParameter", "IntegerParameter", "EnumParameter", "ValuePair", "FixedPointParameter",
                                     "FloatingPointParameter", "StringParameter", "LinearAdaptation", "LogarithmicAdaptation", "Bogus"};
    static const vector<XNode> smalls{mk("<Bogus/>"), mk("<ComponentType Name=\"E\"/>"), mk("<ComponentType Name=\"zz\"/>"), mk("<Component Name=\"zz\" Type=\"E\"/>"),
                                      mk("<Component Name=\"c\" Type=\"T\"/>"), mk("<ParameterBlock Name=\"zz\"/>"), mk("<BooleanParameter Name=\"zz\"/>"),
                                      mk("<BooleanParameter Name=\"e\"/>"), mk("<BitParameter Name=\"zz\" Pos=\"0\" Size=\"1\"/>"),
                                      mk("<ValuePair Literal=\"zz\" Numerical=\"3\"/>"), mk("<LinearAdaptation/>"), mk("<BitParameterBlock Name=\"zz\" Size=\"8\"/>"),
                                      mk("<Subsystem Name=\"zz\" Type=\"Virtual\"><ComponentLibrary/><InstanceDefinition/></Subsystem>"), mk("<ComponentLibrary/>"), mk("<InstanceDefinition/>"),
                                      mk("<ComponentTypeSet><ComponentType Name=\"zz\"><BooleanParameter Name=\"g\"/></ComponentType></ComponentTypeSet>")};
    static const vector<string> names{"Name", "Type", "Extends", "Mapping", "Size", "ArrayLength", "Min", "Max", "Pos", "Signed"};
    for (auto &p : ps) {
        XNode c;
        const XNode &n = at(const_cast<XNode &>(D), p, p.size());
        auto emit = [&]() { out.push_back(c); };
        if (!p.empty()) {
            size_t up = p.size() - 1;
            long i = long(p.back());
            auto sib = [&]() -> vector<XNode> & {
                c = D;
                return at(c, p, up).kids;
            };
            {
                auto &k = sib();
                k.erase(k.begin() + i);
                emit();
            }
            {
                auto &k = sib();
                k.insert(k.begin() + i, XNode(k[size_t(i)]));
                emit();
            }
            for (size_t j = size_t(i) + 1; j < at(const_cast<XNode &>(D), p, up).kids.size(); j++) {
                auto &k = sib();
                std::swap(k[size_t(i)], k[j]);
                emit();
            }
            if (!n.kids.empty()) {
                auto &k = sib();
                auto kids = k[size_t(i)].kids;
                k.erase(k.begin() + i);
                k.insert(k.begin() + i, kids.begin(), kids.end());
                emit();
            }
            {
                auto &k = sib(); // wrapped
                XNode w = mk("<ParameterBlock Name=\"ww\"/>");
                w.kids.push_back(k[size_t(i)]);
                k[size_t(i)] = w;
                emit();
            }
            for (auto &s : smalls) {
                auto &k = sib();
                k.insert(k.begin() + i, s);
                emit();
            }
        }
        for (auto &s : smalls) {
            c = D;
            at(c, p, p.size()).kids.push_back(s);
            emit();
        }
        for (auto &t : tags)
            if (t != n.tag) {
                c = D;
                at(c, p, p.size()).tag = t;
                emit();
            }
        for (size_t a = 0; a < n.attrs.size(); a++) {
            c = D;
            auto &as = at(c, p, p.size()).attrs;
            as.erase(as.begin() + long(a));
            emit();
            for (auto &v : valuesOf(n.attrs[a].first))
                if (v != n.attrs[a].second) {
                    c = D;
                    at(c, p, p.size()).attrs[a].second = v;
                    emit();
                }
        }
        for (auto &k : names)
            if (!n.attr(k.c_str()))
                for (auto &v : valuesOf(k)) {
                    c = D;
                    at(c, p, p.size()).attrs.push_back({k, v});
                    emit();
                }
        if (full)
            for (auto &q : ps) { // grafts
                bool related = true;
                for (size_t i = 0; i < std::min(p.size(), q.size()); i++)
                    if (p[i] != q[i]) related = false;
                if (related || p.empty()) continue;
                c = D;
                at(c, p, p.size()) = at(const_cast<XNode &>(D), q, q.size());
                emit();
            }
    }
}
void faults(Checker &c)
{
    auto bases = faultBases();
    for (size_t b = 0; b < bases.size(); b++) {
        vector<XNode> ds;
        faultsOf(bases[b], true, ds);
        string name = "faults" + std::to_string(b);
        c.bounds.push_back(name + ": " + std::to_string(ds.size()) + " descriptions one edit away from a valid one, with and without schemas");
        c.items_(name, long(ds.size()) + 1, [&](Ctx &x, long it) {
            Bench B;
            x.sh->states++;
            const XNode &d = it ? ds[size_t(it) - 1] : bases[b];
            if (!it && StructDoc(d, "Sys").v != S_A) return x.violate("base document: " + StructDoc(d, "Sys").why);
            if (g_tell) return run(x, B, d);
            return run(x, B, d) && run(x, B, d, Schemas) && run(x, B, d, Split) && run(x, B, d, SplitSchemas);
        }, 8);
        if (g_tell && !c.thorough) continue;
        // two edits: an element removed or repeated under another name, then any single edit
        vector<XNode> firsts;
        vector<Path> ps;
        paths(bases[b], {}, ps);
        for (auto &p : ps) {
            if (p.empty()) continue;
            for (int dup = 0; dup < 2; dup++) {
                XNode d = bases[b];
                auto &k = at(d, p, p.size() - 1).kids;
                auto i = k.begin() + long(p.back());
                if (dup) {
                    XNode n = *i;
                    for (auto &a : n.attrs)
                        if (a.first == "Name" || a.first == "Literal") a.second += "2";
                        else if (a.first == "Numerical") a.second = "77";
                    k.insert(i, n);
                } else
                    k.erase(i);
                firsts.push_back(d);
            }
        }
        vector<std::pair<size_t, size_t>> index; // (first, its edit)
        vector<size_t> counts;
        for (auto &f : firsts) {
            vector<XNode> es;
            faultsOf(f, false, es);
            counts.push_back(es.size());
        }
        const size_t block = 400;
        for (size_t i = 0; i < firsts.size(); i++)
            for (size_t j = 0; j < counts[i]; j += block) index.push_back({i, j});
        size_t total = 0;
        for (auto n : counts) total += n;
        c.bounds.push_back(name + "-twice: " + std::to_string(total) + " descriptions two edits away from it");
        c.items_(name + "-twice", long(index.size()), [&](Ctx &x, long it) {
            Bench B;
            vector<XNode> es;
            faultsOf(firsts[index[size_t(it)].first], false, es);
            for (size_t j = index[size_t(it)].second; j < std::min(es.size(), index[size_t(it)].second + block); j++) {
                x.sh->states++;
                if (!run(x, B, es[j]) || (c.thorough && (!run(x, B, es[j], Schemas) || !run(x, B, es[j], Split)))) return false;
            }
            return true;
        }, 1);
    }
}
// ---- P28: what the instance says of itself
vector<string> toldLeaves()
{
    vector<string> r = leafMenu(), more;
    for (auto &l : r) {
        size_t p = l.find(" Name=");
        more.push_back(l);
        if (l.find("Description") == string::npos) more.push_back(l.substr(0, p) + " Description=\"of a leaf\"" + l.substr(p));
        if (l.find("Unit") == string::npos && (l.find("<Integer") == 0 || l.find("<Fixed") == 0 || l.find("<Floating") == 0))
            more.push_back(l.substr(0, p) + " Unit=\"mB/s\"" + l.substr(p));
    }
    for (auto arr : {"", " ArrayLength=\"2\""})
        for (int s : {8, 16, 32})
            for (auto sg : {"true", "false"}) {
                string head = "<IntegerParameter Name=\"n\" Size=\"" + std::to_string(s) + "\" Signed=\"" + sg + "\"" + arr + ">", tail = "</IntegerParameter>";
                for (auto off : {"", " Offset=\"0\"", " Offset=\"-7\"", " Offset=\"100\""}) {
                    more.push_back(head + "<LinearAdaptation" + off + "/>" + tail);
                    for (auto sl : {"2", "-3", "0.5", "1000000", "1e-7", "123456.789", "1e300"}) {
                        more.push_back(head + "<LinearAdaptation SlopeNumerator=\"" + sl + "\"" + off + "/>" + tail);
                        more.push_back(head + "<LinearAdaptation SlopeDenominator=\"" + sl + "\"" + off + "/>" + tail);
                    }
                    for (auto lb : {"2", "0.5", "10"})
                        for (auto fl : {"", " FloorValue=\"-96\"", " FloorValue=\"3\""})
                            more.push_back(head + "<LogarithmicAdaptation LogarithmBase=\"" + lb + "\"" + fl + off + "/>" + tail);
                }
                if (s == 32)
                    for (auto mm : {"1e-7 2e-7", "-1.5e-30 3e30", "-0.1 0.1", "123456.7 1234567", "16777215 16777216"}) {
                        string a = string(mm).substr(0, string(mm).find(' ')), b = string(mm).substr(a.size() + 1);
                        more.push_back("<FloatingPointParameter Name=\"n\" Size=\"32\" Min=\"" + a + "\" Max=\"" + b + "\"" + arr + "/>");
                    }
                for (auto mm : {" Min=\"1\"", " Max=\"7\"", " Min=\"9\" Max=\"10\"", " Min=\"48\" Max=\"65\"", " Min=\"13\" Max=\"13\""})
                    more.push_back(head.substr(0, head.size() - 1) + mm + "/>");
            }
    for (int s : {8, 16, 32})
        for (auto &p : vector<vector<int>>{{0}, {5, 0, 3}, {-1, 1}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, {127, -128}}) {
            string e = "<EnumParameter Name=\"n\" Size=\"" + std::to_string(s) + "\">";
            for (int v : p)
                e += "<ValuePair Literal=\"v" + std::to_string(v) + "\" Numerical=\"" + std::to_string(v) + "\"/>";
            more.push_back(e + "</EnumParameter>");
        }
    for (int s : {8, 16, 32, 64})
        for (int pos : {0, 1, 3, s - 2})
            for (int w : {1, 2, 5, 31, 32, s - 1, s}) {
                if (pos + w > s) continue;
                string head = "<BitParameterBlock Name=\"n\" Size=\"" + std::to_string(s) + "\"><BitParameter Name=\"b\" Pos=\"" + std::to_string(pos) + "\" Size=\"" + std::to_string(w) + "\"";
                for (auto mx : {"", "1", "2", "10"})
                    if (w > 3 || atoi(mx) < (1 << w)) more.push_back(head + (*mx ? string(" Max=\"") + mx + "\"" : "") + "/></BitParameterBlock>");
            }
    return more;
}
// counts, lengths and depths beyond the small ones
void large(Checker &c)
{
    vector<int> ns{1, 2, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257};
    if (c.thorough) ns.insert(ns.end(), {511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025});
    const int kinds = 14;
    c.bounds.push_back("large: " + std::to_string(ns.size()) + " counts up to " + std::to_string(ns.back()) + " of each of " + std::to_string(kinds) +
                       " things (array lengths, elements, types, extensions, depths, subsystems, values, bits, lengths)");
    c.items_("large", long(ns.size()) * kinds, [&, ns](Ctx &x, long it) {
        int n = ns[size_t(it) % ns.size()], kind = int(size_t(it) / ns.size());
        Bench B;
        x.sh->states++;
        auto N = [&](int i) { return std::to_string(i); };
        auto par = [&](const string &name, const string &more = "") { return "<IntegerParameter Name=\"" + name + "\" Size=\"8\"" + more + "/>"; };
        string t, many, len = " ArrayLength=\"" + N(n) + "\"";
        const string body = par("p", " Mapping=\"Obj:p%1\"") + "<BitParameterBlock Name=\"b\" Size=\"16\" Mapping=\"Obj:b%1\"><BitParameter Name=\"l\" Pos=\"3\" Size=\"11\"/></BitParameterBlock>";
        for (const char *type : {"MC", "Virtual"}) {
            bool mc = type[0] == 'M';
            string o = mc ? " Mapping=\"Obj:o\"" : "";
            XNode d;
            switch (kind) {
            case 0: d = doc1("<ComponentType Name=\"T\">" + body + "</ComponentType>", "<Component Name=\"c\" Type=\"T\"" + len + " Mapping=\"Amend1:u\"/>", type); break;
            case 1: d = doc1("", "<ParameterBlock Name=\"c\"" + len + " Mapping=\"Obj:o%1,Amend1:u\">" + par("p") + par("q", " ArrayLength=\"2\"") + "</ParameterBlock>", type); break;
            case 2: d = doc1("", par("p", len + o) + par("q", o), type); break;
            case 3:
                for (int i = 0; i < n; i++) many += par("p" + N(i), o);
                d = doc1("", many, type);
                break;
            case 4:
                for (int i = 0; i < n; i++) many += par("p" + N(i), " Min=\"" + N(i % 100) + "\"");
                d = doc1("<ComponentType Name=\"T\">" + many + "</ComponentType>", "<Component Name=\"c\" Type=\"T\"" + o + "/>", type);
                break;
            case 5:
                if (n > 150) return true;
                for (int i = 0; i < n; i++) t += "<ComponentType Name=\"T" + N(i) + "\"" + (i ? " Extends=\"T" + N(i - 1) + "\"" : "") + ">" + par("p" + N(i)) + "</ComponentType>";
                d = doc1(t, "<Component Name=\"c\" Type=\"T" + N(n - 1) + "\"" + o + "/>", type);
                break;
            case 6:
                if (n > 110) return true;
                many = par("p");
                for (int i = 0; i < n; i++) many = "<ParameterBlock Name=\"b" + N(i) + "\"" + (i == n - 1 ? o : "") + ">" + many + "</ParameterBlock>";
                d = doc1("", many, type);
                break;
            case 7:
                if (n > 110) return true;
                t = "<ComponentType Name=\"T0\">" + par("p") + "</ComponentType>"; // types made of one another
                for (int i = 1; i < n; i++) t += "<ComponentType Name=\"T" + N(i) + "\"><Component Name=\"c\" Type=\"T" + N(i - 1) + "\"/></ComponentType>";
                d = doc1(t, "<Component Name=\"c\" Type=\"T" + N(n - 1) + "\"" + o + "/>", type);
                break;
            case 8:
                many = "<EnumParameter Name=\"e\" Size=\"16\"" + o + ">";
                for (int i = 0; i < n; i++) many += "<ValuePair Literal=\"l" + N(i) + "\" Numerical=\"" + N(i * 7 - 50) + "\"/>";
                d = doc1("", many + "</EnumParameter>", type);
                break;
            case 9: d = doc1("", "<StringParameter Name=\"s\" MaxLength=\"" + N(n) + "\"" + o + "/>" + par("q", o), type); break;
            case 10:
                if (n > 64) return true;
                many = "<BitParameterBlock Name=\"b\" Size=\"64\"" + o + ">";
                for (int i = 0; i < n; i++) many += "<BitParameter Name=\"b" + N(i) + "\" Pos=\"" + N(i) + "\" Size=\"1\"/>";
                d = doc1("", many + "</BitParameterBlock>", type);
                break;
            case 11: // subsystems
                many = "<SystemClass Name=\"Sys\">";
                for (int i = 0; i < n; i++) many += "<Subsystem Name=\"S" + N(i) + "\" Type=\"" + type + "\"><ComponentLibrary/><InstanceDefinition>" + par("p", " Min=\"" + N(i % 50) + "\"" + o) + "</InstanceDefinition></Subsystem>";
                d = mk(many + "</SystemClass>");
                break;
            case 12: { // names
                string name = "n" + string(size_t(n), 'x');
                d = doc1("<ComponentType Name=\"" + name + "\">" + par(name) + "</ComponentType>", "<Component Name=\"" + name + "\" Type=\"" + name + "\"" + (mc ? " Mapping=\"Obj:" + name + "\"" : "") + "/>", type);
                break;
            }
            case 13: // arrays within arrays
                d = doc1("<ComponentType Name=\"T\">" + body + "</ComponentType>",
                         "<ParameterBlock Name=\"o\" ArrayLength=\"" + N(n % 13 + 1) + "\" Mapping=\"Amend1:u\"><Component Name=\"c\" Type=\"T\" ArrayLength=\"" + N(n % 17 + 1) + "\"/></ParameterBlock>", type);
                break;
            }
            if (!run(x, B, d) || (n < 40 && !run(x, B, d, Schemas))) return false;
        }
        return true;
    }, 1);
}
int p28(Checker &c)
{
    g_tell = true;
    auto m = toldLeaves();
    c.bounds.push_back("told: " + std::to_string(m.size()) + " leaf descriptions in 4 surroundings, every element of each");
    c.items_("told", long(m.size()), [&](Ctx &x, long it) {
        Bench B;
        x.sh->states++;
        const string &a = m[size_t(it)];
        string b = a;
        b.replace(b.find("\"n\""), 3, "\"o\"");
        return run(x, B, doc1("", a, "Virtual")) &&
               run(x, B, doc1("", "<ParameterBlock Name=\"v\" Description=\"outer\" ArrayLength=\"2\" Mapping=\"Obj:v\">" + a + b + "</ParameterBlock>")) &&
               run(x, B, doc1("<ComponentType Name=\"T\">" + a + "</ComponentType><ComponentType Name=\"V\" Extends=\"T\">" + b + "</ComponentType>",
                              "<Component Name=\"c\" Type=\"V\" Description=\"of an instance\" Mapping=\"Obj:c\"/><Component Name=\"d\" Type=\"T\" ArrayLength=\"3\" Mapping=\"Obj:d\"/>")) &&
               run(x, B, doc1("<ComponentType Name=\"T\"><ParameterBlock Name=\"q\">" + a + "</ParameterBlock>" + a + "</ComponentType>",
                              "<ParameterBlock Name=\"p\"><Component Name=\"c\" Type=\"T\" ArrayLength=\"1\"/>" + b + "</ParameterBlock>", "Virtual"));
    }, 2);
    large(c);
    graphs(c);
    faults(c);
    // domains as they are dumped, in every state of a small exploration
    World w = baseWorld("P28domains");
    w.R.add(*w.S, rAll({rCrit(*w.S, "C1", M_IS, "b")}));
    w.R.add(*w.S, rAny({rCrit(*w.S, "C1", M_ISNOT, "b"), rAll({}), rAll({rCrit(*w.S, "C2", M_INC, "f1"), rAny({rCrit(*w.S, "C2", M_EXC, "f2")})})}));
    Ops o{{"setTuningMode", "on"}, {"setTuningMode", "off"}, {"!crit", "C1", "1"}, {"!apply"}, {"addElement", "D1", "/Sys/B/z"}, {"removeElement", "D2", "/Sys/B/y"},
          {"deleteDomain", "D1"}, {"createDomain", "N"}, {"renameDomain", "D1", "R"}, {"createConfiguration", "D1", "k"}, {"deleteConfiguration", "D1", "c1"},
          {"renameConfiguration", "D2", "c1", "k"}, {"setSequenceAwareness", "D1", "true"}, {"setSequenceAwareness", "D1", "false"}, {"clearRule", "D1", "c1"},
          {"restoreConfiguration", "D1", "c2"}, {"setRule", "D1", "c1", "All{C1 Is b}"},
          {"setRule", "D1", "c2", "Any{C1 IsNot b, All{}, All{C2 Includes f1, Any{C2 Excludes f2}}}"}, {"setElementSequence", "D1", "c1", "/Sys/A/x", "/Sys/A/c/p"}};
    Checker::Graph g = c.bfs(w, allOps(o), c.thorough ? 5 : 4, c.thorough ? 20000 : 3000);
    c.bounds.push_back("domains: " + std::to_string(g.st.size()) + " states of the domains, dumped");
    c.states += g.st.size();
    c.items_("P28domains", long(g.st.size()), [&](Ctx &x, long i) {
        vector<Op> path;
        for (int k = int(i); g.parent[size_t(k)] >= 0; k = g.parent[size_t(k)]) path.push_back(g.via[size_t(k)]);
        std::reverse(path.begin(), path.end());
        Checker::Run run(w, x);
        if (!run.fresh(false)) return false;
        for (auto &op : path)
            if (!run.step(op, false)) return false;
        const State &s = run.s;
        vector<string> want{"- ConfigurableDomains"}, names, got = Walk::linesOf(run.r->cmdv("dumpDomains"));
        std::function<void(const Rule &, int)> rule = [&](const Rule &r, int depth) {
            string ind(size_t(depth) * 4, ' ');
            if (r.comp) {
                want.push_back(ind + "- CompoundRule = " + (r.all ? "All" : "Any"));
                for (auto &k : r.kids) rule(k, depth + 1);
            } else
                want.push_back(ind + "- SelectionCriterionRule = " + r.text(*w.S));
        };
        for (auto &d : s.doms) {
            names.push_back(d.name);
            want.push_back("    - ConfigurableDomain: " + d.name + " = {Sequence aware: " + (d.aware ? "yes" : "no") + ", Last applied configuration: " + (d.last < 0 ? string("<none>") : d.confs[size_t(d.last)].name) + "}");
            for (auto &k : d.confs) {
                want.push_back("        - Configuration: " + k.name);
                if (k.rule >= 0) rule(w.R.r[size_t(k.rule)], 3);
            }
        }
        if (!got.empty() && got[0].compare(0, 21, "- ConfigurableDomains") == 0) got[0] = want[0];
        if (got != want) return x.violate("dumpDomains shows\n" + join(got, "\n") + "\ninstead of\n" + join(want, "\n"));
        x.sh->transitions++, x.sh->validated++;
        return true;
    }, 16);
    return c.finish("exhaustive within bounds",
                    "every description of the families is started on the implementation and everything each element tells of itself (properties, structure, children, parameters, "
                    "dump, size, handle) compared with an independent reading of the description; the domains dumped in each state of a breadth-first exploration compared with the model");
}
Reg r28("P28", p28);
int p26(Checker &c)
{
    graphs(c);
    placements(c);
    leaves(c);
    large(c);
    faults(c);
    return c.finish("exhaustive within bounds",
                    "every description of the families is started on the implementation and its tree, attributes, layout, defaults, mapping data and hardware "
                    "objects compared with an independent reading of the description");
}
Reg r26("P26", p26);
} // namespace
