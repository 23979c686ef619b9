// P17: every text up to a bound, over the tokens of the grammar and with edits
// of well-formed texts, against an independent parser of the grammar.
#include "drivers.h"
#include "worldset.h"

namespace
{
struct T // parsed rule
{
    bool comp = true, all = true;
    vector<T> kids;
    int crit = 0, mw = 0, val = 0;
    bool operator==(const T &o) const
    {
        if (comp != o.comp) return false;
        if (!comp) return crit == o.crit && mw == o.mw && val == o.val;
        return all == o.all && kids == o.kids;
    }
    bool eval(const vector<int> &s) const
    {
        if (!comp) return mw == 0 ? s[crit] == val : mw == 1 ? s[crit] != val
                        : mw == 2 ? (s[crit] & val) == val : (s[crit] & val) == 0;
        for (auto &k : kids)
            if (k.eval(s) != all) return !all;
        return all;
    }
};
// rule  := type '{' [ item { ',' item } ] '}'      type := All | Any
// item  := rule | criterion verb value              words separated by blanks
// value := literal { '|' literal }  (inclusive criteria), literal (exclusive)
struct P
{
    const Structure &S;
    const string &s;
    size_t at = 0;
    int depth = 0, maxDepth = 0;
    bool tooDeep = false;
    bool odd = false; // spelled in a way an implementation may refuse
    P(const Structure &st, const string &t) : S(st), s(t) {}
    bool sp()
    {
        size_t b = at;
        while (at < s.size() && s[at] == ' ') at++;
        return at > b;
    }
    string word()
    {
        size_t b = at;
        while (at < s.size() && !strchr("{} ,", s[at])) at++;
        return s.substr(b, at - b);
    }
    bool literal(const CritDef &c, const string &w, int &v)
    {
        for (auto &x : c.vals)
            if (x.first == w) {
                v = x.second;
                return true;
            }
        if (c.incl && w == "none") {
            v = 0;
            return true;
        }
        return false;
    }
    bool value(const CritDef &c, const string &w, int &v)
    {
        if (!c.incl) return literal(c, w, v);
        v = 0;
        if (w == "<none>") return true;
        size_t b = 0;
        for (;;) {
            size_t e = w.find('|', b);
            string l = w.substr(b, e == string::npos ? e : e - b);
            int x = 0;
            if (l.empty())
                odd = true;
            else if (!literal(c, l, x))
                return false;
            v |= x;
            if (e == string::npos) return true;
            b = e + 1;
        }
    }
    bool item(T &t, bool root)
    {
        string w = word();
        if (w.empty()) return false;
        bool blank = sp();
        if (at < s.size() && s[at] == '{') {
            if (blank) odd = true;
            if (w != "All" && w != "Any") return false;
            t.all = w == "All";
            at++;
            maxDepth = std::max(maxDepth, ++depth);
            if (depth > 3000) tooDeep = true;
            if (tooDeep) return false;
            sp();
            if (at < s.size() && s[at] == '}') {
                at++, depth--;
                return true;
            }
            for (;;) {
                t.kids.emplace_back();
                if (!item(t.kids.back(), false)) return false;
                sp();
                if (at >= s.size()) return false;
                if (s[at] == '}') {
                    at++, depth--;
                    return true;
                }
                if (s[at] != ',') return false;
                at++;
                sp();
            }
        }
        if (root || !blank) return false;
        t.comp = false;
        int c = -1;
        for (size_t i = 0; i < S.crits.size(); i++)
            if (S.crits[i].name == w) c = int(i);
        string verb = word();
        if (verb.empty() || !sp()) return false;
        string val = word();
        if (val.empty() || c < 0) return false;
        static const char *verbs[] = {"Is", "IsNot", "Includes", "Excludes"};
        t.crit = c, t.mw = -1;
        for (int k = 0; k < 4; k++)
            if (verb == verbs[k]) t.mw = k;
        if (t.mw < 0 || (t.mw >= 2 && !S.crits[c].incl)) return false;
        return value(S.crits[c], val, t.val);
    }
    bool parse(T &t)
    {
        if (sp()) odd = true;
        if (!item(t, true)) return false;
        if (sp()) odd = true;
        return at == s.size();
    }
};
struct Verdict
{
    bool ok, must, tooDeep;
    T t;
};
Verdict refer(const Structure &S, const string &text)
{
    P p(S, text);
    Verdict v;
    v.ok = p.parse(v.t);
    v.tooDeep = p.tooDeep;
    v.must = v.ok && !p.odd && p.maxDepth <= 50;
    return v;
}
void unparse(const Structure &S, const T &t, const vector<string> &gap, size_t &k, string &r)
{
    static const char *verbs[] = {"Is", "IsNot", "Includes", "Excludes"};
    auto g = [&] { return gap.empty() ? string() : gap[k++ % gap.size()]; };
    if (!t.comp) {
        auto &c = S.crits[size_t(t.crit)];
        string v;
        if (!c.incl) {
            for (auto &x : c.vals)
                if (x.second == t.val) v = x.first;
        } else
            for (auto &x : c.vals)
                if (x.second & t.val) v += (v.empty() ? "" : "|") + x.first;
        if (v.empty()) v = "<none>";
        r += c.name + " " + g() + verbs[t.mw] + " " + g() + v;
        return;
    }
    r += t.all ? "All{" : "Any{";
    r += g();
    for (size_t i = 0; i < t.kids.size(); i++) {
        unparse(S, t.kids[i], gap, k, r);
        r += g();
        if (i + 1 < t.kids.size()) r += "," + g();
    }
    r += "}";
}
string unparse(const Structure &S, const T &t, const vector<string> &gap = {})
{
    string r;
    size_t k = 0;
    unparse(S, t, gap, k, r);
    return r;
}
T leaf(int c, int m, int v)
{
    T t;
    t.comp = false, t.crit = c, t.mw = m, t.val = v;
    return t;
}
// all rule trees with at most n nodes over the given leaves
void trees(int n, const vector<T> &leaves, vector<vector<T>> &bySize)
{
    bySize.assign(size_t(n) + 1, {});
    for (int k = 1; k <= n; k++) {
        if (k == 1)
            for (auto &l : leaves) bySize[1].push_back(l);
        // compound rules with children sizes summing to k-1
        std::function<void(int, vector<T> &)> rec = [&](int left, vector<T> &kids) {
            if (!left) {
                for (int all = 0; all < 2; all++) {
                    T t;
                    t.all = all, t.kids = kids;
                    bySize[size_t(k)].push_back(t);
                }
                return;
            }
            for (int s = 1; s <= left; s++)
                for (size_t i = 0; i < bySize[size_t(s)].size(); i++) {
                    T kid = bySize[size_t(s)][i];
                    kids.push_back(kid);
                    rec(left - s, kids);
                    kids.pop_back();
                }
        };
        vector<T> kids;
        rec(k - 1, kids);
    }
}

struct Bench
{
    World W;
    std::unique_ptr<Real> r;
    string prevText;
    T prev;
    size_t n = 0;
    Bench(const World &w) : W(w) {}
    bool up(Ctx &c)
    {
        if (r) return true;
        r.reset(new Real(W));
        if (!r->started) return c.violate("start failed: " + r->error);
        string e;
        prevText = "Any{C1 IsNot c}";
        prev = refer(*W.S, prevText).t;
        if (!r->pf->setApplicationRule("D1", "K1", prevText, e)) return c.violate("rule refused: " + e);
        r->pf->getApplicationRule("D1", "K1", prevText);
        return true;
    }
    bool observe(Ctx &c, const string &text)
    {
        string now;
        if (!r->pf->getApplicationRule("D1", "K1", now)) return c.violate("getRule refused: " + now);
        if (now != prevText)
            return c.violate("refused text changed the rule from " + prevText + " to " + now + ": '" + text.substr(0, 300) + "'");
        return true;
    }
    bool activated(Ctx &c, const T &t, const string &text)
    {
        // K1 holds exactly in the states in which the rule does
        for (int a = 0; a < 3; a++)
            for (int b = 0; b < 8; b++) {
                vector<int> st{a, b};
                r->pf->getSelectionCriterion("C1")->setCriterionState(a);
                r->pf->getSelectionCriterion("C2")->setCriterionState(b);
                r->pf->applyConfigurations();
                string v = r->cmdv("getParameter", {"/Sys/A/x"});
                string want = t.eval(st) ? "11" : "22";
                if (v != want)
                    return c.violate("rule '" + text + "' in state C1=" + std::to_string(a) + " C2=" +
                                     std::to_string(b) + ": value " + v + " applied, expected " + want);
            }
        return true;
    }
    bool tryText(Ctx &c, const string &text, bool viaCmd = false)
    {
        if (!up(c)) return false;
        c.note("text '" + text.substr(0, 2000) + "'" + (viaCmd ? " (command)" : ""));
        Verdict v = refer(*W.S, text);
        string e;
        bool ok = viaCmd ? r->cmd("setRule", {"D1", "K1", text}, e) : r->pf->setApplicationRule("D1", "K1", text, e);
        c.sh->validated++;
        if (v.tooDeep) {
            // too deep for this parser: may be refused, must not crash nor change
            string now;
            if (!ok) return observe(c, text);
            r->pf->getApplicationRule("D1", "K1", now);
            if (normRule(now) != normRule(text)) return c.violate("a deep rule is accepted as another one");
            return r->pf->setApplicationRule("D1", "K1", prevText, e) || c.violate("rule refused: " + e);
        }
        if (ok != v.ok && !(v.ok && !v.must))
            return c.violate(string(ok ? "accepted" : "refused (" + e + ")") + " but the text is " +
                             (v.ok ? "well-formed" : "not a rule") + ": '" + text.substr(0, 300) + "'");
        if (!ok) {
            if (e.empty()) return c.violate("refused without an error: '" + text.substr(0, 300) + "'");
            return observe(c, text);
        }
        c.sh->distinct++;
        string now;
        r->pf->getApplicationRule("D1", "K1", now);
        Verdict d = refer(*W.S, now);
        if (!d.ok || !(d.t == v.t))
            return c.violate("'" + text.substr(0, 300) + "' accepted as '" + now.substr(0, 300) + "'");
        if (now != prevText) {
            if (!r->pf->setApplicationRule("D1", "K1", now, e))
                return c.violate("the text read back is refused: '" + now.substr(0, 300) + "': " + e);
            string again;
            r->pf->getApplicationRule("D1", "K1", again);
            if (again != now) return c.violate("'" + now.substr(0, 300) + "' reads back as '" + again.substr(0, 300) + "'");
            prevText = now, prev = v.t;
        }
        return true;
    }
};
World ruleWorld(const string &name, vector<CritDef> crits = {})
{
    auto s = stdStructure();
    if (!crits.empty()) s->crits = crits;
    WB b(name, s);
    Dom &d = b.dom("D1", {"/Sys/A/x"});
    b.conf(d, "K1", b.rule(rAll({b.is("C1", "a")})), 1);
    b.conf(d, "K2", b.rule(rAll({})), 2);
    b.w.init.doms[0].confs[0].seq[0].v[0] = 11;
    b.w.init.doms[0].confs[1].seq[0].v[0] = 22;
    return b.w;
}

int p17(Checker &c)
{
    World W = ruleWorld("rules");
    const Structure &S = *W.S;
    // criteria and values named like pieces of the grammar: not all can be written in a rule
    World odd = ruleWorld("odd", {{"C1", false, {{"a", 0}, {"b{", 1}, {"c", 2}, {"b}", 3}, {"b,", 4}, {"a c", 5}, {"{", 6}, {"}", 7}, {",", 8}, {"", 9}, {"Is", 10}, {"a|c", 11}, {"none", 12}, {"<none>", 13}, {" a", 14}, {"\t", 15}, {"All{}", 16}}},
                                   {"C2", true, {{"f1", 1}, {"f2", 2}, {"f3", 4}, {"f{", 8}, {"f1,", 16}, {" f1", 64}, {"All", 128}}},
                                   {"All", false, {{"a", 0}, {"All", 1}}},
                                   {"Is", true, {{"Is", 1}, {"{", 2}}},
                                   {"C {", false, {{"a", 0}}},
                                   {"C{", false, {{"a", 0}}},
                                   {"C1,", false, {{"a", 0}}}});
    World *used = &W;
    std::unique_ptr<Bench> B;
    auto bench = [&]() -> Bench & {
        if (!B) B.reset(new Bench(*used));
        return *B;
    };
    // (1) token sequences
    struct Alpha
    {
        string name;
        vector<string> tok;
        int len;
    };
    vector<Alpha> alphas = {
        {"tokens", {"All", "Any", "{", "}", ",", " ", "C1", "Is", "a", "C2", "Includes", "f1|f2", "zz"}, c.thorough ? 7 : 6},
        {"phrases", {"All{", "Any{", "}", ", ", "C1 Is a", "C2 Excludes f2", "x", " "}, c.thorough ? 9 : 8},
        {"odd", {"C1", " ", "Is", "Includes", "C2", "b{", "b}", "a", "{", "}", ",", "All", "f1", "|", "none"}, c.thorough ? 6 : 5},
        {"odd inside", {"C1 Is ", "C2 Includes ", "All Is ", "Is Includes ", "C", " {", "b", "a", "f", "{", "}", ",", " ", "c", "|", "None", "none", "<none>", "All", "Is"}, c.thorough ? 5 : 4},
        {"inside", {"C1", " ", "Is", "IsNot", "a", "b", "C2", "Includes", "Excludes", "f1", "|", "none", ",", "<none>"}, c.thorough ? 7 : 6},
    };
    for (auto &A : alphas) {
        bool inside = A.name.find("inside") != string::npos;
        used = A.name.find("odd") != string::npos ? &odd : &W;
        size_t k = A.tok.size();
        long total = 1;
        for (int i = 0; i < A.len; i++) total = total * long(k) + 1; // sequences of length 0..len
        // one item per pair of leading tokens
        c.bounds.push_back(A.name + ": all " + std::to_string(total) + " sequences of up to " + std::to_string(A.len) +
                           " of " + std::to_string(k) + " tokens" + (inside ? ", inside All{ }" : ""));
        c.items_(A.name, long(k * k), [&](Ctx &cx, long it) {
            vector<size_t> ix{size_t(it) / k, size_t(it) % k};
            std::function<bool(int)> rec = [&](int d) {
                string t = inside ? "All{" : "";
                for (size_t i : ix) t += A.tok[i];
                if (inside) t += "}";
                cx.sh->states++;
                if (!bench().tryText(cx, t)) return false;
                if (d >= A.len) return true;
                for (size_t i = 0; i < k; i++) {
                    ix.push_back(i);
                    bool ok = rec(d + 1);
                    ix.pop_back();
                    if (!ok) return false;
                }
                return true;
            };
            alarm(300);
            if (it == 0 && !bench().tryText(cx, "")) return false;
            if (ix[1] == 0) {
                vector<size_t> save = ix;
                ix = {save[0]};
                bool ok = bench().tryText(cx, inside ? "All{" + A.tok[ix[0]] + "}" : A.tok[ix[0]]);
                ix = save;
                if (!ok) return false;
            }
            return rec(2);
        });
        B.reset();
        used = &W;
    }
    // (2) every tree up to a size, with blanks, its meaning in every state
    vector<T> leaves = {leaf(0, 0, 0), leaf(0, 1, 1), leaf(1, 2, 3), leaf(1, 3, 4)}, all;
    for (int m = 0; m < 2; m++)
        for (int v = 0; v < 3; v++) all.push_back(leaf(0, m, v));
    for (int m = 0; m < 4; m++)
        for (int v = 0; v < 8; v++) all.push_back(leaf(1, m, v));
    vector<vector<T>> by, byAll;
    trees(c.thorough ? 6 : 5, leaves, by);
    trees(3, all, byAll);
    vector<T> tr;
    for (auto *q : {&by, &byAll})
        for (auto &v : *q)
            for (auto &t : v)
                if (t.comp) tr.push_back(t);
    vector<vector<string>> gaps = {{}, {" "}, {"", " "}, {" ", ""}, {"", "", "  "}, {"   "}};
    c.bounds.push_back(std::to_string(tr.size()) + " rule trees (up to " + std::to_string(by.size() - 1) +
                       " nodes over 4 criterion rules, up to 3 nodes over all 38), 6 placements of blanks, effect in all 24 criterion states");
    c.items_("trees", long(tr.size()), [&](Ctx &cx, long i) {
        Bench &b = bench();
        cx.sh->states++;
        for (auto &g : gaps)
            if (!b.tryText(cx, unparse(S, tr[size_t(i)], g))) return false;
        if (!b.tryText(cx, unparse(S, tr[size_t(i)]), true)) return false;
        return b.activated(cx, tr[size_t(i)], unparse(S, tr[size_t(i)]));
    }, 16);
    B.reset();
    // (3) edits of well-formed texts
    vector<string> base;
    for (size_t n = 1; n < by.size() - 1; n++)
        for (size_t i = 0; i < by[n].size(); i += n < 4 ? 1 : 17)
            if (by[n][i].comp) base.push_back(unparse(S, by[n][i]));
    base.push_back("All{Any{C1 Is a, C2 Includes f1|f2}, C1 IsNot b, Any{}, All{C2 Is <none>}}");
    base.push_back("Any{C2 Excludes f1|f3|f2,All{Any{All{C1 Is c}}},C2 IsNot none}");
    const string chars = " {},|xC1aI<\t\n\"";
    auto edits = [&](const string &t) {
        vector<string> r;
        for (size_t i = 0; i <= t.size(); i++) {
            for (char ch : chars) r.push_back(t.substr(0, i) + ch + t.substr(i));
            if (i < t.size()) {
                r.push_back(t.substr(0, i) + t.substr(i + 1));
                r.push_back(t.substr(0, i) + t[i] + t.substr(i));
                r.push_back(t.substr(0, i));
                r.push_back(t.substr(i));
                for (char ch : chars) r.push_back(t.substr(0, i) + ch + t.substr(i + 1));
            }
            if (i + 1 < t.size()) r.push_back(t.substr(0, i) + t[i + 1] + t[i] + t.substr(i + 2));
        }
        return r;
    };
    c.bounds.push_back(std::to_string(base.size()) + " well-formed texts with every insertion, deletion, replacement, duplication, "
                       "swap and truncation of one character" + string(c.thorough ? ", and of two for the shorter ones" : ""));
    c.items_("edits", long(base.size()), [&](Ctx &cx, long i) {
        for (auto &t : edits(base[size_t(i)])) {
            cx.sh->states++;
            if (!bench().tryText(cx, t)) return false;
            if (base[size_t(i)].size() < (c.thorough ? 30 : 12))
                for (auto &u : edits(t))
                    if (!bench().tryText(cx, u)) return false;
        }
        return true;
    }, 1, 240);
    B.reset();
    // (4) concatenations of two rules and criterion rules
    vector<string> parts = {"All{}", "Any{}", "All{C1 Is a}", "Any{C2 Includes f1}", "C1 Is a", "C2 Excludes f3", "All{Any{}}"};
    vector<string> seps = {"", " ", ",", ", ", " , ", "}", "{", "},", ",,", "x"};
    vector<string> cat;
    for (auto &a : parts)
        for (auto &x : seps)
            for (auto &b : parts)
                for (auto &y : seps) {
                    cat.push_back(a + x + b + y);
                    for (auto &z : parts) cat.push_back(a + x + b + y + z), cat.push_back("All{" + a + x + b + y + z + "}");
                }
    c.bounds.push_back(std::to_string(cat.size()) + " concatenations of up to three rules with 10 separators, bare and inside All{ }");
    c.items_("joined", long(cat.size()), [&](Ctx &cx, long i) {
        cx.sh->states++;
        return bench().tryText(cx, cat[size_t(i)], i & 1);
    }, 64);
    B.reset();
    // (5) sizes
    vector<string> big;
    auto nest = [](size_t n, const string &in, bool close) {
        string t;
        for (size_t i = 0; i < n; i++) t += i & 1 ? "Any{" : "All{";
        t += in;
        if (close) t += string(n, '}');
        return t;
    };
    vector<size_t> depths;
    for (size_t d = 1; d <= 260; d++) depths.push_back(d);
    for (size_t d : {1000, 10000, 30000, 100000, 300000, 1000000}) depths.push_back(d);
    for (size_t d : depths)
        for (auto &in : {string(), string("C1 Is a"), string("zz")}) {
            big.push_back(nest(d, in, true));
            big.push_back(nest(d, in, false));
            big.push_back(nest(d, in, true) + "}");
        }
    for (size_t n : {10, 1000, 20000}) {
        string t = "Any{";
        for (size_t i = 0; i < n; i++) t += string(i ? ", " : "") + (i % 3 ? "C1 Is b" : "Any{C2 Is f1}");
        big.push_back(t + "}");
        big.push_back(t);
        big.push_back(t + "},");
        big.push_back("All{C1 Is " + string(n, 'a') + "}");
        big.push_back("All{" + string(n, 'C') + " Is a}");
        big.push_back(string(n, ' ') + "All{}");
        big.push_back("All{" + string(n, ' ') + "C1" + string(n, ' ') + "Is" + string(n, ' ') + "a" + string(n, ' ') + "}");
        big.push_back(string(n, '{'));
        big.push_back(string(n, '}'));
        big.push_back(string(n, ','));
        big.push_back("All{C2 Is f1" + [&] { string q; for (size_t i = 0; i < n; i++) q += "|f2"; return q; }() + "}");
    }
    c.bounds.push_back(std::to_string(big.size()) + " deep, wide and long texts (nesting up to 1000000)");
    c.items_("sizes", long(big.size()), [&](Ctx &cx, long i) {
        cx.sh->states++;
        return bench().tryText(cx, big[size_t(i)]);
    }, 8);
    B.reset();
    c.transitions += c.validated;
    c.sample("All{Any{C1 Is a, C2 Includes f1|f2}, C1 IsNot b, Any{}, All{C2 Is <none>}}");
    return c.finish("exhaustive within bounds",
                    "every text of the enumeration is given as a rule to a running instance and judged by an independent parser "
                    "of the grammar: accepted exactly as denoted or refused with the previous rule kept; accepted rules are read "
                    "back, set again and, for all enumerated trees, applied in every criterion state");
}
Reg r17("P17", p17);
} // namespace
