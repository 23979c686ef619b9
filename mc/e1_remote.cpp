// P19: byte streams on the remote port. The socket calls of the server go through the functions
// below, which split what it reads and writes at every enumerated place and inject accept errors.
#include "drivers.h"
#include "worldset.h"
#include <atomic>
#include <dlfcn.h>
#include <sys/resource.h>
#include <thread>

namespace
{
thread_local bool t_checker = false;
std::atomic<bool> g_split{false};
struct Script
{
    vector<size_t> in, out; // sizes of the successive reads and writes; the last one repeats
    size_t ii = 0, oi = 0, iLeft = 0, oLeft = 0;
    void again() { ii = oi = iLeft = oLeft = 0; }
    static size_t next(const vector<size_t> &v, size_t &i)
    {
        size_t r = v.empty() ? SIZE_MAX : v[std::min(i, v.size() - 1)];
        i++;
        return r;
    }
};
Script g_script;
std::atomic<int> g_acceptErr{0};
std::atomic<int> g_acceptSeen{0};

size_t allowIn()
{
    if (!g_split || t_checker) return SIZE_MAX;
    if (!g_script.iLeft) g_script.iLeft = Script::next(g_script.in, g_script.ii);
    return g_script.iLeft;
}
void usedIn(ssize_t n)
{
    if (g_split && !t_checker && n > 0) g_script.iLeft -= std::min(g_script.iLeft, size_t(n));
}
size_t allowOut()
{
    if (!g_split || t_checker) return SIZE_MAX;
    if (!g_script.oLeft) g_script.oLeft = Script::next(g_script.out, g_script.oi);
    return g_script.oLeft;
}
void usedOut(ssize_t n)
{
    if (g_split && !t_checker && n > 0) g_script.oLeft -= std::min(g_script.oLeft, size_t(n));
}
template <class F>
F next(const char *n)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
// a message header limited to its n first bytes
struct Cut
{
    msghdr m;
    iovec v[64];
    Cut(const msghdr *o, size_t n) : m(*o)
    {
        size_t k = 0;
        for (; k < size_t(o->msg_iovlen) && k < 64 && n > 0; k++) {
            v[k] = o->msg_iov[k];
            if (v[k].iov_len > n) v[k].iov_len = n;
            n -= v[k].iov_len;
        }
        if (n != 0 || k < size_t(o->msg_iovlen)) {
        }
        m.msg_iov = v;
        m.msg_iovlen = k;
    }
};
}
extern "C" {
ssize_t recvmsg(int fd, msghdr *m, int flags)
{
    static auto f = next<ssize_t (*)(int, msghdr *, int)>("recvmsg");
    size_t a = allowIn();
    if (a == SIZE_MAX) return f(fd, m, flags);
    Cut c(m, a);
    ssize_t n = f(fd, &c.m, flags);
    m->msg_flags = c.m.msg_flags;
    usedIn(n);
    return n;
}
ssize_t recv(int fd, void *b, size_t len, int flags)
{
    static auto f = next<ssize_t (*)(int, void *, size_t, int)>("recv");
    ssize_t n = f(fd, b, std::min(len, allowIn()), flags);
    usedIn(n);
    return n;
}
ssize_t sendmsg(int fd, const msghdr *m, int flags)
{
    static auto f = next<ssize_t (*)(int, const msghdr *, int)>("sendmsg");
    size_t a = allowOut();
    if (a == SIZE_MAX) return f(fd, m, flags);
    Cut c(m, a);
    ssize_t n = f(fd, &c.m, flags);
    usedOut(n);
    return n;
}
ssize_t send(int fd, const void *b, size_t len, int flags)
{
    static auto f = next<ssize_t (*)(int, const void *, size_t, int)>("send");
    ssize_t n = f(fd, b, std::min(len, allowOut()), flags);
    usedOut(n);
    return n;
}
int accept(int fd, sockaddr *a, socklen_t *l)
{
    static auto f = next<int (*)(int, sockaddr *, socklen_t *)>("accept");
    int e = g_acceptErr;
    if (e && !t_checker) {
        // only when a connection is waiting, whose abortion is then reported
        pollfd p{fd, POLLIN, 0};
        if (poll(&p, 1, 0) == 1 && g_acceptErr.compare_exchange_strong(e, 0)) {
            if (e == ECONNABORTED) {
                int s = f(fd, a, l);
                if (s >= 0) ::close(s);
            }
            g_acceptSeen++;
            errno = e;
            return -1;
        }
    }
    return f(fd, a, l);
}
}

namespace
{
string trimmed(const string &s)
{
    static const char *d = " \t\n\v\f\r";
    auto a = s.find_first_not_of(d), b = s.find_last_not_of(d);
    return a == string::npos ? "" : s.substr(a, b - a + 1);
}
// what a stream of bytes asks for: complete well-formed requests up to the first malformed one
struct Decoded
{
    vector<Op> ops;
    bool clean = true; // the stream ends between two requests
};
Decoded decode(const string &s)
{
    Decoded d;
    size_t at = 0;
    while (at < s.size()) {
        d.clean = false;
        if (s.size() - at < 7) return d;
        if (uint8_t(s[at]) != 0xBE || uint8_t(s[at + 1]) != 0xBA) return d;
        uint64_t len = get32(s, at + 2);
        if (len < 1 || s.size() - at < 6 + len + 1) return d;
        if (s[at + 6] != 0) return d;
        uint8_t sum = 0;
        for (size_t i = 0; i < len; i++) sum = uint8_t(sum + uint8_t(s[at + 6 + i]));
        if (sum != uint8_t(s[at + 6 + len])) return d;
        Op op;
        size_t p = at + 7, end = at + 6 + len;
        while (p < end || op.empty()) {
            if (end - p < 4) return d;
            uint64_t n = get32(s, p);
            p += 4;
            if (end - p < n) return d;
            op.push_back(trimmed(s.substr(p, n)));
            p += n;
        }
        d.ops.push_back(op);
        at = end + 1;
        d.clean = true;
    }
    return d;
}
string hexText(const string &s)
{
    string r;
    char b[4];
    for (size_t i = 0; i < s.size() && i < 300; i++) {
        snprintf(b, sizeof b, "%02x", uint8_t(s[i]));
        r += b;
    }
    return r + (s.size() > 300 ? ".. " : " ") + std::to_string(s.size()) + " bytes";
}

// One instance, its model, and a client
struct Session
{
    World w;
    Model m;
    std::unique_ptr<Real> r;
    State s;
    Ctx &x;
    string obs, obsKey;
    Session(const World &w0, Ctx &c) : w(w0), m(*w.S, w.R), x(c)
    {
        w.chan = 'N';
        w.port = 0;
        w.dir.clear();
    }
    bool start()
    {
        t_checker = true;
        r.reset(new Real(w));
        s = w.started().first;
        if (!r->started) return x.violate("start failed: " + r->error);
        r->net.close();
        Outcome o = m.exec(s, {"setTuningMode", "on"});
        string e;
        if (!r->pf->setTuningMode(true, e)) return x.violate("setTuningMode failed");
        return true;
    }
    // state of the instance read without the network
    string observe()
    {
        r->W.chan = 'C';
        string o = r->observe();
        r->W.chan = 'N';
        return o;
    }
    bool check(const string &what)
    {
        string k = s.key();
        if (k != obsKey) obs = m.observe(s), obsKey = k;
        string d = diffText(obs, observe());
        if (!d.empty()) return x.violate(what + ": " + d);
        return true;
    }
    bool knownOp(const Op &o) const
    {
        static const std::set<string> k{"setParameter", "getParameter", "createDomain", "deleteDomain", "getTuningMode",
                                        "setElementBytes", "listDomains", "setTuningMode", "getRule", "setRule"};
        return k.count(o[0]) > 0;
    }
    // the answers expected for the decoded requests; the model moves on
    // lost: answers may be lost when the server ends the connection behind them (resetting it discards what is on its way)
    bool answers(NetClient &n, const vector<Op> &ops, const string &what, bool *lost = nullptr)
    {
        for (size_t i = 0; i < ops.size(); i++) {
            NetAnswer a;
            string why;
            bool got = n.answer(a, why);
            if (!got && n.reset && lost) return *lost = true, false;
            if (!got)
                return x.violate(what + ": no answer to request " + std::to_string(i + 1) + " (" + Checker::opText(ops[i]) + "): " + why);
            if (!knownOp(ops[i])) {
                if (a.ok) return x.violate(what + ": accepted " + Checker::opText(ops[i]));
                if (a.text.empty()) return x.violate(what + ": refused without explanation");
                continue;
            }
            // repeated slashes count for one in a path
            Op op = ops[i];
            for (size_t k = 1; k < op.size(); k++) {
                if (op[k].empty() || op[k][0] != '/') continue;
                string p;
                for (auto &e : splitWs(op[k], "/")) p += "/" + e;
                op[k] = p;
            }
            Outcome o = m.exec(s, op);
            RealOutcome ro;
            ro.ok = a.ok, ro.val = a.text;
            if (ops[i][0] == "getElementBytes") o.hasVal = false;
            o.hw.clear();
            string d = cmpOutcome(ops[i], o, ro);
            if (!d.empty()) return x.violate(what + ": answer to " + Checker::opText(ops[i]) + ": " + d);
        }
        return true;
    }
    // nothing but the end of the connection may follow
    bool ended(NetClient &n, const string &what)
    {
        string why;
        while (n.buf.empty() && n.more(why)) {
        }
        if (!n.buf.empty()) {
            // a refusal is no execution
            NetAnswer a;
            if (n.answer(a, why) && !a.ok) return ended(n, what);
            return x.violate(what + ": more answers than requests");
        }
        if (!n.eof && !n.reset) return x.violate(what + ": the connection is not ended: " + why);
        return true;
    }
    bool open(NetClient &n, const string &what)
    {
        string why;
        if (!n.open(w.port, why)) return x.violate(what + ": connection refused: " + why);
        return true;
    }
    bool alive(const string &what)
    {
        NetClient n;
        if (!open(n, what)) return false;
        n.send(netRequest("getParameter", {"/Sys/A/c/p"}));
        if (!answers(n, {{"getParameter", "/Sys/A/c/p"}}, what + ", next connection")) return false;
        n.close();
        return true;
    }
    enum End { HALF, WAIT };
    // sends a stream, checks the answers, the end of the connection and the state
    bool stream(const string &bytes, const string &what, bool full = true)
    {
        x.note(what + "\n" + hexText(bytes));
        Decoded d = decode(bytes);
        // (lost each time: not sent)
        for (int attempt = 3;; attempt--) {
            NetClient n;
            if (!open(n, what)) return false;
            n.send(bytes);
            n.halfClose();
            bool lost = false;
            if (answers(n, d.ops, what, attempt ? &lost : nullptr)) {
                if (!ended(n, what)) return false;
                n.close();
                break;
            }
            if (!lost) return false;
            n.close();
            if (g_split) g_script.again();
            if (!start()) return false;
        }
        x.sh->transitions++, x.sh->validated++;
        return !full || (check(what) && alive(what));
    }
};
const Op kGet{"getParameter", "/Sys/A/c/p"}, kSet{"setParameter", "/Sys/A/c/p", "33"}, kSet2{"setParameter", "/Sys/A/c/q", "4", "5"},
    kNew{"createDomain", "N"}, kDel{"deleteDomain", "N"}, kMode{"getTuningMode"};
string enc(const Op &o) { return netRequest(o[0], vector<string>(o.begin() + 1, o.end())); }
string refit(string m) // corrects the check sum
{
    uint8_t sum = 0;
    for (size_t i = 6; i + 1 < m.size(); i++) sum = uint8_t(sum + uint8_t(m[i]));
    m[m.size() - 1] = char(sum);
    return m;
}
}

vector<string> commandNames(); // e1_agree.cpp
static int p19(Checker &c)
{
    bool T = c.thorough;
    World base = baseWorld("P19");
    signal(SIGPIPE, SIG_IGN);
    auto lim = [] {
        rlimit l{3ull << 30, 3ull << 30};
        setrlimit(RLIMIT_AS, &l);
        // few descriptors left: any that a connection leaves behind are soon missed
        static bool done = false;
        if (done) return;
        done = true;
        rlim_t top = 0;
        for (rlim_t d = 0; d < 4096; d++)
            if (fcntl(int(d), F_GETFD) >= 0) top = d;
        getrlimit(RLIMIT_NOFILE, &l);
        l.rlim_cur = top + 24;
        setrlimit(RLIMIT_NOFILE, &l);
    };
    auto say = [&](const string &n, size_t k) { c.bounds.push_back(n + ": " + std::to_string(k)); };
    auto splitAll = [&](const string &name, vector<Op> ops, const vector<vector<size_t>> &scripts, bool outToo) {
        string bytes;
        for (auto &o : ops) bytes += enc(o);
        say(name + ": ways to split " + std::to_string(bytes.size()) + " bytes", scripts.size());
        long chunk = 200, n = (long(scripts.size()) + chunk - 1) / chunk;
        c.items_(name, n, [&](Ctx &x, long i) {
            lim();
            Session S(base, x);
            if (!S.start()) return false;
            for (size_t k = size_t(i * chunk); k < std::min(scripts.size(), size_t((i + 1) * chunk)); k++) {
                g_script = Script();
                g_script.in = scripts[k];
                if (outToo) g_script.out = scripts[k];
                g_split = true;
                string t;
                for (auto z : scripts[k]) t += " " + (z == SIZE_MAX ? string("rest") : std::to_string(z));
                bool ok = S.stream(bytes, "requests read in pieces of" + t, false);
                g_split = false;
                if (!ok || !S.check("requests read in pieces of" + t)) return false;
            }
            x.sh->states++;
            return S.alive("after the split streams");
        });
    };
    // every split of one request, then of two in a row, in two pieces, in three pieces
    auto cuts = [](size_t len, int pieces, size_t step) {
        vector<vector<size_t>> r;
        for (size_t a = 1; a < len; a++) {
            r.push_back({a, SIZE_MAX});
            if (pieces > 2)
                for (size_t b = 1; a + b < len; b += step) r.push_back({a, b, SIZE_MAX});
        }
        for (size_t k = 1; k < 12; k++) r.push_back({k});
        return r;
    };
    splitAll("P19split1", {kSet}, cuts(enc(kSet).size(), 3, 1), false);
    splitAll("P19split2", {kSet, kGet}, cuts(enc(kSet).size() + enc(kGet).size(), 3, T ? 1 : 5), false);
    splitAll("P19split3", {kNew, kSet2, kGet, kDel, kMode}, cuts(enc(kNew).size() + enc(kSet2).size() + enc(kGet).size() + enc(kDel).size() + enc(kMode).size(), T ? 3 : 2, 1), false);
    splitAll("P19splitOut", {kGet, kSet, kMode}, cuts(40, 3, 1), true);

    // truncation and corruption of a request, alone and after a good one
    struct Item
    {
        string bytes, what;
    };
    auto run = [&](const string &name, const vector<Item> &v, bool perStream) {
        say(name + ": streams", v.size());
        long chunk = 400, n = (long(v.size()) + chunk - 1) / chunk;
        c.items_(name, n, [&](Ctx &x, long i) {
            lim();
            Session S(base, x);
            if (!S.start()) return false;
            for (size_t k = size_t(i * chunk); k < std::min(v.size(), size_t((i + 1) * chunk)); k++)
                if (!S.stream(v[k].bytes, v[k].what, perStream)) return false;
            x.sh->states++;
            return S.check("after the streams") && S.alive("after the streams");
        });
    };
    vector<Item> v;
    for (auto &pre : vector<vector<Op>>{{}, {kGet}, {kSet2, kNew}})
        for (auto &o : vector<Op>{kSet, kMode, kSet2, {"setElementBytes", "/Sys/A/c/n", "1", "2"}}) {
            string p, m = enc(o);
            for (auto &q : pre) p += enc(q);
            for (size_t k = 0; k < m.size(); k++) v.push_back({p + m.substr(0, k), "request truncated to " + std::to_string(k) + " bytes"});
        }
    run("P19truncated", v, true);
    v.clear();
    for (auto &o : vector<Op>{kSet, kMode}) {
        string m = enc(o);
        for (size_t k = 0; k < m.size(); k++)
            for (int b = 0; b < 256; b++) {
                if (uint8_t(m[k]) == b) continue;
                if (!T && o == kSet && k > 7 && b % 5 && b != 255 && b != '/' && b != ' ' && b != 1) continue;
                string y = m;
                y[k] = char(b);
                v.push_back({y, "byte " + std::to_string(k) + " of a request replaced by " + std::to_string(b)});
                string z = refit(y);
                if (z != y) v.push_back({z, "byte " + std::to_string(k) + " of a request replaced by " + std::to_string(b) + ", check sum adjusted"});
                if (T || b % 4 == 0 || b > 250) v.push_back({enc(kGet) + z + enc(kSet2), "good request, corrupted one (byte " + std::to_string(k) + "=" + std::to_string(b) + "), good one"});
            }
    }
    run("P19corrupted", v, false);
    // sizes: of the message, of each of its strings, with as much, more or less data
    v.clear();
    vector<uint32_t> sizes{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 40, 41, 42, 43, 44, 45, 63, 64, 127, 128, 255, 256, 257, 1000, 65535, 65536, 65537, 131072, 1u << 20, 1u << 24,
                           (1u << 31) - 8, (1u << 31) - 1, 1u << 31, (1u << 31) + 1, 0xfffffff0u, 0xfffffff8u, 0xfffffffbu, 0xfffffffcu, 0xfffffffdu, 0xfffffffeu, 0xffffffffu};
    auto put = [](string m, size_t at, uint32_t val) {
        for (int i = 0; i < 4; i++) m[at + size_t(i)] = char(val >> (8 * i) & 255);
        return m;
    };
    for (auto &o : vector<Op>{kSet, kMode, kSet2}) {
        string m = enc(o);
        vector<size_t> at{7};
        for (size_t i = 0; i + 1 < o.size(); i++) at.push_back(at.back() + 4 + o[i].size());
        for (uint32_t z : sizes) {
            for (auto &tail : vector<string>{"", enc(kSet2), string(200, '\0'), string(70000, 'x')}) {
                v.push_back({put(m, 2, z) + tail, "message size " + std::to_string(z)});
                if (z > 1 && z < 200000) {
                    // that much data indeed, of which the check sum is right
                    string y = put(m, 2, z);
                    y.resize(7);
                    string data = m.substr(7, m.size() - 8);
                    data.resize(z - 1, 'z');
                    y += data + " ";
                    v.push_back({refit(y) + tail, "message resized to " + std::to_string(z)});
                }
            }
            for (size_t k : at) {
                v.push_back({refit(put(m, k, z)), "string size at " + std::to_string(k) + " is " + std::to_string(z)});
                v.push_back({refit(put(m, k, uint32_t(m.size() - k - 5) - z)), "string size at " + std::to_string(k) + " is " + std::to_string(z) + " below the room left"});
                v.push_back({refit(put(m, k, uint32_t(m.size() - k - 5) + z)), "string size at " + std::to_string(k) + " is " + std::to_string(z) + " above the room left"});
            }
        }
    }
    for (int id = 0; id < 256; id++) {
        v.push_back({netFrame(uint8_t(id), netStrings(kSet)), "message id " + std::to_string(id)});
        v.push_back({netFrame(uint8_t(id), ""), "message id " + std::to_string(id) + ", no data"});
        v.push_back({netFrame(uint8_t(id), netStrings({""})), "message id " + std::to_string(id) + ", empty command"});
    }
    // content of strings: blanks are trimmed, anything else is taken as it is
    for (int b = 0; b < 256; b++)
        for (auto &t : vector<std::pair<string, string>>{{"", "33"}, {"33", ""}, {"3", "3"}})
            for (int pos = 0; pos < 3; pos++) {
                Op o = kSet;
                o[2] = "33";
                if (pos == 2)
                    o[2] = t.first + char(b) + t.second;
                else
                    o[size_t(pos)] = (t.first.empty() ? char(b) + o[size_t(pos)] : t.second.empty() ? o[size_t(pos)] + char(b) : o[size_t(pos)].substr(0, 4) + char(b) + o[size_t(pos)].substr(4));
                v.push_back({enc(o), "character " + std::to_string(b) + " in string " + std::to_string(pos)});
            }
    // empty strings among the others
    for (auto &o : vector<Op>{kGet, kSet, kSet2, kMode, kNew, {"setElementBytes", "/Sys/A/c/n", "1", "2"}, {"setTuningMode", "off"}, {"getRule", "D1", "c1"}})
        for (auto &e : vector<string>{"", " ", "\t\n"})
            for (size_t k = 0; k <= o.size(); k++) {
                Op p = o;
                p.insert(p.begin() + long(k), e);
                v.push_back({enc(p), "empty string " + std::to_string(k) + " in " + o[0]});
                for (size_t l = k; l <= o.size(); l++) {
                    Op q = p;
                    q.insert(q.begin() + long(l) + 1, e);
                    v.push_back({enc(q), "empty strings " + std::to_string(k) + " and " + std::to_string(l + 1) + " in " + o[0]});
                }
            }
    run("P19sizes", v, false);

    // histories: what follows what, on the same connection or on another one
    struct Act
    {
        string name, bytes;
        bool close; // ends the connection (client side)
    };
    string badSum = enc(kSet);
    badSum[badSum.size() - 1] = char(badSum[badSum.size() - 1] + 1);
    string inner = enc(kSet);
    inner = refit(put(inner, 7, 0xfffffff0u));
    string zero = put(enc(kSet), 2, 0);
    vector<Act> acts{{"get", enc(kGet), false},
                     {"set", enc(kSet), false},
                     {"set2", enc(kSet2), false},
                     {"create", enc(kNew), false},
                     {"unknown", enc({"nope", "x"}), false},
                     {"bad sum", badSum, false},
                     {"bad string", inner, false},
                     {"size 0", zero, false},
                     {"half request", enc(kSet).substr(0, 20), false},
                     {"noise", "GET / HTTP/1.0\r\n\r\n", false},
                     {"answer", netFrame(1, netStrings({"Done"})), false},
                     {"new connection", "", true}};
    int depth = T ? 6 : 5;
    long total = 1;
    for (int k = 0; k < depth; k++) total *= long(acts.size());
    long chunk = 200;
    say("P19history: sequences of " + std::to_string(depth) + " among " + std::to_string(acts.size()) + " actions", size_t(total));
    c.items_("P19history", (total + chunk - 1) / chunk, [&](Ctx &x, long i) {
        lim();
        Session S(base, x);
        if (!S.start()) return false;
        int lostBefore = 0;
        for (long k = i * chunk; k < std::min(total, (i + 1) * chunk); k++) {
            vector<int> seq;
            long q = k;
            for (int j = 0; j < depth; j++) seq.push_back(int(q % long(acts.size()))), q /= long(acts.size());
            string what = "history:";
            for (int a : seq) what += " " + acts[size_t(a)].name + ";";
            x.note(what);
            NetClient n;
            string sent;
            if (!S.open(n, what)) return false;
            bool lost = false;
            bool over = false; // the server may have ended the connection
            auto flush = [&]() {
                n.halfClose();
                bool ok = S.ended(n, what);
                n.close();
                sent.clear();
                return ok;
            };
            for (int a : seq) {
                if (acts[size_t(a)].close) {
                    if (!flush() || !S.open(n, what)) return false;
                    over = false;
                    continue;
                }
                size_t before = decode(sent).ops.size();
                sent += acts[size_t(a)].bytes;
                n.send(acts[size_t(a)].bytes); // may fail once the server has closed
                if (over) continue;
                Decoded d = decode(sent);
                // the answer comes before anything else is sent
                if (!S.answers(n, vector<Op>(d.ops.begin() + long(before), d.ops.end()), what, lostBefore < 3 && !d.clean ? &lost : nullptr)) {
                    if (!lost) return false;
                    break;
                }
                if (!d.clean) over = true;
            }
            if (lost) {
                n.close();
                if (!S.start()) return false;
                k--, lostBefore++;
                continue;
            }
            lostBefore = 0;
            if (!flush()) return false;
            if (!S.check(what) || !S.alive(what)) return false;
            x.sh->transitions++, x.sh->validated++;
        }
        x.sh->states++;
        return true;
    });

    // connections that are aborted at any point, waiting ones included; accept errors
    struct Abort
    {
        string bytes, what;
        int wait; // connections opened behind it before it is aborted
    };
    vector<Abort> ab;
    string two = enc(kGet) + enc(kSet);
    for (int wait = 0; wait < 3; wait++)
        for (size_t k = 0; k <= two.size(); k++) ab.push_back({two.substr(0, k), "aborted after " + std::to_string(k) + " bytes, " + std::to_string(wait) + " waiting", wait});
    say("P19aborted: abortions", ab.size());
    c.items_("P19aborted", 8, [&](Ctx &x, long i) {
        lim();
        Session S(base, x);
        if (!S.start()) return false;
        for (size_t k = size_t(i); k < ab.size(); k += 8) {
            x.note(ab[k].what);
            vector<std::unique_ptr<NetClient>> more;
            NetClient n;
            if (!S.open(n, ab[k].what)) return false;
            n.send(ab[k].bytes);
            for (int j = 0; j < ab[k].wait; j++) {
                more.emplace_back(new NetClient);
                if (!S.open(*more.back(), ab[k].what)) return false;
                more.back()->send(enc(kGet));
            }
            n.close(); // a reset: what was sent may or may not have been read
            State other = S.s;
            S.m.exec(other, kSet);
            for (auto &q : more) {
                NetAnswer a;
                string why;
                if (!q->answer(a, why) || !a.ok) return x.violate(ab[k].what + ": waiting connection not answered: " + why);
                q->close();
            }
            {
                NetClient l;
                NetAnswer a;
                string why;
                if (!S.open(l, ab[k].what)) return false;
                l.send(enc(kGet));
                if (!l.answer(a, why) || !a.ok) return x.violate(ab[k].what + ": next connection not answered: " + why);
                string was = S.m.exec(S.s, kGet).val, now = S.m.exec(other, kGet).val;
                bool complete = ab[k].bytes.size() == two.size();
                if (a.text != was && !(complete && a.text == now)) return x.violate(ab[k].what + ": unexpected value " + a.text);
                if (a.text == now) S.s = other;
            }
            if (!S.check(ab[k].what)) return false;
            // back to another value, so that the next execution shows
            Op back{"setParameter", "/Sys/A/c/p", std::to_string(40 + k % 50)};
            NetClient b;
            if (!S.open(b, ab[k].what)) return false;
            b.send(enc(back));
            if (!S.answers(b, {back}, ab[k].what)) return false;
            b.close();
            x.sh->transitions++, x.sh->validated++;
        }
        x.sh->states++;
        return true;
    });
    // the port serves the next instance at once, however connections of the previous ones ended
    struct Ending
    {
        const char *what;
        string bytes;
        bool orderly, whole; // closed without a reset; up to the end of the connection by the server
    };
    const vector<Ending> ends{{"no connection", "", false, false},
                              {"a request, then closed", enc(kGet), true, false},
                              {"a request, then reset", enc(kGet), false, false},
                              {"a corrupt request, ended by the server", enc(kGet).substr(0, enc(kGet).size() - 1) + "~", true, true},
                              {"a request, then a corrupt one, ended by the server", enc(kGet) + "nonsense, more of it", true, true},
                              {"a part of a request, then closed", enc(kGet).substr(0, 9), true, false}};
    say("P19again: pairs of endings of connections, with instances following on the port", ends.size() * ends.size());
    c.items_("P19again", long(ends.size() * ends.size()), [&](Ctx &x, long i) {
        lim();
        string what;
        for (int attempt = 0; attempt < 3; attempt++) {
            Session S(base, x);
            what.clear();
            bool moved = false;
            for (int life = 0; life < 3 && !moved; life++) {
                int before = S.w.port;
                S.r.reset();
                t_checker = true;
                S.r.reset(new Real(S.w));
                S.s = S.w.started().first;
                S.obsKey.clear();
                if (!S.r->started) return x.violate("start failed: " + S.r->error);
                S.r->net.close();
                if (life && S.w.port != before) { // another process may have come first
                    moved = true;
                    break;
                }
                const Ending &e = ends[size_t(life == 0 ? i % long(ends.size()) : i / long(ends.size()))];
                if (life == 2) {
                    if (!S.stream(enc(kGet), "the third instance")) return false;
                    break;
                }
                what += string(life ? "; then " : "") + e.what;
                x.note(what);
                if (!e.bytes.empty()) {
                    NetClient n;
                    if (!S.open(n, what)) return false;
                    if (e.orderly) {
                        linger l{0, 0};
                        setsockopt(n.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
                    }
                    n.send(e.bytes);
                    Decoded d = decode(e.bytes);
                    bool lost = false;
                    if (!S.answers(n, d.ops, what, d.clean ? nullptr : &lost)) {
                        if (!lost) return false;
                        n.close();
                        moved = true; // the same again
                        break;
                    }
                    string why;
                    if (e.whole)
                        while (n.more(why)) {
                        }
                    n.close();
                }
                if (!S.alive(what)) return false;
                x.sh->transitions++, x.sh->validated++;
            }
            if (!moved) {
                x.sh->states++;
                return true;
            }
        }
        return x.violate("the port cannot be used again after: " + what);
    });
    vector<int> errs{ECONNABORTED, EPROTO, EMFILE, ENFILE, ENOBUFS, ENOMEM, EINTR, ENETDOWN, EHOSTUNREACH, EPERM};
    say("P19accept: errors of accept", errs.size());
    c.items_("P19accept", long(errs.size()), [&](Ctx &x, long i) {
        lim();
        Session S(base, x);
        if (!S.start()) return false;
        for (int round = 0; round < 3; round++) {
            string what = string("accept fails with ") + strerror(errs[size_t(i)]);
            x.note(what);
            int seen = g_acceptSeen;
            g_acceptErr = errs[size_t(i)];
            NetClient n;
            if (!S.open(n, what)) return false;
            for (int k = 0; k < 2000 && g_acceptSeen == seen; k++) usleep(1000);
            g_acceptErr = 0;
            n.send(enc(kGet));
            if (!S.check(what)) return false;
            if (errs[size_t(i)] != ECONNABORTED) {
                // still waiting: it is served once accepted
                if (!S.answers(n, {kGet}, what)) return false;
            }
            n.close();
            if (!S.alive(what)) return false;
            if (!S.stream(enc(kSet2) + enc(kGet), what)) return false;
        }
        x.sh->states++;
        return true;
    });
    // no argument of a well-formed request crashes the process either
    vector<string> cmds = commandNames();
    vector<string> as{"", "/", "//", "/Sys", "/Sys/", "/Sys/A", "/Sys/A/c/p", "/Sys/A/c/q", "/Sys/A/c/q/1", "/Sys/A/c/q/7", "/Sys/A/c/n/b/lo", "/Sys/A/zz", "zz",
                      "D1", "D3", "c1", "g1", "on", "true", "overwrite", "12", "-1", "1 2", "0x", "1e999", "99999999999999999999999", "%s%n", "All{", "All{C1 Is a", "}", "All{},C1 Is a", "C1", "C1 Is", "C1 Is a",
                      "<", "<a/>", "<ConfigurableDomains/>", "<ConfigurableDomain Name=\"D1\"/>", "<SystemClass Name=\"Sys\"/>", string("a\0b", 3), "\xff\xfe", string(70000, 'a'), string(70000, '/')};
    vector<string> few{"", "/", "/Sys/A/c/p", "/Sys/A/c/q", "D1", "c1", "12", "-1", "1 2", "All{", "All{C1 Is a", "zz"};
    say("P19arguments: commands", cmds.size());
    c.items_("P19arguments", long(cmds.size()) * 2, [&](Ctx &x, long i) {
        lim();
        if (chdir(g_scratch.c_str())) return x.violate("no scratch directory");
        World w = base;
        Checker::Run run(w, x);
        const string &cmd = cmds[size_t(i / 2)];
        if (!run.fresh(false)) return false;
        uint64_t n = 0;
        auto go = [&](const vector<string> &a) {
            x.note(Checker::opText({cmd}));
            for (auto &y : a) x.append(" '" + y.substr(0, 60) + "'");
            string out;
            run.r->cmd(cmd, a, out);
            x.sh->transitions++, x.sh->validated++;
            if (++n % 512 == 0 || cmd == "deleteAllDomains") {
                if (!run.fresh(false)) return false;
                run.r->cmd("setTuningMode", {"on"}, out);
            }
            return true;
        };
        string out;
        run.r->cmd("setTuningMode", {"on"}, out);
        if (i & 1) {
            for (auto &a : as)
                for (auto &b : as)
                    if (!go({a, b})) return false;
            if (!go({})) return false;
            for (auto &a : as)
                if (!go({a})) return false;
        } else
            for (auto &a : few)
                for (auto &b : few)
                    for (auto &d : T ? as : few) {
                        if (!go({a, b, d})) return false;
                        if (b == "c1" || T)
                            for (auto &e : few)
                                if (!go({a, b, d, e})) return false;
                    }
        x.sh->states++;
        return true;
    });
    return c.finish("exhaustive-bounded",
                    "Real server on a loopback port. An independent decoder tells which requests a byte stream holds; answers, "
                    "state (against the model), end of connection and service of the next connection are checked for every "
                    "stream: all cuts of request streams in two and three pieces (reads and writes of the server forced to "
                    "those sizes), all truncations, all one byte corruptions with and without adjusted check sum, edge "
                    "values of every size field, all message ids, all histories of the given depth over good, malformed "
                    "and refused requests and reconnections, abortions at every byte, accept errors; all commands over products of odd arguments.");
}
static Reg r19("P19", p19);
