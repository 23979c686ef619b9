// P27: remote-process. A scripted server that records what the client sends and answers any bytes,
// and the real server driven through the client.
#include "drivers.h"
#include "worldset.h"

namespace
{
string trimBlanks(const string &s)
{
    static const char *d = " \t\n\v\f\r";
    auto a = s.find_first_not_of(d), b = s.find_last_not_of(d);
    return a == string::npos ? "" : s.substr(a, b - a + 1);
}
// the strings of a complete well-formed request; false if it is none
bool decodeRequest(const string &s, vector<string> &v, size_t &used)
{
    v.clear();
    if (s.size() < 8 || uint8_t(s[0]) != 0xBE || uint8_t(s[1]) != 0xBA) return false;
    uint64_t len = get32(s, 2);
    if (len < 1 || s.size() < 6 + len + 1 || s[6] != 0) return false;
    uint8_t sum = 0;
    for (size_t i = 0; i < len; i++) sum = uint8_t(sum + uint8_t(s[6 + i]));
    if (sum != uint8_t(s[6 + len])) return false;
    size_t p = 7, end = 6 + len;
    while (p < end) {
        if (end - p < 4) return false;
        uint64_t n = get32(s, p);
        p += 4;
        if (end - p < n) return false;
        v.push_back(s.substr(p, n));
        p += n;
    }
    used = 7 + len;
    return !v.empty();
}
enum Kind { SUCCESS, FAILURE, BROKEN, EITHER };
// what the first message of a stream of bytes says
Kind decodeAnswer(const string &s, string &text)
{
    if (s.size() < 8 || uint8_t(s[0]) != 0xBE || uint8_t(s[1]) != 0xBA) return BROKEN;
    uint64_t len = get32(s, 2);
    if (len < 1 || s.size() < 6 + len + 1) return BROKEN;
    uint8_t sum = 0, id = uint8_t(s[6]);
    for (size_t i = 0; i < len; i++) sum = uint8_t(sum + uint8_t(s[6 + i]));
    if (sum != uint8_t(s[6 + len])) return BROKEN;
    if (len < 5) return BROKEN;
    uint64_t n = get32(s, 7);
    if (n > len - 5) return BROKEN;
    text = s.substr(11, n);
    if (id != 1) return id == 2 && n == len - 5 ? FAILURE : BROKEN;
    return n == len - 5 ? SUCCESS : EITHER; // more data than the answer: taken or refused
}
string shown(const string &s)
{
    string r;
    char b[5];
    for (size_t i = 0; i < s.size() && i < 120; i++) {
        if (s[i] >= 32 && s[i] < 127)
            r += s[i];
        else
            snprintf(b, sizeof b, "\\x%02x", uint8_t(s[i])), r += b;
    }
    return "'" + r + "'" + (s.size() > 120 ? ".. (" + std::to_string(s.size()) + " bytes)" : "");
}

struct FakeServer
{
    int fd = -1, port = 0;
    bool open(bool v6 = false)
    {
        fd = socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        sockaddr_in a;
        memset(&a, 0, sizeof a);
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (bind(fd, (sockaddr *)&a, sizeof a) || listen(fd, 16)) return false;
        socklen_t l = sizeof a;
        getsockname(fd, (sockaddr *)&a, &l);
        port = ntohs(a.sin_port);
        return true;
    }
    ~FakeServer()
    {
        if (fd >= 0) ::close(fd);
    }
    int accept(int ms)
    {
        pollfd p{fd, POLLIN, 0};
        if (poll(&p, 1, ms) != 1) return -1;
        int s = ::accept4(fd, nullptr, nullptr, SOCK_CLOEXEC);
        int one = 1;
        if (s >= 0) setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        return s;
    }
};
struct Scene
{
    vector<string> args;        // command and arguments
    string answer;              // bytes sent
    vector<string> env;         // splits and failures asked from the shim
    long readFirst = -1;        // bytes of the request read before answering, -1: all of it
    bool reset = false;         // ends the connection by a reset
    bool early = false;         // the answer is sent before the request is read
    string host = "127.0.0.1";
    string what;
    bool fault = false;         // a failure is injected
};
// plays a scene and judges it
bool play(Ctx &x, FakeServer &srv, const Scene &sc)
{
    x.note(sc.what);
    vector<string> a{sc.host, std::to_string(srv.port)};
    a.insert(a.end(), sc.args.begin(), sc.args.end());
    Client cl;
    if (!cl.start(a, sc.env)) return x.violate(sc.what + ": remote-process cannot be run");
    int s = srv.accept(15000);
    string req, sent = sc.answer;
    bool gotAll = false;
    size_t used = 0;
    vector<string> v;
    if (s < 0) return x.violate(sc.what + ": no connection is made");
    auto readSome = [&](size_t max) {
        pollfd p{s, POLLIN, 0};
        if (poll(&p, 1, 15000) != 1) return false;
        static char b[1 << 16];
        ssize_t n = recv(s, b, std::min(max, sizeof b), 0);
        if (n <= 0) return false;
        req.append(b, size_t(n));
        return true;
    };
    if (sc.early && !sent.empty() && ::send(s, sent.data(), sent.size(), MSG_NOSIGNAL) < 0) {
    }
    if (sc.readFirst >= 0) {
        while (long(req.size()) < sc.readFirst && readSome(size_t(sc.readFirst) - req.size())) {
        }
    } else
        while (!(gotAll = decodeRequest(req, v, used)) && readSome(1 << 20)) {
        }
    if (!sc.early && !sent.empty()) {
        size_t at = 0;
        while (at < sent.size()) {
            ssize_t n = ::send(s, sent.data() + at, sent.size() - at, MSG_NOSIGNAL);
            if (n <= 0) break;
            at += size_t(n);
        }
    }
    if (sc.reset) {
        linger l{1, 0};
        setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    } else {
        shutdown(s, SHUT_WR);
        // whatever else the client sends
        if (sc.readFirst < 0)
            while (readSome(1 << 20)) {
            }
    }
    ::close(s);
    ClientRun r = cl.wait();
    string got = " (exit " + std::to_string(r.code()) + ", output " + shown(r.out) + ", errors " + shown(r.err) + ")";
    if (r.hung) return x.violate(sc.what + ": the client does not end");
    if (r.crashed()) return x.violate(sc.what + ": the client is ended by signal " + std::to_string(WTERMSIG(r.status)) + got);
    x.sh->transitions++, x.sh->validated++;
    string text;
    Kind k = decodeAnswer(sent, text);
    bool good = r.code() == 0 && r.out == text + "\n" && r.err.empty();
    bool bad = r.code() != 0 && r.out.empty() && r.err.find(text) != string::npos && !r.err.empty();
    bool broken = r.code() != 0 && r.out.empty() && !trimBlanks(r.err).empty();
    bool complete = sc.readFirst < 0 && !sc.reset && !sc.early && !sc.fault;
    if (complete || gotAll) {
        if (!gotAll) return x.violate(sc.what + ": no well-formed request is sent: " + shown(req) + got);
        if (used != req.size()) return x.violate(sc.what + ": more than one request is sent: " + shown(req) + got);
        if (v.size() != sc.args.size()) return x.violate(sc.what + ": the request has " + std::to_string(v.size()) + " strings" + got);
        for (size_t i = 0; i < v.size(); i++)
            if (trimBlanks(v[i]) != trimBlanks(sc.args[i]))
                return x.violate(sc.what + ": string " + std::to_string(i) + " of the request is " + shown(v[i]) + got);
    }
    if (!complete) {
        // the answer may or may not have got through
        if (!broken && !(k == SUCCESS && good) && !(k == FAILURE && bad)) return x.violate(sc.what + ": neither the answer nor an error" + got);
        return true;
    }
    if (k == SUCCESS && !good) return x.violate(sc.what + ": success is not reported as such" + got);
    if (k == FAILURE && !bad) return x.violate(sc.what + ": failure is not reported as such" + got);
    if (k == BROKEN && !broken && !(bad && sent.size() > 6 && uint8_t(sent[6]) != 1)) return x.violate(sc.what + ": a broken answer is not reported" + got);
    if (k == EITHER && !broken && !good) return x.violate(sc.what + ": an answer with trailing data is neither taken nor refused" + got);
    return true;
}
string refitSum(string m)
{
    uint8_t sum = 0;
    for (size_t i = 6; i + 1 < m.size(); i++) sum = uint8_t(sum + uint8_t(m[i]));
    m[m.size() - 1] = char(sum);
    return m;
}
string answerOf(bool ok, const string &t) { return netFrame(ok ? 1 : 2, netStrings({t})); }
}

static int p27(Checker &c)
{
    bool T = c.thorough;
    signal(SIGPIPE, SIG_IGN);
    auto run = [&](const string &name, const vector<Scene> &v) {
        c.bounds.push_back(name + ": " + std::to_string(v.size()) + " runs of the client");
        long chunk = 50, n = (long(v.size()) + chunk - 1) / chunk;
        c.items_(name, n, [&](Ctx &x, long i) {
            FakeServer srv;
            if (!srv.open()) return true;
            for (size_t k = size_t(i * chunk); k < std::min(v.size(), size_t((i + 1) * chunk)); k++)
                if (!play(x, srv, v[k])) return false;
            x.sh->states++;
            return true;
        });
    };
    vector<Scene> v;
    auto add = [&](vector<string> args, const string &answer, const string &what) -> Scene & {
        Scene s;
        s.args = args, s.answer = answer, s.what = what;
        v.push_back(s);
        return v.back();
    };
    // what is sent: all vectors of one to three strings
    vector<string> alpha{"", " ", "a", " a", "b\t", "two words", "-h", "--", "\xc3\xa9", "\x01", "\"q\"", "<x y='1'>&amp;</x>", "l1\nl2\n", "*", "=", "\\0", string(300, 'y')};
    if (T) alpha.push_back(string(70000, 'z')), alpha.push_back("--help"), alpha.push_back("$HOME"), alpha.push_back("\v\f\r"), alpha.push_back("\xff\xfe");
    for (auto &p : alpha) {
        add({p}, answerOf(true, "Done"), "command " + shown(p));
        for (auto &q : alpha) {
            add({p, q}, answerOf(true, "Done"), "command " + shown(p) + " " + shown(q));
            for (auto &r : alpha) add({p, q, r}, answerOf(false, "No"), "command " + shown(p) + " " + shown(q) + " " + shown(r));
        }
    }
    for (size_t n : {4, 10, 100, 1000}) {
        vector<string> a{"cmd"};
        for (size_t i = 0; i < n; i++) a.push_back("arg" + std::to_string(i));
        add(a, answerOf(true, ""), std::to_string(n) + " arguments");
    }
    for (size_t n : {255, 256, 65535, 65536, 100000, 131000}) add({"cmd", string(n, 'x'), "last"}, answerOf(true, ""), "argument of " + std::to_string(n) + " bytes");
    for (auto h : {"localhost", "127.1"}) add({"cmd", "x"}, answerOf(true, "Done"), string("host ") + h).host = h;
    run("P27send", v);

    // what is answered
    v.clear();
    vector<string> texts{"", "Done", "\n", "\n\n", " blanks ", "line 1\nline 2\n", string("nul\0nul", 7), "\xc3\xa9\xff", "%s%n%d", "a\r\nb"};
    for (size_t n : {255, 256, 257, 4096, 65530, 65531, 65532, 65536, 65537, 131072, 200000}) texts.push_back(string(n, 'x') + "\n" + string(n / 2, 'y'));
    if (T) texts.push_back(string(5000000, 'k'));
    for (int b = 0; b < 256; b++) texts.push_back("c" + string(1, char(b)) + "d");
    for (auto &t : texts)
        for (bool ok : {true, false}) {
            add({"get", "x"}, answerOf(ok, t), string(ok ? "success " : "failure ") + shown(t));
            add({"get", "x"}, answerOf(ok, t) + "tail", string(ok ? "success " : "failure ") + shown(t) + " followed by bytes");
            add({"get", "x"}, answerOf(ok, t) + answerOf(!ok, "other"), string(ok ? "success " : "failure ") + shown(t) + " followed by another answer");
        }
    run("P27answer", v);

    // what arrives broken: truncated at every byte, each byte replaced, sizes, message ids
    v.clear();
    string done = answerOf(true, "Done"), no = answerOf(false, "No");
    for (auto &m : vector<string>{done, no, answerOf(true, ""), answerOf(true, string(70, 'q'))})
        for (size_t k = 0; k < m.size(); k++)
            for (bool reset : {false, true}) add({"get"}, m.substr(0, k), "answer cut to " + std::to_string(k) + " bytes" + (reset ? " by a reset" : "")).reset = reset;
    for (auto &m : vector<string>{done, no})
        for (size_t k = 0; k < m.size(); k++)
            for (int b = 0; b < 256; b++) {
                if (uint8_t(m[k]) == b) continue;
                if (!T && k > 6 && b % 9 && b != 255 && b > 12) continue;
                string y = m;
                y[k] = char(b);
                add({"get"}, y, "byte " + std::to_string(k) + " of the answer is " + std::to_string(b));
                string z = refitSum(y);
                if (z != y) add({"get"}, z, "byte " + std::to_string(k) + " of the answer is " + std::to_string(b) + ", check sum adjusted");
            }
    vector<uint32_t> sizes{0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 15, 16, 255, 256, 257, 65535, 65536, 65537, 1u << 24, (1u << 31) - 1, 1u << 31, 0xfffffffbu, 0xfffffffcu, 0xfffffffdu, 0xfffffffeu, 0xffffffffu};
    auto put = [](string m, size_t at, uint32_t val) {
        for (int i = 0; i < 4; i++) m[at + size_t(i)] = char(val >> (8 * i) & 255);
        return m;
    };
    for (auto &m : vector<string>{done, no})
        for (uint32_t z : sizes) {
            for (auto &tail : vector<string>{"", string(300, '\0'), string(70000, 'x')}) {
                add({"get"}, put(m, 2, z) + tail, "message size " + std::to_string(z) + " before " + std::to_string(tail.size()) + " bytes");
                if (z > 1 && z < 200000) {
                    string y = put(m, 2, z);
                    y.resize(7);
                    string data = m.substr(7, m.size() - 8);
                    data.resize(z - 1, 'z');
                    add({"get"}, refitSum(y + data + " ") + tail, "message resized to " + std::to_string(z));
                }
            }
            add({"get"}, refitSum(put(m, 7, z)), "string size " + std::to_string(z));
            add({"get"}, refitSum(put(m, 7, uint32_t(m.size() - 12) + z)), "string size " + std::to_string(z) + " above the room left");
        }
    for (int id = 0; id < 256; id++) {
        add({"get"}, netFrame(uint8_t(id), netStrings({"text"})), "message id " + std::to_string(id));
        add({"get"}, netFrame(uint8_t(id), ""), "message id " + std::to_string(id) + " without data");
    }
    for (auto &t : vector<string>{"GET / HTTP/1.0\r\n\r\n", string(1000, '\0'), string(100000, '\xff'), netRequest("get", {"x"}), netFrame(1, netStrings({"a", "b"}))}) add({"get"}, t, "answer " + shown(t));
    run("P27broken", v);

    // every way to cut what is read and written, a failure of each socket call, an early end of the server
    v.clear();
    string in = answerOf(true, "Answer"), ino = answerOf(false, "Answer");
    vector<string> args{"setParameter", "/p", "1 2"};
    size_t reqLen = netRequest(args[0], {args[1], args[2]}).size();
    auto n2 = [](size_t k) { return std::to_string(k); };
    for (size_t a = 1; a < in.size(); a++) {
        for (bool ok : {true, false}) add(args, ok ? in : ino, "answer read in pieces of " + n2(a) + ", rest").env = {"CS_IN=" + n2(a) + ",0"};
        for (size_t b = 1; a + b < in.size(); b++) add(args, in, "answer read in pieces of " + n2(a) + ", " + n2(b) + ", rest").env = {"CS_IN=" + n2(a) + "," + n2(b) + ",0"};
        add(args, in, "answer read in pieces of " + n2(a)).env = {"CS_IN=" + n2(a)};
    }
    for (size_t a = 1; a < reqLen; a++) {
        add(args, in, "request written in pieces of " + n2(a) + ", rest").env = {"CS_OUT=" + n2(a) + ",0"};
        for (size_t b = 1; a + b < reqLen; b += T ? 1 : 3) add(args, ino, "request written in pieces of " + n2(a) + ", " + n2(b) + ", rest").env = {"CS_OUT=" + n2(a) + "," + n2(b) + ",0"};
        add(args, in, "request written in pieces of " + n2(a)).env = {"CS_OUT=" + n2(a)};
    }
    for (auto z : {1, 7, 1000, 65536}) {
        add(args, answerOf(true, string(150000, 'x')), "long answer read in pieces of " + n2(size_t(z))).env = {"CS_IN=" + n2(size_t(z))};
        add({"cmd", string(100000, 'x')}, in, "long request written in pieces of " + n2(size_t(z))).env = {"CS_OUT=" + n2(size_t(z))};
    }
    for (int e : {ECONNRESET, EPIPE, ETIMEDOUT, ENETDOWN, EIO})
        for (int k = 1; k <= 14; k++)
            for (bool ok : {true, false}) {
                Scene &s = add(args, ok ? in : ino, "socket call " + n2(size_t(k)) + " fails with " + strerror(e));
                s.env = {"CS_FAIL=" + n2(size_t(k)), "CS_ERRNO=" + n2(size_t(e))};
                s.fault = true;
            }
    for (size_t k = 0; k <= reqLen; k++)
        for (bool reset : {false, true})
            for (auto &ans : vector<string>{"", in, ino, in.substr(0, 9)}) {
                Scene &s = add(args, ans, "server ends the connection after reading " + n2(k) + " bytes and sending " + n2(ans.size()) + (reset ? ", by a reset" : ""));
                s.readFirst = long(k), s.reset = reset;
            }
    for (bool reset : {false, true})
        for (auto &ans : vector<string>{in, ino, in.substr(0, 9), "noise"}) {
            Scene &s = add(args, ans, "answer sent before the request is read" + string(reset ? ", then a reset" : ""));
            s.early = true, s.reset = reset;
        }
    run("P27network", v);

    // no server, bad or missing arguments
    vector<vector<string>> bad{{}, {"localhost"}, {"localhost", "5000"}, {""}, {"", ""}};
    int closed = 0;
    {
        FakeServer s;
        s.open();
        closed = s.port;
    }
    for (auto p : vector<string>{std::to_string(closed), "notaport", "", "0", "-1", "65536", "99999999999", " ", "1x"})
        for (auto h : {"localhost", "127.0.0.1", "::1"})
            for (auto &cmd : vector<vector<string>>{{"help"}, {""}, {"setParameter", "/x", "1"}}) {
                vector<string> a{h, p};
                a.insert(a.end(), cmd.begin(), cmd.end());
                bad.push_back(a);
            }
    c.bounds.push_back("P27refused: " + std::to_string(bad.size()) + " calls with nobody to talk to");
    c.items_("P27refused", 1, [&](Ctx &x, long) {
        for (auto &a : bad) {
            string what = "remote-process" + (a.empty() ? string() : " " + Checker::opText(a));
            x.note(what);
            Client cl;
            if (!cl.start(a)) return x.violate("remote-process cannot be run");
            ClientRun r = cl.wait(40000);
            if (r.hung) return x.violate(what + ": the client does not end");
            if (r.crashed()) return x.violate(what + ": the client is ended by signal " + std::to_string(WTERMSIG(r.status)));
            if (r.code() == 0 || !r.out.empty() || trimBlanks(r.err).empty())
                return x.violate(what + ": exit " + std::to_string(r.code()) + ", output " + shown(r.out) + ", errors " + shown(r.err));
            x.sh->transitions++, x.sh->validated++;
        }
        x.sh->states++;
        return true;
    }, 1, 300);

    // the real server driven by the client, against the model
    {
        World w = baseWorld("P27system");
        w.chan = 'R';
        w.R.add(*w.S, rAll({rCrit(*w.S, "C1", M_IS, "b")}));
        w.R.add(*w.S, rAny({rCrit(*w.S, "C1", M_IS, "b"), rCrit(*w.S, "C2", M_INC, "f1")}));
        Ops o{{"setTuningMode", "on"}, {"setTuningMode", "off"}, {"setAutoSync", "off"}, {"sync"}, {"setValueSpace", "raw"},
              {"setParameter", "/Sys/A/c/p", "33"}, {"setParameter", "/Sys/A/c/q", "4", "5"}, {"setParameter", "/Sys/A/c/q", "4 5"}, {"setParameter", "/Sys/A/zz", "1"},
              {"getParameter", "/Sys/A/c/p"}, {"getParameter", "/Sys/A/zz"}, {"createDomain", "New dom"}, {"deleteDomain", "D1"}, {"renameDomain", "D1", "R"},
              {"addElement", "D1", "/Sys/B/z"}, {"createConfiguration", "D1", "k 1"}, {"saveConfiguration", "D1", "c2"}, {"restoreConfiguration", "D1", "c2"},
              {"setRule", "D1", "c1", "All{C1 Is b}"}, {"setRule", "D1", "c1", "Any{C1", "Is", "b,", "C2", "Includes", "f1}"}, {"getRule", "D1", "c1"}, {"clearRule", "D1", "c1"},
              {"setElementSequence", "D1", "c1", "/Sys/A/x", "/Sys/A/c/p"}, {"setConfigurationParameter", "D1", "c1", "/Sys/A/x", "9"}, {"!crit", "C1", "1"}, {"!apply"}};
        c.explore(w, allOps(o), T ? 3 : 2, T ? 20000 : 600);
    }
    return c.finish("exhaustive-bounded",
                    "Enumeration of argument vectors, answers, broken answers, ways to split reads and writes, failures "
                    "of each socket call and early ends of the connection, each run on the real remote-process against "
                    "a scripted server with an independent decoder; breadth-first enumeration of command sequences of a "
                    "real system driven through remote-process, each outcome and observable compared with the model.");
}
static Reg r27("P27", p27);
