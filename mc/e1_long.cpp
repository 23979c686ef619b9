// Long histories: two operations in turn, for as many times as a byte counts to and around it, then a third.
// What a bounded depth leaves out: counters, accumulated state, things that wear.
#include "drivers.h"
#include "worldset.h"

void lasting(Checker &c, const string &prop)
{
    World w = baseWorld(prop + "long");
    const Ops tune{{"setTuningMode", "on"}};
    const Op apply{"!apply"}, on{"setTuningMode", "on"}, off{"setTuningMode", "off"}, a{"!crit", "C1", "0"}, b{"!crit", "C1", "1"}, none{"!crit", "C2", "0"}, f1{"!crit", "C2", "1"}, f2{"!crit", "C2", "2"};
    Ops o;
    if (prop == "P01" || prop == "P02") o = {apply, a, b, none, f1, f2, on, off};
    if (prop == "P03") o = {on, off, b, a, apply, {"setParameter", "/Sys/A/x", "9"}, {"setParameter", "/Sys/B/y", "10"}, {"!hset", "/Sys/A/c/p", "9"}};
    if (prop == "P04") o = {{"setAutoSync", "on"}, {"setAutoSync", "off"}, {"sync"}, {"setParameter", "/Sys/A/x", "9"}, {"setParameter", "/Sys/A/x", "8"}, {"restoreConfiguration", "D1", "c1"}, {"setElementBytes", "/Sys/B/z", "0x07"}, off, on};
    if (prop == "P05")
        o = {{"setElementSequence", "D1", "c1", "/Sys/A/x"}, {"setElementSequence", "D1", "c1", "/Sys/A/c/p"}, {"setSequenceAwareness", "D1", "true"}, {"setSequenceAwareness", "D1", "false"}, a, b, off, on,
             {"getElementSequence", "D1", "c1"}};
    if (prop == "P06")
        o = {{"createConfiguration", "D1", "n"}, {"deleteConfiguration", "D1", "n"}, {"addElement", "D1", "/Sys/B/z"}, {"removeElement", "D1", "/Sys/B/z"}, {"splitDomain", "D2", "/Sys/A/c/n"},
             {"addElement", "D2", "/Sys/A/c/n"}, {"renameConfiguration", "D1", "c1", "n"}, {"renameConfiguration", "D1", "n", "c1"}, {"createDomain", "N"}, {"deleteDomain", "N"}, {"saveConfiguration", "D1", "c2"}, {"setParameter", "/Sys/A/x", "9"}};
    if (prop == "P07")
        o = {{"setParameter", "/Sys/A/x", "300"}, {"setParameter", "/Sys/A/nope", "1"}, {"createDomain", "D1"}, {"setRule", "D1", "c1", "Any{"}, {"addElement", "D1", "/Sys/A/x"}, {"restoreConfiguration", "D1", "nope"},
             {"setElementBytes", "/Sys/B/z", "0x0"}, {"setParameter", "/Sys/A/x", "9"}};
    if (prop == "P11")
        o = {{"setParameter", "/Sys/A/x", "9"}, {"setParameter", "/Sys/A/c/n/b/lo", "1"}, {"setParameter", "/Sys/A/c/n/u", "255"}, {"setParameter", "/Sys/B/y", "255"}, {"setParameter", "/Sys/B/y", "256"}, {"setConfigurationParameter", "D1", "c2", "/Sys/A/x", "7"},
             {"getParameter", "/Sys/A/x"}};
    if (prop == "P13") o = {{"!hset", "/Sys/A/x", "9"}, {"!hset", "/Sys/B/z", "9"}, {"!hset", "/Sys/B/z", "8"}, {"!hget", "/Sys/B/z"}, {"createDomain", "N"}, {"addElement", "N", "/Sys/B/z"}, {"deleteDomain", "N"}, on, off};
    if (prop == "P14") o = {{"!fail", "A_x"}, {"!heal", "A_x"}, {"setParameter", "/Sys/A/x", "9"}, {"setParameter", "/Sys/A/x", "8"}, a, b, apply, {"sync"}, off, on};
    if (prop == "P15") o = {{"!restart", "A"}, {"!restart", "B"}, apply, a, b, {"!die", "A"}, {"!live", "A"}};
    if (prop == "P20") o = {{"listDomains"}, {"getParameter", "/Sys/A/x"}, {"setParameter", "/Sys/A/x", "9"}, {"setParameter", "/Sys/A/x", "zz"}, {"createDomain", "N"}, {"deleteDomain", "N"}, {"getRule", "D1", "c1"}, {"getRule", "D1", "zz"}};
    if (o.empty()) abort();
    if (prop[1] == '0' && prop != "P01" && prop != "P02" && prop != "P03") w.prefix = tune;
    if (prop == "P11" || prop == "P13" || prop == "P14" || prop == "P20") w.prefix = tune;
    vector<int> blocks{126, 127, 128, 129, 254, 255, 256, 257, 258, 510, 511, 512, 513, 1023, 1024, 1025};
    if (c.thorough) blocks.insert(blocks.end(), {65534, 65535, 65536, 65537});
    long k = long(o.size());
    c.bounds.push_back(w.name + ": two of " + std::to_string(k) + " operations in turn, " + std::to_string(blocks.front()) + " to " + std::to_string(blocks.back()) + " times, then a third, all triples");
    c.items_(w.name, k * k, [&, w, o, k, blocks](Ctx &x, long it) {
        World v = w;
        const Op &p = o[size_t(it / k)], &q = o[size_t(it % k)];
        for (auto &r : o) {
            Checker::Run run(v, x);
            if (!run.fresh(false)) return false;
            string head = "world " + v.name + ": start";
            for (auto &op : v.prefix) head += "\n" + Checker::opText(op);
            for (int n : blocks) {
                auto go = [&](const Op &op, int i) {
                    auto ro = run.r->exec(op);
                    auto mo = run.m.exec(run.s, op);
                    x.sh->transitions++;
                    string d = cmpOutcome(op, mo, ro);
                    if (d.empty()) return true;
                    x.note(head + "\n(" + std::to_string(i) + " times in turn)\n" + Checker::opText(p) + "\n" + Checker::opText(q) + "\n(then)\n" + Checker::opText(op));
                    return x.violate("after " + Checker::opText(op) + ": " + d);
                };
                for (int i = 0; i < n; i++)
                    if (!go(i % 2 ? q : p, i)) return false;
                if (!go(r, n)) return false;
                head += "\n" + std::to_string(n) + " times in turn " + Checker::opText(p) + " and " + Checker::opText(q) + "\n" + Checker::opText(r);
                x.note(head);
                string d = diffText(run.m.observe(run.s), run.r->observe());
                if (!d.empty()) return x.violate("after that: " + d);
                x.sh->states++;
            }
            x.sh->validated++;
        }
        return true;
    }, 1);
}
