// Seed systems shared by the E1 drivers
#pragma once
#include "worlds.h"
World baseWorld(const string &name, bool aware3 = true);
World sharedWorld(const string &name);
std::shared_ptr<Structure> deepStructure();
World deepWorld(const string &name, bool aware);
typedef vector<Op> Ops;
inline Ops operator+(Ops a, const Ops &b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
inline Checker::OpGen allOps(const Ops &ops)
{
    return [ops](const State &, const Model &, int) { return ops; };
}
inline Ops critOps(vector<int> c1, vector<int> c2)
{
    Ops r;
    for (int k : c1) r.push_back({"!crit", "C1", std::to_string(k)});
    for (int k : c2) r.push_back({"!crit", "C2", std::to_string(k)});
    return r;
}
// every tuple of the pools, and every shorter prefix
inline void product(Ops &out, const string &cmd, const vector<vector<string>> &pools)
{
    vector<Op> cur{{cmd}};
    for (auto &p : pools) {
        out.insert(out.end(), cur.begin(), cur.end());
        vector<Op> nxt;
        for (auto &o : cur)
            for (auto &v : p) {
                Op x = o;
                x.push_back(v);
                nxt.push_back(x);
            }
        cur = nxt;
    }
    out.insert(out.end(), cur.begin(), cur.end());
}
