#pragma once
#include "explore.h"
typedef std::function<int(Checker &)> Driver;
std::map<string, Driver> &drivers();
void p14writes(Checker &c);
void big(Checker &c, const string &prop); // large systems
void lasting(Checker &c, const string &prop); // long histories
struct Reg
{
    Reg(const char *p, Driver d) { drivers()[p] = d; }
};
