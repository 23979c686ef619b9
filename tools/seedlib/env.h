// Hardware environment shared between the checker executable and the MC
// subsystem plugin: records every hardware access and decides its outcome.
#pragma once
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>

struct HwEvent
{
    char kind;         // 'S' sent, 'R' read, 'F' refused send, 'f' refused read
    std::string obj;   // "<mapping value>"
    std::string bytes; // payload (as sent / as read)
    bool operator==(const HwEvent &o) const
    {
        return kind == o.kind && obj == o.obj && bytes == o.bytes;
    }
    bool operator<(const HwEvent &o) const
    {
        if (kind != o.kind) return kind < o.kind;
        if (obj != o.obj) return obj < o.obj;
        return bytes < o.bytes;
    }
};

struct Env
{
    std::vector<HwEvent> log;
    std::map<std::string, std::string> shadow; // content of each hardware object
    std::set<std::string> failWrite, failRead; // refusing objects
    std::set<std::string> dead;                // subsystems reported not alive
    std::set<std::string> restart;             // subsystems reporting a restart
    std::map<std::string, std::string> mappings; // obj -> formatted mapping as received
    std::vector<std::string> created;          // objects created, in order
    int aliveQueries{0};
    void (*hook)(Env *, const char *){nullptr};  // scheduling point (P21)
};

extern "C" Env *mcCurrentEnv();
