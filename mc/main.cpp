#include "explore.h"
#include "drivers.h"
#include <dlfcn.h>

Env *g_env = nullptr;
string g_scratch, g_pluginDir;
extern "C" Env *mcCurrentEnv() { return g_env; }

string jsonStr(const string &s)
{
    string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') r += '\\', r += char(c);
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else r += char(c);
    }
    return r + "\"";
}

int Checker::finish(const string &level, const string &rule)
{
    for (auto &k : knownHits) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.c_str());
    if (onlyItem >= 0) return failed ? 1 : 0;
    string j = "{\n \"property\": " + jsonStr(prop) + ",\n \"tier\": " + jsonStr(tier) +
               ",\n \"seed\": " + (getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1") +
               ",\n \"level\": " + jsonStr(level) + ",\n \"coverage\": {\n";
    auto n = [](uint64_t v) { return std::to_string(v); };
    j += "  \"states\": " + n(states) + ",\n  \"transitions\": " + n(transitions) +
         ",\n  \"traces_validated_against_impl\": " + n(validated) +
         ",\n  \"evaluations\": " + n(validated) + ",\n  \"distinct_nontrivial\": " +
         n(distinct ? distinct : transitions) + ",\n  \"items_done\": " + n(items) +
         ",\n  \"items_planned\": " + n(itemsPlanned) + ",\n  \"complete_within_bounds\": " +
         (cut || failed ? "false" : "true") + ",\n  \"rule\": " + jsonStr(rule) +
         ",\n  \"bounds\": [";
    for (size_t i = 0; i < bounds.size() && i < 60; i++) j += (i ? ", " : "") + jsonStr(bounds[i]);
    j += "],\n  \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) j += (i ? ", " : "") + jsonStr(samples[i]);
    j += "]\n },\n \"wall_s\": " + std::to_string(elapsed()) + "\n}\n";
    mkdir((verif + "/evidence").c_str(), 0755);
    writeFile(verif + "/evidence/" + prop + ".json", j);
    printf("%s %s: %s; states=%lu transitions=%lu validated=%lu items=%lu/%lu%s wall=%.1fs\n",
           prop.c_str(), tier.c_str(), failed ? "VIOLATED" : "held on everything explored", states,
           transitions, validated, items, itemsPlanned, cut ? " (cut by time budget)" : "",
           elapsed());
    return failed ? 1 : 0;
}

int main(int argc, char **argv)
{
    // pfmc PROP quick|thorough VERIFDIR SCRATCH PLUGINDIR [NAME ITEM]
    if (argc < 6) return 2;
    setvbuf(stdout, nullptr, _IOLBF, 0);
    Checker c;
    c.prop = argv[1], c.tier = argv[2], c.verif = argv[3];
    g_scratch = argv[4], g_pluginDir = argv[5];
    Checker::g_scratch0() = g_scratch;
    c.thorough = c.tier == "thorough";
    c.budget = c.thorough ? 760 : 100;
    if (getenv("MC_BUDGET")) c.budget = atof(getenv("MC_BUDGET"));
    if (getenv("MC_WORKERS")) c.workers = atoi(getenv("MC_WORKERS"));
    if (argc > 7) c.onlyName = argv[6], c.onlyItem = atol(argv[7]);
    std::ifstream kf(c.verif + "/known_findings.txt");
    string l;
    while (std::getline(kf, l)) {
        // finding: property=<id> match=<text>|| <description>
        string pre = "finding: property=" + c.prop + " match=";
        if (l.compare(0, pre.size(), pre)) continue;
        auto p = l.find("||");
        if (p == string::npos) continue;
        c.known.push_back({l.substr(pre.size(), p - pre.size()), l.substr(p + 3)});
    }
    auto &D = drivers();
    auto it = D.find(c.prop);
    if (it == D.end()) {
        fprintf(stderr, "no driver for %s\n", c.prop.c_str());
        return 2;
    }
    return it->second(c);
}
