// libFuzzer entry: the fuzzer mutates the same choice sequences the random search draws.
#include "engine.hpp"
#include <unistd.h>
#include <sys/stat.h>
#include <unordered_set>

Dict g_dict;
extern bool g_fuzzing;
static const Prop* g_prop;
static std::string g_dir;
static uint64_t runs = 0; static std::unordered_set<uint64_t> seen;
std::string scratch_dir() { return g_dir; }

static void stats()
{
    const char* p = getenv("VERIF_FUZZ_STAT"); if (!p) return;
    FILE* f = fopen((std::string(p) + "." + std::to_string(getpid())).c_str(), "w"); if (!f) return;
    fprintf(f, "%llu %zu\n", (unsigned long long)runs, seen.size()); fclose(f);
    f = fopen((std::string(p) + "." + std::to_string(getpid()) + ".hash").c_str(), "wb"); if (!f) return;
    for (uint64_t h : seen) fwrite(&h, 8, 1, f);
    fclose(f);
}
extern "C" int LLVMFuzzerInitialize(int*, char***)
{
    const char* id = getenv("VERIF_PROP");
    for (int i = 0; i < N_PROPS; i++) if (id && !strcmp(PROPS[i].id, id)) g_prop = &PROPS[i];
    if (!g_prop || !getenv("VERIF_SCRATCH")) _exit(3);
    g_dir = std::string(getenv("VERIF_SCRATCH")) + "/f" + std::to_string(getpid()); mkdir(g_dir.c_str(), 0755);
    FILE* f = getenv("VERIF_DICT") ? fopen(getenv("VERIF_DICT"), "r") : nullptr;
    if (f) {
        char line[4096];
        while (fgets(line, sizeof line, f)) {
            if (line[0] == 'i') g_dict.ints.push_back((uint32_t)strtoul(line + 2, nullptr, 10));
            if (line[0] == 's') { std::string s; for (char* p = line + 2; p[0] > ' ' && p[1] > ' '; p += 2) { char h[3] = {p[0], p[1], 0}; s += (char)strtoul(h, nullptr, 16); } g_dict.strs.push_back(s); }
        }
        fclose(f);
    }
    g_fuzzing = true;
    atexit(stats);
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n)
{
    Gen g; g.buf.assign(d, d + n);
    Case c;
    try { g_prop->run(g, c); }
    catch (Violation& v) { fprintf(stderr, "VIOLATED %s: %s\n", g_prop->id, v.msg.c_str()); abort(); }
    runs++;
    if (c.nontrivial && seen.size() < 2000000) { uint64_t h = 1469598103934665603ull; size_t m = g.pos < n ? g.pos : n; for (size_t i = 0; i < m; i++) { h ^= d[i]; h *= 1099511628211ull; } seen.insert(h); }
    return 0;
}
