// Choice-sequence engine: a case is a byte string of choices. Random
// generation, libFuzzer, shrinking and replay all work on that byte string.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <set>
#include <initializer_list>

typedef std::vector<uint8_t> Bytes;

struct Violation { std::string msg; };

[[noreturn]] inline void fail(const std::string& m) { throw Violation{m}; }
[[noreturn]] void failf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(c, ...) do { if (!(c)) failf(__VA_ARGS__); } while (0)

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
};

// Values harvested from the sources under test (see check.py): interesting sizes and strings.
struct Dict { std::vector<uint32_t> ints; std::vector<std::string> strs; };
extern Dict g_dict;

struct Gen {
    Bytes buf;
    size_t pos = 0;
    bool rnd = false;
    Rng rng{0};
    static const size_t MAXLEN = 1 << 16;
    uint8_t* mirror = nullptr;        // shared copy of the choices made so far, survives a crash
    uint32_t* mirror_len = nullptr;
    uint8_t byte()
    {
        if (pos < buf.size()) return buf[pos++];
        if (rnd && buf.size() < MAXLEN) {
            uint8_t b = (uint8_t)(rng.next() >> 24);
            if (mirror) { mirror[buf.size()] = b; *mirror_len = (uint32_t)buf.size() + 1; }
            buf.push_back(b); pos++; return b;
        }
        pos++;
        return 0;
    }
    uint32_t u32() { uint32_t v = 0; for (int i = 0; i < 4; i++) v = v << 8 | byte(); return v; }
    // 0 is always the simplest choice
    uint32_t below(uint32_t n)
    {
        if (n <= 1) return 0;
        if (n <= 256) return byte() % n;
        if (n <= 65536) { uint32_t v = byte(); v = v << 8 | byte(); return v % n; }
        return u32() % n;
    }
    uint32_t range(uint32_t lo, uint32_t hi) { return lo + below(hi - lo + 1); }
    bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
    template <class T> T pick(std::initializer_list<T> l) { return l.begin()[below((uint32_t)l.size())]; }

    // A size in [0, max]: small, around encoding/buffer boundaries, from the source, or log-uniform
    uint32_t size(uint32_t max)
    {
        uint32_t v = 0;
        switch (below(10)) {
        case 0: case 1: case 2: v = below(9); break;
        case 3: case 4: v = below(40); break;
        case 5: v = below(300); break;
        case 6: {
            static const uint32_t B[] = {64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 16383, 16384, 32767, 32768, 65535, 65536, 131072, 262144, 524288, 1048576, 2097151, 2097152, 4194304, 8388608, 16777216};
            uint32_t n = 0; while (n < sizeof B / sizeof *B && B[n] <= max) n++;
            v = n ? B[below(n)] : max;
            v = v + below(7) - 3;
            break; }
        case 7: {
            uint32_t n = (uint32_t)g_dict.ints.size();
            v = n ? g_dict.ints[below(n)] + below(3) - 1 : below(64);
            break; }
        case 8: { uint32_t bits = 0; while (bits < 31 && (2u << bits) <= max) bits++; v = below(2u << below(bits + 1)); break; }
        default: v = below(120); break;
        }
        if (v > 0x7fffffff) v = 0;
        return v > max ? v % (max + 1) : v;
    }
    Bytes blob(uint32_t len);
};

inline Bytes Gen::blob(uint32_t len)
{
    Bytes r(len);
    switch (below(5)) {
    case 0: { uint8_t b = (uint8_t)('a' + below(3)); for (auto& x : r) x = b; break; }
    case 1: { Rng q(below(65536) + 1); for (auto& x : r) x = (uint8_t)(q.next() >> 11); break; }
    case 2: { static const uint8_t S[] = {0xFF, 0x00, 0xFF, 0xFE, 'I', 'D', '3', 0xE0, 0xFB, 0x1A, '\n', '\r', 0x03, 0x04, 0x7F, 0x80};
              Rng q(below(65536) + 1); for (auto& x : r) x = S[(q.next() >> 9) & 15]; break; }
    case 3: { uint8_t s = byte(); for (size_t i = 0; i < len; i++) r[i] = (uint8_t)(s + i * 7 + (i >> 8)); break; }
    default: { uint32_t k = len < 24 ? len : 24; Rng q(byte() + 1); for (size_t i = 0; i < len; i++) r[i] = i < k ? byte() : (uint8_t)(q.next() >> 11); break; }
    }
    return r;
}

// Per-case observations
struct Case {
    bool want_desc = false;
    bool nontrivial = false;
    std::string desc;
    std::set<std::string> labels;
    void label(const char* s) { labels.insert(s); }
    void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
};

struct Prop {
    const char* id;
    void (*run)(Gen&, Case&);
    uint32_t quick, thorough;   // random cases per tier
    uint32_t fuzz_quick;        // coverage-guided executions per job, quick tier
    int cpu_limit;              // seconds of CPU per case that mean "does not terminate"
    const char* rule;
};
extern const Prop PROPS[];
extern const int N_PROPS;
std::string scratch_dir();      // a directory private to this process
