// Thin layer between the checks and the library's public API: exact-size
// argument buffers, observation of tags, the ordered-list model and its operations.
#pragma once
#include "ref.hpp"
#include "id3v2lib.compat.h"
#include <errno.h>

// Calls into the library are made through A(...), so that allocations can be attributed to it.
extern thread_local int g_in_api;
extern int g_pre_errno;          // errno before every call, if set
struct InApi { InApi() { g_in_api++; if (g_pre_errno) errno = g_pre_errno; } ~InApi() { g_in_api--; } };
#define A(...) ([&] { InApi in_api_; return (__VA_ARGS__); }())

// An exact-size heap copy of an argument, clobbered before it is released.
// Some start at an odd address, as the part of a larger buffer would.
extern uint32_t g_heap_shift;
struct Heap {
    char* p; size_t n; uint32_t shift = 0;
    explicit Heap(const Bytes& b) : n(b.size())
    {
        if (n > 2 && (b[n / 2] + n) % 4 == 0) shift = (uint32_t)(b[n / 3] + n / 4) % 8;
        if (g_heap_shift) shift = (shift + g_heap_shift) % 8;
        p = (char*)malloc(n + shift ? n + shift : 1) + shift; memset(p - shift, 0x5A, shift);
        if (n) memcpy(p, b.data(), n); orig = b;
    }
    Heap(const Heap&) = delete;
    ~Heap() { memset(p, 0xDB, n); free(p - shift); }
    bool intact() const { return n == 0 || memcmp(p, orig.data(), n) == 0; }
    Bytes orig;
};
inline Bytes cstr(const std::string& s) { Bytes b(s.begin(), s.end()); b.push_back(0); return b; }

// ---- files (always inside the scratch directory) ----------------------
std::string fpath(const char* name);
void put_file(const std::string& p, const Bytes& b);
bool get_file(const std::string& p, Bytes& b);
// While it lives, file permission bits apply to this process even if it runs as root
struct Unprivileged { Unprivileged(); ~Unprivileged(); unsigned saved = 0; bool changed = false; };
inline Bytes get_file(const std::string& p) { Bytes b; if (!get_file(p, b)) fail("file disappeared: " + p.substr(p.rfind('/') + 1)); return b; }

// ---- observation -------------------------------------------------------
MF snap_frame(ID3v2_Frame* f);
std::vector<MF> snap(ID3v2_Tag* t);
std::vector<MF> snap_list(ID3v2_FrameList* l);
void expect(const std::vector<MF>& want, ID3v2_Tag* t, const char* when);
size_t str_size(const uint8_t* p, bool wide);   // with terminator
bool has_bom(const Bytes& b);

struct Named {
    const char* name; const char* id;
    ID3v2_TextFrame* (*get)(ID3v2_Tag*);
    void (*set)(ID3v2_Tag*, const char*);
    void (*del)(ID3v2_Tag*);
    ID3v2_frame* (*cget)(ID3v2_tag*);
    void (*cset)(char*, char, ID3v2_tag*);
};
extern const Named NAMED[];
const uint32_t N_NAMED = 9;

// ---- model -------------------------------------------------------------
struct World {
    ID3v2_Tag* tag = nullptr;
    std::vector<MF> m;
    int ver = 3;
    uint8_t minor = 0, flags = 0;   // as a written tag shows them
    uint32_t padding = 0;           // as reported in memory
    uint32_t tag_size = 0;          // as reported in memory
};
int m_find(const std::vector<MF>& m, const std::string& id, int nth = 0);
uint32_t m_count(const std::vector<MF>& m, const std::string& id);
void m_set(World& w, const MF& f);
void m_add(World& w, const MF& f);
void m_del(World& w, int at);

struct OpCfg { uint32_t maxlen = 300; bool mixed = false; bool focus = false; bool dels = true; bool burst = false; };
void do_op(Gen& g, World& w, Case& c, const OpCfg& o);
void check_lookups(Gen& g, World& w);

// A new tag, of either version, without frames
void world_fresh(Gen& g, World& w, Case& c);
// A tag parsed from the encoding of t
void world_loaded(World& w, RefTag& t);
void world_free(World& w);
// The bytes a write of w must put in front of the audio
Bytes written_bytes(const World& w);
uint8_t written_flags(const World& w);
void world_after_write(World& w);

// compatibility layer: one edit (of model and tag), and the comparison of everything it shows
void compat_edit(Gen& g, World& w, ID3v2_tag* ct, Case& c, uint32_t maxlen, const std::string& prefix);
void compat_verify(World& w, ID3v2_tag* ct);

uint32_t gen_maxlen(Gen& g);
Bytes gen_audio(Gen& g, uint32_t max);
Bytes cat(const Bytes& a, const Bytes& b);
