// Independent reference: model of frames, ID3v2.3/2.4 encoder and decoder,
// generators of well-formed contents. Shares no code with the library.
#pragma once
#include "engine.hpp"

enum Kind { TEXT, COMM, APIC, RAW };
inline const char* kind_name(Kind k) { static const char* N[] = {"TEXT", "COMM", "APIC", "RAW"}; return N[k]; }

struct MF {
    Kind k = RAW;
    std::string id = "XXXX";
    uint8_t flags[2] = {0, 0};
    uint8_t enc = 0;
    uint8_t lang[3] = {'e', 'n', 'g'};
    Bytes mime;       // with terminator
    uint8_t ptype = 0;
    Bytes desc;       // with terminator
    Bytes body;       // text / comment / picture / raw payload, exactly the bytes in the frame
    Bytes payload() const
    {
        Bytes r;
        if (k == RAW) return body;
        r.push_back(enc);
        if (k == COMM) { r.insert(r.end(), lang, lang + 3); r.insert(r.end(), desc.begin(), desc.end()); }
        if (k == APIC) { r.insert(r.end(), mime.begin(), mime.end()); r.push_back(ptype); r.insert(r.end(), desc.begin(), desc.end()); }
        r.insert(r.end(), body.begin(), body.end());
        return r;
    }
    uint32_t psize() const
    {
        size_t n = body.size();
        if (k != RAW) n += 1;
        if (k == COMM) n += 3 + desc.size();
        if (k == APIC) n += mime.size() + 1 + desc.size();
        return (uint32_t)n;
    }
};

inline Kind kind_of(const std::string& id)
{
    if (id[0] == 'T') return TEXT;
    if (id == "COMM") return COMM;
    if (id == "APIC") return APIC;
    return RAW;
}

std::string hex(const Bytes& b, size_t max = 24);
std::string show(const MF& f);
// empty string if equal
std::string diff(const MF& a, const MF& b);
std::string diff(const std::vector<MF>& a, const std::vector<MF>& b);

struct RefTag {
    int ver = 3;
    uint8_t minor = 0, flags = 0;
    Bytes ext;                 // complete extended header, empty if none
    uint32_t ext_size = 0;     // value of its size field
    std::vector<MF> frames;
    uint32_t padding = 0;
    bool footer = false;
    std::vector<size_t> starts; // offset of each frame header, filled by encode()
    size_t frames_end = 0;      // offset of the padding
    // a version 2.3 tag is unsynchronised as a whole; its size is the one after that
    bool whole_unsync() const { return ver == 3 && (flags & 0x80); }
    uint32_t body_size() const { if (whole_unsync()) return (uint32_t)RefTag(*this).encode().size() - 10; size_t n = ext.size() + padding; for (auto& f : frames) n += 10 + f.psize(); return (uint32_t)n; }
    Bytes encode();
};

struct RawFrame { std::string id; uint8_t flags[2]; Bytes payload; };
struct Decoded { int ver, minor; uint8_t flags; uint32_t size; std::vector<RawFrame> frames; uint32_t padding; std::string error; };
// Strict decoder of a tag without extended header/footer at the start of b
Decoded decode(const Bytes& b);

inline void put32(Bytes& b, uint32_t v) { for (int s = 24; s >= 0; s -= 8) b.push_back((uint8_t)(v >> s)); }
inline void putsync(Bytes& b, uint32_t v) { for (int s = 21; s >= 0; s -= 7) b.push_back((uint8_t)((v >> s) & 0x7F)); }

// ---- generators -------------------------------------------------------
Bytes gen_iso(Gen& g, uint32_t maxlen);              // terminated, no BOM look-alike
Bytes gen_utf16(Gen& g, uint32_t maxunits, int bom); // bom: 0 LE, 1 BE, 2 none (BE units); terminated
Bytes gen_arg(Gen& g, uint32_t maxlen, bool* wide);  // ISO or BOM-prefixed string argument
Bytes gen_encoded(Gen& g, int enc, uint32_t maxlen); // terminated string in a frame encoding
std::string gen_text_id(Gen& g);
std::string gen_raw_id(Gen& g);
std::string gen_any_id(Gen& g);
std::string gen_valid_id(Gen& g);
MF gen_frame(Gen& g, int ver, uint32_t maxlen);
void gen_flags(Gen& g, MF& f, int ver);
RefTag gen_tag(Gen& g, uint32_t maxframes, uint32_t maxlen);
void maybe_unsync(Gen& g, RefTag& t); // sometimes make it an unsynchronised tag
std::vector<MF> gen_crowd(Gen& g, bool settable); // tens to hundreds of small frames, often of one id
extern bool g_big;              // generated tags and audio may rarely be large
extern bool g_fuzzing;          // under libFuzzer: no slow cases
std::string gen_lang(Gen& g, bool any);
