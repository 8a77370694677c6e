#include "ref.hpp"
#include <algorithm>
#include <stdarg.h>

void failf(const char* fmt, ...)
{
    char b[4096];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    fail(b);
}
void Case::log(const char* fmt, ...)
{
    if (!want_desc || desc.size() > 6000) return;
    char b[1024];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    desc += b; desc += "; ";
}

std::string hex(const Bytes& b, size_t max)
{
    std::string r; char t[16];
    for (size_t i = 0; i < b.size() && i < max; i++) {
        if (b[i] >= 33 && b[i] < 127 && b[i] != '\\') r += (char)b[i];
        else { snprintf(t, sizeof t, "\\x%02x", b[i]); r += t; }
    }
    if (b.size() > max) { snprintf(t, sizeof t, "..[%zu]", b.size()); r += t; }
    return r;
}
std::string show(const MF& f)
{
    char t[128];
    snprintf(t, sizeof t, "%s/%s fl=%02x%02x enc=%d sz=%u ", hex(Bytes(f.id.begin(), f.id.end())).c_str(), kind_name(f.k), f.flags[0], f.flags[1], f.enc, f.psize());
    std::string r = t;
    if (f.k == COMM) r += "lang=" + hex(Bytes(f.lang, f.lang + 3)) + " ";
    if (f.k == APIC) { snprintf(t, sizeof t, "pt=%d ", f.ptype); r += t; r += "mime=" + hex(f.mime) + " "; }
    if (f.k == COMM || f.k == APIC) r += "desc=" + hex(f.desc) + " ";
    return r + "body=" + hex(f.body);
}
static std::string dbytes(const char* what, const Bytes& a, const Bytes& b)
{
    char t[160];
    if (a == b) return "";
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    snprintf(t, sizeof t, "%s differs: expected %zu bytes, got %zu, first difference at %zu (", what, a.size(), b.size(), i);
    Bytes ta(a.begin() + (long)i, a.end()), tb(b.begin() + (long)i, b.end());
    return t + hex(ta, 12) + " vs " + hex(tb, 12) + ")";
}
std::string diff(const MF& a, const MF& b)
{
    if (a.id != b.id) return "id: expected " + hex(Bytes(a.id.begin(), a.id.end())) + ", got " + hex(Bytes(b.id.begin(), b.id.end()));
    if (a.k != b.k) return "kind differs";
    if (memcmp(a.flags, b.flags, 2)) { char t[80]; snprintf(t, sizeof t, "flags: expected %02x%02x, got %02x%02x", a.flags[0], a.flags[1], b.flags[0], b.flags[1]); return t; }
    if (a.k != RAW && a.enc != b.enc) { char t[80]; snprintf(t, sizeof t, "encoding: expected %d, got %d", a.enc, b.enc); return t; }
    std::string d;
    if (a.k == COMM && memcmp(a.lang, b.lang, 3)) return "language differs";
    if (a.k == APIC && a.ptype != b.ptype) return "picture type differs";
    if (a.k == APIC && (d = dbytes("mime type", a.mime, b.mime)) != "") return d;
    if ((a.k == COMM || a.k == APIC) && (d = dbytes("description", a.desc, b.desc)) != "") return d;
    return dbytes(a.k == TEXT ? "text" : a.k == COMM ? "comment" : a.k == APIC ? "picture" : "payload", a.body, b.body);
}
std::string diff(const std::vector<MF>& a, const std::vector<MF>& b)
{
    char t[64];
    for (size_t i = 0; i < a.size() && i < b.size(); i++) {
        std::string d = diff(a[i], b[i]);
        if (d != "") { snprintf(t, sizeof t, "frame #%zu ", i); return t + ("(" + show(a[i]) + "): " + d); }
    }
    if (a.size() != b.size()) {
        snprintf(t, sizeof t, "expected %zu frames, got %zu", a.size(), b.size());
        std::string r = t;
        if (a.size() > b.size()) r += "; missing: " + show(a[b.size()]); else r += "; extra: " + show(b[a.size()]);
        return r;
    }
    return "";
}

Bytes RefTag::encode()
{
    Bytes r = {'I', 'D', '3', (uint8_t)ver, minor, flags};
    uint32_t n = whole_unsync() ? 0 : body_size();
    putsync(r, n);
    r.insert(r.end(), ext.begin(), ext.end());
    starts.clear();
    r.reserve(r.size() + n + 10);
    for (auto& f : frames) {
        starts.push_back(r.size());
        r.insert(r.end(), f.id.begin(), f.id.end());
        if (ver == 4) putsync(r, f.psize()); else put32(r, f.psize());
        r.insert(r.end(), f.flags, f.flags + 2);
        Bytes p = f.payload();
        r.insert(r.end(), p.begin(), p.end());
    }
    frames_end = r.size();
    r.insert(r.end(), padding, 0);
    if (whole_unsync()) {
        Bytes u(r.begin(), r.begin() + 6), b;
        for (size_t i = 10; i < r.size(); i++) { b.push_back(r[i]); if (r[i] == 0xFF && (i + 1 == r.size() || r[i + 1] == 0 || r[i + 1] >= 0xE0)) b.push_back(0); }
        putsync(u, (uint32_t)b.size());
        u.insert(u.end(), b.begin(), b.end());
        r = u;
    }
    if (footer) { Bytes f = {'3', 'D', 'I', (uint8_t)ver, minor, flags}; putsync(f, n); r.insert(r.end(), f.begin(), f.end()); }
    return r;
}

Decoded decode(const Bytes& b)
{
    Decoded d{}; char t[160];
#define ERR(...) do { snprintf(t, sizeof t, __VA_ARGS__); d.error = t; return d; } while (0)
    if (b.size() < 10) ERR("file has only %zu bytes, no room for a tag header", b.size());
    if (memcmp(b.data(), "ID3", 3)) ERR("identifier is not ID3");
    d.ver = b[3]; d.minor = b[4]; d.flags = b[5];
    if (d.ver != 3 && d.ver != 4) ERR("version %d", d.ver);
    for (int i = 6; i < 10; i++) if (b[(size_t)i] & 0x80) ERR("tag size byte %d (0x%02x) is not sync-safe", i, b[(size_t)i]);
    d.size = (uint32_t)b[6] << 21 | (uint32_t)b[7] << 14 | (uint32_t)b[8] << 7 | b[9];
    if (d.flags & 0x40) ERR("flags 0x%02x announce an extended header", d.flags);
    if (d.ver == 4 && (d.flags & 0x10)) ERR("flags 0x%02x announce a footer", d.flags);
    if ((size_t)d.size + 10 > b.size()) ERR("tag size %u exceeds the file (%zu bytes)", d.size, b.size());
    size_t p = 10, end = 10 + (size_t)d.size;
    while (p < end) {
        if (b[p] == 0) break;
        if (end - p < 10) ERR("%zu stray bytes at the end of the frames", end - p);
        RawFrame f; f.id = std::string((const char*)&b[p], 4);
        for (char c : f.id) if (!((c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'))) ERR("invalid frame id %s at offset %zu", hex(Bytes(f.id.begin(), f.id.end())).c_str(), p);
        const uint8_t* s = &b[p + 4];
        uint32_t n;
        if (d.ver == 4) {
            for (int i = 0; i < 4; i++) if (s[i] & 0x80) ERR("size of frame %s is not sync-safe", f.id.c_str());
            n = (uint32_t)s[0] << 21 | (uint32_t)s[1] << 14 | (uint32_t)s[2] << 7 | s[3];
        } else n = (uint32_t)s[0] << 24 | (uint32_t)s[1] << 16 | (uint32_t)s[2] << 8 | s[3];
        f.flags[0] = b[p + 8]; f.flags[1] = b[p + 9];
        if (n < 1) ERR("frame %s is empty", f.id.c_str());
        if (n > end - p - 10) ERR("frame %s claims %u bytes, %zu left in the tag", f.id.c_str(), n, end - p - 10);
        f.payload.assign(b.begin() + (long)p + 10, b.begin() + (long)(p + 10 + n));
        d.frames.push_back(f);
        p += 10 + n;
    }
    d.padding = (uint32_t)(end - p);
    for (size_t i = p; i < end; i++) if (b[i]) ERR("padding byte at offset %zu is 0x%02x", i, b[i]);
    return d;
#undef ERR
}

// ---- generators -------------------------------------------------------
static void splice_dict(Gen& g, Bytes& r)
{
    if (!g_dict.strs.empty() && g.chance(1, 16)) {
        const std::string& s = g_dict.strs[g.below((uint32_t)g_dict.strs.size())];
        if (g.chance(1, 2)) r.assign(s.begin(), s.end()); else r.insert(r.end(), s.begin(), s.end());
    }
}
// What the fields usually hold
static const char* const USUAL[] = {
    "(17)", "17", "(17)Rock", "(RX)", "((x", "(4)(5)", "0", "00", "007", "3", "03", "3/12", "003/012", "/12", "3/", "1/0", "2024", "2024-05-01", "20240501", "199", "99", "2024-05-01T10:00:00", "0000",
    "-1", "4294967296", "2147483648", "  padded  ", " ", "tab\tbed", "line\nline", "line\r\nline\r\n", "\n", "AC/DC", "a;b", "a/b/c", "a,b", "a & b", "&amp;", "<b>", "\"q\"", "'q'", "\\", "%s%n%d", "$HOME",
    "http://example.com/a?b=c%20d", "Various Artists", "Unknown", "null", "NULL", "none", "N/A", "\xC3\xA9\x74\xC3\xA9", "\xE9t\xE9", "\xEF\xBB\xBFtext", "caf\xE9", "ID3v1 Comment", "iTunNORM", "iTunSMPB", "iTunPGAP",
    "image/jpg", "image/gif", "image/bmp", "IMAGE/PNG", "image/webp", "JPG", "PNG", "cover", "Cover (front)", "eng", "XXX", "ID3", "TAG", "TIT2", "COMM", "APIC",
};
static Bytes gen_usual(Gen& g) { std::string s = USUAL[g.below(sizeof USUAL / sizeof *USUAL)]; Bytes r(s.begin(), s.end()); r.push_back(0); return r; }
Bytes gen_iso(Gen& g, uint32_t maxlen)
{
    if (maxlen >= 20 && g.chance(1, 16)) { Bytes r = gen_usual(g); if (r.size() <= maxlen) return r; }
    uint32_t n = g.size(maxlen);
    Bytes r(n);
    switch (g.below(4)) {
    case 0: for (size_t i = 0; i < n; i++) r[i] = (uint8_t)('a' + i % 26); break;
    case 1: { Rng q(g.below(65536) + 7); for (auto& x : r) x = (uint8_t)(1 + (q.next() >> 13) % 255); break; }
    case 2: { uint8_t b = g.byte(); for (auto& x : r) x = b ? b : 'z'; break; }
    default: for (size_t i = 0; i < n; i++) { uint8_t b = i < 64 ? g.byte() : (uint8_t)('A' + i % 50); r[i] = b ? b : ' '; } break;
    }
    splice_dict(g, r);
    for (auto& x : r) if (!x) x = '0';
    if (r.size() >= 2 && ((r[0] == 0xFF && r[1] == 0xFE) || (r[0] == 0xFE && r[1] == 0xFF))) r[0] = 'y';
    r.push_back(0);
    return r;
}
Bytes gen_utf16(Gen& g, uint32_t maxunits, int bom)
{
    Bytes r;
    if (bom == 0) r = {0xFF, 0xFE}; else if (bom == 1) r = {0xFE, 0xFF};
    Bytes usual; if (maxunits >= 20 && g.chance(1, 16)) usual = gen_usual(g);
    uint32_t n = usual.size() > 1 ? (uint32_t)usual.size() - 1 : g.size(maxunits);
    if (n > maxunits) n = maxunits;
    Rng q(g.below(256) + 3);
    uint32_t mode = usual.size() > 1 ? 4 : g.below(4);
    for (uint32_t i = 0; i < n; i++) {
        uint16_t u;
        if (mode == 4) u = usual[i];
        else if (mode == 0) u = (uint16_t)('a' + i % 26);
        else if (mode == 1) u = (uint16_t)(q.next() >> 17);
        else if (mode == 2) { static const uint16_t S[] = {0x0041, 0x4100, 0x0100, 0x0001, 0xFFFE, 0xFEFF, 0x00FF, 0xFF00, 0xD83D, 0xDE00}; u = S[(q.next() >> 17) % 10]; }
        else { u = i < 32 ? (uint16_t)(g.byte() << 8) : (uint16_t)0; u |= i < 32 ? g.byte() : (uint8_t)(i & 0xFF); }
        if (!u) u = 0x20;
        if (bom == 0) { r.push_back((uint8_t)u); r.push_back((uint8_t)(u >> 8)); }
        else { r.push_back((uint8_t)(u >> 8)); r.push_back((uint8_t)u); }
    }
    r.push_back(0); r.push_back(0);
    return r;
}
Bytes gen_arg(Gen& g, uint32_t maxlen, bool* wide)
{
    uint32_t m = g.below(4);
    *wide = m >= 2;
    if (m < 2) return gen_iso(g, maxlen);
    return gen_utf16(g, maxlen / 2, m == 3 ? 1 : 0);
}
Bytes gen_encoded(Gen& g, int enc, uint32_t maxlen)
{
    if (enc == 1) return gen_utf16(g, maxlen / 2, g.chance(1, 3) ? 1 : 0);
    if (enc == 2) return gen_utf16(g, maxlen / 2, 2);
    Bytes r = gen_iso(g, maxlen);
    if (enc == 3) for (size_t i = 0; i + 1 < r.size(); i++) if (r[i] >= 0xF5) r[i] = 'u';
    return r;
}
static std::string rnd_id(Gen& g, char first)
{
    static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    std::string s(1, first);
    for (int i = 0; i < 3; i++) s += A[g.below(36)];
    return s;
}
static bool dict_id(Gen& g, std::string& out, bool text)
{
    std::vector<const std::string*> v;
    for (auto& s : g_dict.strs) {
        if (s.size() != 4) continue;
        bool ok = true; for (char c : s) ok = ok && ((c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'));
        if (ok && (s[0] == 'T') == text && s != "COMM" && s != "APIC") v.push_back(&s);
    }
    if (v.empty()) return false;
    out = *v[g.below((uint32_t)v.size())];
    return true;
}
std::string gen_text_id(Gen& g)
{
    static const char* K[] = {"TIT2", "TPE1", "TALB", "TPE2", "TCON", "TRCK", "TYER", "TPOS", "TCOM", "TCOP", "TXXX", "TDRC", "TIT1", "TIT3", "TALC", "TPE3", "TCOL", "TYES", "T000", "TZZZ"};
    uint32_t m = g.below(24);
    std::string s;
    if (m < 20) return K[m];
    if (m == 20 && dict_id(g, s, true)) return s;
    return rnd_id(g, 'T');
}
std::string gen_raw_id(Gen& g)
{
    static const char* K[] = {"PRIV", "UFID", "WXXX", "USLT", "CHAP", "CTOC", "COMR", "AENC", "ASPI", "GEOB", "PCNT", "POPM", "MCDI", "COMN", "APID", "XOMM", "BPIC", "WOAR", "CRM0", "AAAA"};
    uint32_t m = g.below(24);
    std::string s;
    if (m < 20) return K[m];
    if (m == 20 && dict_id(g, s, false)) return s;
    s = rnd_id(g, "ABCDEFGHIJKLMNOPQRSUVWXYZ0123456789"[g.below(35)]);
    if (s == "COMM" || s == "APIC") s = "PRIV";
    return s;
}
std::string gen_any_id(Gen& g)
{
    switch (g.below(5)) { case 0: case 1: return gen_text_id(g); case 2: return gen_raw_id(g); case 3: return "COMM"; default: return "APIC"; }
}
void gen_flags(Gen& g, MF& f, int ver)
{
    if (!g.chance(1, 3)) return;
    f.flags[0] = g.byte();
    // bits of the second byte that announce compression, encryption, grouping, ... are only
    // used where the payload is opaque anyway
    if (f.k == RAW) f.flags[1] = g.byte();
    else f.flags[1] = (uint8_t)(g.byte() & (ver == 3 ? 0x1F : 0xB0));
}
bool g_big = false, g_fuzzing = false;
std::string gen_lang(Gen& g, bool any)
{
    static const char* L[] = {"eng", "deu", "spa", "XXX", "fra", "zho"};
    uint32_t i = g.below(9);
    if (i < 6) return L[i];
    std::string s;
    for (int k = 0; k < 3; k++) {
        uint8_t b = g.byte();
        s += i == 8 && any ? (char)(b % 4 ? b : 0) : i == 8 ? (char)(b ? b : ' ') : "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[b % 52];
    }
    return s;
}
MF gen_frame(Gen& g, int ver, uint32_t maxlen)
{
    MF f;
    int encs = ver == 4 ? 4 : 2;
    switch (g.below(8)) {
    case 0: case 1: case 2: case 3: {
        f.k = TEXT; f.id = gen_text_id(g); f.enc = (uint8_t)g.below((uint32_t)encs);
        uint32_t tw = f.enc == 1 || f.enc == 2 ? 2 : 1;
        uint32_t m = g.below(8);
        f.body = gen_encoded(g, f.enc, maxlen);
        if (m >= 5 && m < 7) { // several strings
            uint32_t n = 1 + g.below(3);
            for (uint32_t i = 0; i < n; i++) { Bytes b = gen_encoded(g, f.enc, maxlen / 4); f.body.insert(f.body.end(), b.begin(), b.end()); }
        }
        if (m == 4 || m == 6) f.body.resize(f.body.size() - tw); // not terminated
        if (m == 7) f.body.clear();
        break; }
    case 4: case 5: {
        f.k = COMM; f.id = "COMM"; f.enc = (uint8_t)g.below((uint32_t)encs);
        memcpy(f.lang, gen_lang(g, true).data(), 3);
        f.desc = gen_encoded(g, f.enc, maxlen / 4);
        uint32_t tw = f.enc == 1 || f.enc == 2 ? 2 : 1;
        uint32_t m = g.below(4);
        f.body = gen_encoded(g, f.enc, maxlen);
        if (m >= 2) f.body.resize(f.body.size() - tw);
        if (m == 3) f.body.clear();
        break; }
    case 6: {
        f.k = APIC; f.id = "APIC"; f.enc = (uint8_t)g.below((uint32_t)encs);
        const char* mt = g.pick<const char*>({"image/png", "image/jpeg", "", "-->", "image/"});
        f.mime.assign(mt, mt + strlen(mt) + 1);
        if (g.chance(1, 6)) f.mime = gen_iso(g, maxlen > 200 && g.chance(1, 4) ? 600 : 60);
        f.ptype = g.chance(1, 4) ? g.byte() : (uint8_t)g.below(21);
        f.desc = gen_encoded(g, f.enc, maxlen / 4);
        f.body = g.blob(g.size(maxlen));
        break; }
    default: {
        f.k = RAW; f.id = gen_raw_id(g);
        f.body = g.blob(g.size(maxlen));
        if (f.body.empty()) f.body.push_back(g.byte());
        break; }
    }
    gen_flags(g, f, ver);
    return f;
}
static Bytes cat0(const char* s) { return Bytes((const uint8_t*)s, (const uint8_t*)s + strlen(s) + 1); }
std::vector<MF> gen_crowd(Gen& g, bool settable)
{
    uint32_t n = 0;
    switch (g.below(8)) {
    case 0: case 1: n = 17 + g.below(60); break;
    case 2: n = 62 + g.below(8); break;
    case 3: n = 95 + g.below(40); break;
    case 4: n = 253 + g.below(8); break;
    case 5: case 6: n = 250 + g.below(60); break;
    default: n = g.chance(1, 4) ? 300 + g.below(800) : 300 + g.below(300); break;
    }
    uint32_t what = g.below(settable ? 3 : 6);
    Rng q(g.byte() + 9);
    std::vector<MF> v;
    static const char* R[] = {"PRIV", "UFID", "WXXX", "GEOB"};
    std::string id = R[q.next() % 4];
    for (uint32_t i = 0; i < n; i++) {
        MF f; uint32_t k = what == 2 ? (uint32_t)(q.next() % (settable ? 2 : 4)) : what;
        Bytes body(q.next() % 6, (uint8_t)('a' + i % 26)); body.push_back((uint8_t)('0' + i % 10));
        if (k == 0) { f.k = COMM; f.id = "COMM"; f.desc = {(uint8_t)('a' + i / 26 % 26), 0}; f.body = body; f.body.push_back(0); }
        else if (k == 1) { f.k = APIC; f.id = "APIC"; f.mime = cat0("image/png"); f.ptype = (uint8_t)(i % 21); f.desc = {(uint8_t)('A' + i / 26 % 26), 0}; f.body = body; f.body.push_back((uint8_t)(i >> 2)); }
        else if (k == 4) { f.k = TEXT; f.id = "TXXX"; f.body = body; }
        else if (k == 5 || k == 2) { f.k = RAW; f.id = id; f.body = body; f.body.push_back((uint8_t)(i >> 3)); }
        else { f.k = TEXT; f.id = std::string("T") + (char)('A' + q.next() % 26) + (char)('0' + q.next() % 10) + (char)('A' + i % 26); f.body = body; f.body.resize(q.next() % (body.size() + 1)); }
        v.push_back(f);
    }
    return v;
}
RefTag gen_tag(Gen& g, uint32_t maxframes, uint32_t maxlen)
{
    RefTag t;
    t.ver = 3 + (int)g.below(2);
    t.minor = g.chance(1, 8) ? g.byte() : 0;
    if (t.minor == 0xFF) t.minor = 1;
    if (g.chance(1, 8)) t.flags |= 0x20;
    uint32_t n = g.below(maxframes + 1);
    if (n == maxframes && g.chance(1, 6)) n += g.below(24);
    for (uint32_t i = 0; i < n; i++) {
        if (i > 0 && g.chance(1, 8)) { MF f = t.frames[g.below(i)]; t.frames.push_back(f); } // a duplicate
        else t.frames.push_back(gen_frame(g, t.ver, i < 4 ? maxlen : maxlen < 200 ? maxlen : 200));
    }
    switch (g.below(6)) {
    case 0: t.padding = 0; break;
    case 1: t.padding = g.below(32); break;
    case 2: t.padding = g.pick<uint32_t>({2047, 2048, 2049, 1024, 4096}); break;
    case 3: t.padding = g.size(5000); break;
    case 4: { // make the whole tag end at a boundary
        uint32_t b = g.pick<uint32_t>({128, 256, 512, 1024, 2048, 4096, 8192, 16384}), have = t.body_size() + (g.chance(1, 2) ? 10 : 0);
        t.padding = have <= b ? b - have : 0; break; }
    default: t.padding = g.below(600); break;
    }
    if (g.chance(1, 6)) {
        t.flags |= 0x40;
        if (t.ver == 3) {
            bool crc = g.chance(1, 2);
            t.ext_size = crc ? 10 : 6;
            put32(t.ext, t.ext_size); t.ext.push_back(crc ? 0x80 : 0); t.ext.push_back(0); put32(t.ext, t.padding);
            if (crc) put32(t.ext, g.u32());
        } else {
            bool upd = g.chance(1, 2), crc = g.chance(1, 2), res = g.chance(1, 3);
            Bytes d;
            if (upd) d.push_back(0);
            if (crc) { d.push_back(5); for (int i = 0; i < 5; i++) d.push_back(g.byte() & 0x7F); }
            if (res) { d.push_back(1); d.push_back(g.byte()); }
            uint8_t other = g.chance(1, 6) ? (uint8_t)g.below(16) : 0; // flags nobody knows, each with data of its own
            for (int i = 0; i < 4; i++) if (other >> i & 1) { uint32_t n = g.chance(1, 2) ? 127 : g.below(128); d.push_back((uint8_t)n); d.insert(d.end(), n, (uint8_t)('a' + i)); }
            t.ext_size = (uint32_t)(6 + d.size());
            putsync(t.ext, t.ext_size); t.ext.push_back(1); t.ext.push_back((uint8_t)((upd ? 0x40 : 0) | (crc ? 0x20 : 0) | (res ? 0x10 : 0) | other));
            t.ext.insert(t.ext.end(), d.begin(), d.end());
        }
    }
    if (g_big && g.chance(1, 64) && g.chance(1, 4)) { // rarely, something large
        uint32_t k = g.below(4);
        if (k == 0 || t.frames.empty()) t.padding = g.chance(1, 2) ? g.range(20000, 600000) : g.size(600000);
        else {
            MF& f = t.frames[g.below((uint32_t)t.frames.size())];
            uint32_t more = k == 3 ? g.range(32000, 140000) : g.size(k == 1 ? 3000000 : 200000);
            uint32_t at = f.enc == 1 ? 2 : 0; // after the byte order mark
            Bytes letters(f.enc == 1 || f.enc == 2 ? more & ~1u : more, (uint8_t)('A' + g.below(26)));
            bool desc = f.k != RAW && f.k != TEXT && (k == 3 || g.chance(1, 3));
            if (desc) f.desc.insert(f.desc.begin() + at, letters.begin(), letters.end());
            else if (f.k == RAW || f.k == APIC) { Bytes b = g.blob(more); f.body.insert(f.body.end(), b.begin(), b.end()); }
            else if (f.body.size() >= 2) f.body.insert(f.body.begin() + at, letters.begin(), letters.end());
        }
        if (t.ext.size() >= 10 && t.ver == 3) { Bytes p; put32(p, t.padding); memcpy(&t.ext[6], p.data(), 4); }
    }
    if (t.ver == 4 && g.chance(1, 8)) { t.footer = true; t.flags |= 0x10; t.padding = 0; }
    return t;
}

void maybe_unsync(Gen& g, RefTag& t)
{
    if (!g.chance(1, 10) || t.frames.empty()) return;
    if (t.ver == 4) { // frame by frame; only where that changes nothing, or for payloads nobody looks into
        for (auto& f : t.frames) { if (f.k == RAW) continue; Bytes p = f.payload(); if (std::find(p.begin(), p.end(), 0xFF) != p.end()) return; }
        for (auto& f : t.frames) f.flags[1] |= 0x02;
    }
    t.flags |= 0x80;
}
