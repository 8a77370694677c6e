// One generated-input check per property. Every random choice comes from Gen.
#include "api.hpp"
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <filesystem>
#include <signal.h>
#include <algorithm>

// Length of the tag a reader recognises at the start of b (0: none), cut at the end of b
static size_t ref_tag_len(const Bytes& b)
{
    if (b.size() < 10 || memcmp(b.data(), "ID3", 3) || (b[3] != 3 && b[3] != 4)) return 0;
    size_t n = 10 + ((size_t)b[6] << 21 | (size_t)b[7] << 14 | (size_t)b[8] << 7 | b[9]);
    if (b[3] == 4 && (b[5] & 0x10)) n += 10;
    return n < b.size() ? n : b.size();
}
static std::string bdiff(const Bytes& want, const Bytes& got)
{
    if (want == got) return "";
    size_t i = 0; while (i < want.size() && i < got.size() && want[i] == got[i]) i++;
    char t[160]; snprintf(t, sizeof t, "expected %zu bytes, got %zu, first difference at offset %zu", want.size(), got.size(), i);
    return t;
}
static void expect_file(const std::string& p, const Bytes& want, const char* what)
{
    Bytes got; if (!get_file(p, got)) failf("%s: the file is gone", what);
    std::string d = bdiff(want, got);
    if (d != "") failf("%s: %s", what, d.c_str());
}
static void label_frames(Case& c, const std::vector<MF>& v)
{
    static const char* E[] = {"enc_iso", "enc_utf16", "enc_utf16be", "enc_utf8"};
    for (auto& f : v) { c.label(kind_name(f.k)); if (f.k != RAW && f.enc < 4) c.label(E[f.enc]); if (f.flags[0] | f.flags[1]) c.label("frame_flags"); if (f.psize() > 65535) c.label("payload>64K"); }
    if (v.size() > 20) c.label("frames>20");
    if (v.size() > 256) c.label("frames>256");
}
static void label_tag(Case& c, const RefTag& t)
{
    c.label(t.ver == 4 ? "v2.4" : "v2.3");
    if (!t.ext.empty()) c.label("ext_header");
    if (t.footer) c.label("footer");
    if (t.flags & 0x80) c.label("unsynchronised");
    if (t.padding == 0) c.label("no_padding"); else if (t.padding < 10) c.label("padding<10");
    label_frames(c, t.frames);
}
static void log_tag(Case& c, const RefTag& t)
{
    c.log("v2.%d.%d flags=%02x ext=%zu padding=%u footer=%d", t.ver, t.minor, t.flags, t.ext.size(), t.padding, t.footer);
    size_t n = 0;
    for (auto& f : t.frames) if (++n <= 1500) c.log("%s", show(f).c_str());
}
static RefTag any_tag(Gen& g)
{
    if (g.chance(1, 48)) { // crowded
        RefTag t = gen_tag(g, 3, 24); std::vector<MF> v = gen_crowd(g, false);
        t.frames.insert(t.frames.begin() + (long)g.below((uint32_t)t.frames.size() + 1), v.begin(), v.end());
        if (g.chance(1, 4)) { std::vector<MF> u = gen_crowd(g, false); t.frames.insert(t.frames.end(), u.begin(), u.end()); }
        return t; }
    uint32_t ml = gen_maxlen(g);
    RefTag t = gen_tag(g, g.pick<uint32_t>({3, 6, 6, 12}), ml);
    maybe_unsync(g, t);
    return t;
}
static void check_header(ID3v2_TagHeader* h, int ver, int minor, uint8_t flags, uint32_t size, const char* what)
{
    CHECK(h, "%s: no header", what);
    CHECK(!memcmp(h->identifier, "ID3", 3), "%s: identifier is not ID3", what);
    CHECK((uint8_t)h->major_version == ver, "%s: major version %d, expected %d", what, (uint8_t)h->major_version, ver);
    CHECK((uint8_t)h->minor_version == minor, "%s: minor version %d, expected %d", what, (uint8_t)h->minor_version, minor);
    CHECK((uint8_t)h->flags == flags, "%s: flags %02x, expected %02x", what, (uint8_t)h->flags, flags);
    CHECK(h->tag_size == size, "%s: tag size %u, expected %u", what, h->tag_size, size);
}
static void log_ops(Case& c, uint32_t n) { c.label(n == 0 ? "ops=0" : n < 4 ? "ops<4" : n < 12 ? "ops<12" : "ops>=12"); }
static uint32_t gen_nops(Gen& g) { return g.chance(1, 12) ? g.range(12, 40) : g.below(9); }

// ---- arbitrary bytes -----------------------------------------------------
static void set_size_field(Gen& g, Bytes& b, size_t at, size_t remaining, bool sync)
{
    uint32_t v = 0;
    switch (g.below(9)) {
    case 0: v = 0; break; case 1: v = 1; break; case 2: v = (uint32_t)remaining; break; case 3: v = (uint32_t)remaining + 1; break; case 4: v = (uint32_t)remaining - 1; break;
    case 5: v = g.pick<uint32_t>({0x7fffffff, 0xffffffff, 0x80000000, 0x0fffffff, 0x10000000, 0xfffffff5, 0x7ffffff5}); break;
    case 6: v = g.below(16); break; case 7: v = g.u32(); break; default: v = (uint32_t)remaining + g.below(24) - 12; break;
    }
    if (at + 4 > b.size()) return;
    Bytes s; if (sync && g.chance(3, 4)) putsync(s, v & 0x0fffffff); else put32(s, v);
    memcpy(&b[at], s.data(), 4);
}
static Bytes gen_wild(Gen& g, Case& c, bool huge = false)
{
    Bytes b;
    uint32_t m = g.below(12);
    if (m == 0) { b = g.blob(g.size(400)); c.label("random_bytes"); return b; }
    if (m == 1) { // header and random bytes
        Bytes r = g.blob(g.size(600));
        b = {'I', 'D', '3', (uint8_t)(3 + g.below(2)), 0, (uint8_t)(g.chance(1, 2) ? g.byte() : 0)};
        putsync(b, g.chance(1, 2) ? (uint32_t)r.size() : g.u32() & 0x0fffffff);
        b.insert(b.end(), r.begin(), r.end()); c.label("header+random"); return b;
    }
    RefTag t = gen_tag(g, 5, g.pick<uint32_t>({16, 16, 60, 300, 2000}));
    if (huge && g.chance(1, 20) && g.chance(1, 200) && !t.frames.empty()) { t.frames[g.below((uint32_t)t.frames.size())].body.assign(9000000 + g.below(1000), (uint8_t)(1 + g.below(255))); c.label("huge_frame"); }
    if (g.chance(1, 2) && t.padding > 64) t.padding %= 64;
    b = t.encode();
    size_t header_end = 10 + t.ext.size();
    if (m == 2) { c.label("valid"); if (g.chance(1, 2)) { Bytes a = gen_audio(g, 200); b.insert(b.end(), a.begin(), a.end()); } return b; }
    uint32_t n = 1 + g.below(4);
    for (uint32_t k = 0; k < n && !b.empty(); k++) {
        switch (g.below(10)) {
        case 0: b.resize(g.below((uint32_t)b.size() + 1)); c.label("truncated"); break;
        case 1: if (b.size() >= 10) { size_t rest = b.size() - 10; Bytes s; putsync(s, g.pick<uint32_t>({0, 1, (uint32_t)rest, (uint32_t)rest + 1, (uint32_t)rest - 1, 0x0fffffff, (uint32_t)rest + g.below(40), rest > 20 ? (uint32_t)rest - g.below(20) : 9, 1u << 20}) & 0x0fffffff); memcpy(&b[6], s.data(), 4); c.label("tag_size_changed"); } break;
        case 2: case 3: case 4: if (!t.starts.empty()) { size_t i = g.below((uint32_t)t.starts.size()), s = t.starts[i]; if (s + 10 <= b.size()) { set_size_field(g, b, s + 4, t.frames_end - s - 10 + (g.chance(1, 2) ? t.padding : 0), t.ver == 4); c.label("frame_size_changed"); } } break;
        case 5: { size_t at = g.below((uint32_t)b.size()); b[at] = g.pick<uint8_t>({0, 0xFF, 0xFE, 0x7F, 0x80, 1, 2, 3, 'T'}); c.label("byte_changed"); break; }
        case 6: if (b.size() >= 6) { if (g.chance(1, 2)) b[5] = g.byte(); else b[3] = g.pick<uint8_t>({3, 4, 2, 5, 0}); c.label("flags_changed"); } break;
        case 7: if (!t.starts.empty()) { size_t i = g.below((uint32_t)t.starts.size()), s = t.starts[i]; if (s + 4 <= b.size()) { static const char* I[] = {"COMM", "APIC", "TIT2", "PRIV"}; if (g.chance(3, 4)) memcpy(&b[s], I[g.below(4)], 4); else b[s + g.below(4)] = g.byte(); c.label("frame_id_changed"); } } break;
        case 8: { // drop or double a range, so that strings lose their terminators
            size_t at = g.below((uint32_t)b.size()), len = 1 + g.below(12); if (at + len > b.size()) len = b.size() - at;
            if (g.chance(1, 2)) b.erase(b.begin() + (long)at, b.begin() + (long)(at + len)); else { Bytes d(b.begin() + (long)at, b.begin() + (long)(at + len)); b.insert(b.begin() + (long)at, d.begin(), d.end()); }
            c.label("range_changed"); break; }
        default: if (!t.starts.empty()) { // contents of a frame: fill or overwrite its first bytes (encodings, BOMs, terminators)
            size_t i = g.below((uint32_t)t.starts.size()), s = t.starts[i] + 10; uint32_t len = 1 + g.below(20); bool same = g.chance(1, 2); uint8_t v = g.pick<uint8_t>({0xFF, 0, 1, 2, 'a', 0xFE});
            for (size_t k2 = s; k2 < s + len && k2 < b.size(); k2++) b[k2] = same ? v : g.pick<uint8_t>({0, 1, 2, 3, 0xFF, 0xFE, 'a', 0xFF});
            c.label("contents_changed"); } break;
        }
    }
    if (g.chance(1, 4) && b.size() > header_end) { // keep the size field in step with what is left
        Bytes s; putsync(s, (uint32_t)(b.size() - 10)); memcpy(&b[6], s.data(), 4);
    }
    return b;
}

static size_t tag_payloads(ID3v2_Tag* t) { size_t n = 0; for (ID3v2_FrameList* l = t->frames; l && l->frame; l = l->next) n += (size_t)l->frame->header->size; return n; }
// Everything a string user may touch must be terminated
static void check_strings(ID3v2_Tag* t)
{
    for (ID3v2_FrameList* l = t->frames; l && l->frame; l = l->next) {
        Kind k = kind_of(std::string(l->frame->header->id, 4));
        if (k == TEXT) { const char* s = ((ID3v2_TextFrame*)l->frame)->data->text; A(ID3v2_strlent(s)); str_size((const uint8_t*)s, false); }
        if (k == COMM) { ID3v2_CommentFrameData* d = ((ID3v2_CommentFrame*)l->frame)->data; A(ID3v2_strlent(d->comment)); A(ID3v2_strlent(d->short_description)); }
        if (k == APIC) { ID3v2_ApicFrameData* d = ((ID3v2_ApicFrame*)l->frame)->data; A(ID3v2_strlent(d->mime_type)); A(ID3v2_strlent(d->description)); }
    }
}
static void compat_touch(ID3v2_tag* ct);

static void c01(Gen& g, Case& c)
{
    Bytes b = gen_wild(g, c, true);
    if (g.chance(1, 250) && g.chance(1, 100)) { // tens of thousands of tiny frames
        c.label("many_frames");
        uint32_t n = g.range(24000, 30000); RefTag t; t.ver = 3 + (int)g.below(2);
        MF f; f.id = g.pick<const char*>({"PRIV", "TIT2"}); f.k = kind_of(f.id); f.body = {'m'};
        t.frames.assign(n, f); b = t.encode();
        if (g.chance(1, 2)) b.resize(b.size() - g.below(30));
    }
    c.log("%zu bytes: %s", b.size(), hex(b, 160).c_str());
    std::string p = fpath("c01"), q = fpath("c01w");
    ID3v2_Tag* t;
    std::vector<MF> frames; uint32_t pad = 0;
    {
        Heap h(b);
        if (b.size() >= 10) { ID3v2_TagHeader* hd = A(ID3v2_read_tag_header_from_buffer(h.p)); if (hd) A(ID3v2_TagHeader_free(hd)); }
        t = A(ID3v2_read_tag_from_buffer(h.p, (int)h.n));
        if (t) {
            CHECK(t->header && t->frames, "tag without header or frame list");
            frames = snap(t); pad = (uint32_t)t->padding_size;
            size_t n = tag_payloads(t);
            CHECK(n <= b.size(), "frame payloads of %zu bytes from an input of %zu bytes", n, b.size());
            CHECK(t->padding_size >= 0 && pad <= b.size(), "padding of %d bytes from an input of %zu bytes", t->padding_size, b.size());
            check_strings(t);
        }
    } // the input buffer is gone
    uint32_t mode = g.below(4);
    if (t) {
        c.nontrivial = true; c.label("returned_tag"); if (!frames.empty()) c.label("returned_frames");
        World w; w.tag = t; w.m = frames;
        if (mode != 3) {
            std::string d = diff(frames, snap(t));
            if (d != "") fail("the tag changed when its input buffer was released: " + d);
            Bytes audio = {'a', 'u', 'd', 'i', 'o', 0xFF, 0xFB};
            put_file(q, audio);
            A(ID3v2_write_tag(q.c_str(), t));
            ID3v2_Tag* t2 = A(ID3v2_read_tag(q.c_str()));
            CHECK(t2, "no tag found in a file the tag was written to");
            std::string d2 = diff(frames, snap(t2));
            if (d2 != "") fail("written back and re-read: " + d2);
            A(ID3v2_Tag_free(t2));
        } else c.label("freed_unwritten");
        A(ID3v2_Tag_free(t));
    } else c.label("returned_nothing");
    if (mode != 1) {
        put_file(p, b);
        ID3v2_TagHeader* hd = A(ID3v2_read_tag_header(p.c_str()));
        if (hd) A(ID3v2_TagHeader_free(hd));
        ID3v2_Tag* f = A(ID3v2_read_tag(p.c_str()));
        if (f) { std::vector<MF> v = snap(f); CHECK(tag_payloads(f) <= b.size(), "frame payloads exceed the file"); check_strings(f); A(ID3v2_Tag_free(f)); }
    }
    if (mode >= 1) { // the compatibility layer reads the same input
        Heap h(b);
        ID3v2_tag* ct = A(load_tag_with_buffer(h.p, (int)h.n));
        if (ct) { compat_touch(ct); A(free_tag(ct)); }
    }
    if (mode == 2 && b.size() >= 10 && !memcmp(b.data(), "ID3", 3)) { // a damaged tag in front of the audio
        A(ID3v2_delete_tag(p.c_str()));
        Bytes left; CHECK(get_file(p, left) && left.size() <= b.size(), "deleting the tag made the file grow");
    }
}

static void c02(Gen& g, Case& c)
{
    g_big = true;
    RefTag t = any_tag(g);
    if (g.chance(1, 40) && g.chance(1, 40) && !g_fuzzing) { // very many frames
        c.label("thousands_of_frames"); uint32_t n = 4090 + g.below(14000);
        for (uint32_t i = 0; i < n; i++) { MF f; uint32_t x = i * 7; f.k = RAW; f.id = std::string() + (char)('U' + i % 5) + (char)('A' + x % 26) + (char)('A' + x / 26 % 26) + (char)('A' + x / 676 % 26); f.body = {(uint8_t)i, (uint8_t)(i >> 8)}; t.frames.push_back(f); }
        t.flags &= 0x7F;
    }
    log_tag(c, t); label_tag(c, t);
    c.nontrivial = !t.frames.empty();
    Bytes enc = t.encode(), audio = g.chance(1, 2) ? gen_audio(g, 600) : Bytes();
    Bytes b = cat(enc, audio);
    bool file = g.chance(1, 3);
    std::string p = fpath("c02");
    World w; w.m = t.frames;
    if (file) { put_file(p, b); w.tag = A(ID3v2_read_tag(p.c_str())); c.label("from_file"); }
    else { Heap h(b); w.tag = A(ID3v2_read_tag_from_buffer(h.p, (int)h.n)); }
    CHECK(w.tag, "a well-formed tag is not recognised");
    expect(t.frames, w.tag, "reading");
    check_header(w.tag->header, t.ver, t.minor, t.flags, t.body_size(), "reading");
    CHECK(w.tag->header->extended_header_size == t.ext_size, "extended header size %u, expected %u", w.tag->header->extended_header_size, t.ext_size);
    CHECK(w.tag->padding_size == (int)t.padding, "padding size %d, expected %u", w.tag->padding_size, t.padding);
    check_lookups(g, w);
    world_free(w);
}

// ---- histories ------------------------------------------------------------
static void start_world(Gen& g, World& w, Case& c)
{
    if (g.below(2) == 0) { world_fresh(g, w, c); return; }
    RefTag t = any_tag(g);
    c.log("loaded from:"); log_tag(c, t); label_tag(c, t); c.label("loaded");
    world_loaded(w, t);
}
static void check_size(World& w, const char* when)
{
    CHECK(w.tag->header->tag_size == w.tag_size, "%s: the tag reports size %u, its frames and padding changes give %u", when, w.tag->header->tag_size, w.tag_size);
}

static void c03(Gen& g, Case& c)
{
    g_big = true;
    World w; start_world(g, w, c);
    std::string p = fpath("c03");
    put_file(p, gen_audio(g, 400));
    uint32_t rounds = 1 + g.below(3);
    OpCfg o; o.maxlen = gen_maxlen(g);
    for (uint32_t r = 0; r < rounds; r++) {
        uint32_t n = gen_nops(g); log_ops(c, n);
        for (uint32_t i = 0; i < n; i++) do_op(g, w, c, o);
        if (n && !w.m.empty()) c.nontrivial = true;
        expect(w.m, w.tag, "before writing");
        c.log("write");
        A(ID3v2_write_tag(p.c_str(), w.tag));
        ID3v2_Tag* t = A(ID3v2_read_tag(p.c_str()));
        CHECK(t, "the written tag is not found");
        expect(w.m, t, "read back");
        CHECK((uint8_t)t->header->major_version == w.ver, "version %d read back, %d written", t->header->major_version, w.ver);
        if (r + 1 < rounds && g.chance(1, 2)) { c.log("continue with the tag read back"); c.label("continue_reread"); A(ID3v2_Tag_free(w.tag)); w.tag = t; }
        else A(ID3v2_Tag_free(t));
    }
    if (rounds > 1) c.label("several_writes");
    world_free(w);
}

// Audio too large for memory to hold several copies of it: generated and compared piece by piece
static void c04_long(Gen& g, Case& c)
{
    static const char* deep = getenv("VERIF_DEEP");
    uint64_t n = g.pick<uint32_t>({33600000, 33600000, 67200000, deep && *deep ? 268500000u : 67200000}) + g.below(5000), k = g.u32() | 1;
    std::string p = fpath("c04");
    { int s = 120; struct itimerval v = {{0, 0}, {s, 0}}, w = {{0, 0}, {3 * s, 0}}; setitimer(ITIMER_PROF, &v, nullptr); setitimer(ITIMER_REAL, &w, nullptr); }
    c.label("audio>32M"); c.nontrivial = true;
    Bytes tag; if (g.below(3)) { RefTag t = gen_tag(g, 3, 60); tag = t.encode(); c.label("had_tag"); }
    c.log("tag of %zu bytes, then %llu bytes of audio", tag.size(), (unsigned long long)n);
    Bytes piece(1 << 20), got(1 << 20);
    for (size_t i = 0; i < piece.size(); i++) piece[i] = (uint8_t)(i * k >> 11);
    auto fill = [&](uint64_t at, size_t m) { for (size_t i = 0; i < 8 && i < m; i++) piece[i] = (uint8_t)(at >> (8 * i)); if (at == 0) { piece[0] = 0xFF; piece[1] = 0xFB; } };
    {
        FILE* f = fopen(p.c_str(), "wb"); if (!f) { perror("c04"); _exit(3); }
        fwrite(tag.data(), 1, tag.size(), f);
        for (uint64_t at = 0; at < n; at += piece.size()) { size_t m = (size_t)std::min<uint64_t>(piece.size(), n - at); fill(at, m); if (fwrite(piece.data(), 1, m, f) != m) { perror("c04"); _exit(3); } }
        if (fclose(f)) { perror("c04"); _exit(3); }
    }
    auto check = [&](const char* when) {
        Bytes head(10); FILE* f = fopen(p.c_str(), "rb"); CHECK(f, "%s: the file is gone", when);
        size_t h = fread(head.data(), 1, 10, f); head.resize(h); size_t len = 0;
        if (h == 10 && !memcmp(head.data(), "ID3", 3)) len = 10 + ((size_t)head[6] << 21 | (size_t)head[7] << 14 | (size_t)head[8] << 7 | head[9]);
        fseek(f, 0, SEEK_END); uint64_t size = (uint64_t)ftell(f); fseek(f, (long)len, SEEK_SET);
        if (size != len + n) fclose(f);
        CHECK(size == len + n, "%s: the file has %llu bytes behind the tag, expected %llu", when, (unsigned long long)(size - len), (unsigned long long)n);
        for (uint64_t at = 0; at < n; at += piece.size()) {
            size_t m = (size_t)std::min<uint64_t>(piece.size(), n - at); fill(at, m);
            if (fread(got.data(), 1, m, f) != m || memcmp(got.data(), piece.data(), m)) { fclose(f); fail(std::string(when) + ": the audio differs after " + std::to_string(at) + " bytes"); }
        }
        fclose(f);
        return len;
    };
    World w; world_fresh(g, w, c);
    OpCfg o; o.maxlen = 60; uint32_t ops = g.below(4); for (uint32_t i = 0; i < ops; i++) do_op(g, w, c, o);
    bool del = g.chance(1, 3);
    if (!del) { A(ID3v2_write_tag(p.c_str(), w.tag)); size_t len = check("writing"); CHECK(len >= 10, "no tag at the start of the written file"); c.label("write"); }
    if (del || g.below(2)) { A(ID3v2_delete_tag(p.c_str())); size_t len = check("deleting"); CHECK(len == 0, "a tag at the start of the file after deleting it"); c.label("delete"); }
    world_free(w);
}
static void c04(Gen& g, Case& c)
{
    g_big = true;
    if (!g_fuzzing && g.chance(1, 128) && g.chance(1, 100)) { c04_long(g, c); return; }
    std::string p = fpath("c04");
    Bytes file, audio = gen_audio(g, g.chance(1, 5) ? 200000 : 9000);
    if (g.chance(1, 24) && g.chance(1, 40)) { // a whole song
        uint32_t n = g.chance(1, 12) ? g.range(15000000, 18000000) : g.pick<uint32_t>({1 << 20, 1 << 21, 1 << 22, 1000000, 3000000}) + g.below(5000), k = g.u32() | 1;
        audio.resize(n); for (uint32_t i = 0; i < n; i++) audio[i] = (uint8_t)(i * k >> 11);
        c.label("audio>1M");
    }
    uint32_t m = g.below(6);
    if (m >= 2) {
        RefTag t = gen_tag(g, 3, g.pick<uint32_t>({40, 300, 5000}));
        maybe_unsync(g, t);
        if (m == 5 && g.chance(1, 60)) { t.padding += 1000000 + g.below(2000000); c.label("old_tag>1M"); }
        if (t.ver == 3 && g.chance(1, 6)) { t.flags |= g.pick<uint8_t>({0x10, 0x11, 0x1F, 0x08}); c.label("undefined_flags"); } // (no footer in version 2.3)
        file = t.encode(); c.log("original:"); log_tag(c, t); label_tag(c, t); c.label("had_tag");
        if (m == 5 && g.chance(1, 4)) { // make the audio start at a boundary
            uint32_t b = g.pick<uint32_t>({4096, 8192, 16384, 65536}); if (file.size() < b && !t.footer) { t.padding += (uint32_t)(b - file.size()); file = t.encode(); }
        }
        if (g.chance(1, 16)) { // not a tag, hence audio
            if (g.chance(1, 2)) file[3] = g.pick<uint8_t>({2, 5, 0, 1, 0xFF}); else file[g.below(3)] ^= (uint8_t)(1 + g.below(255));
            c.label("foreign_header");
        }
    } else c.label("had_no_tag");
    if (m == 3 && g.chance(1, 4)) { uint32_t b = g.pick<uint32_t>({4096, 8192, 65536, 131072}); if (audio.size() + file.size() < b) { size_t want = b - file.size() + g.below(3) - 1; while (audio.size() < want) audio.push_back((uint8_t)(audio.size() * 31)); c.label("size_boundary"); } }
    file = cat(file, audio);
    if (g.chance(1, 24)) { file.resize(g.below((uint32_t)file.size() + 1)); c.label("cut_file"); }
    size_t tl = ref_tag_len(file);
    Bytes rest(file.begin() + (long)tl, file.end());
    c.log("file of %zu bytes, tag %zu, then %s", file.size(), tl, hex(rest).c_str());
    if (rest.size() > 4096) c.label("audio>4096");
    if (std::find(rest.begin(), rest.end(), 0xFF) != rest.end()) c.label("audio_has_FF");
    if (rest.empty()) c.label("no_audio"); else c.nontrivial = true;
    put_file(p, file);
    uint32_t steps = 1 + g.below(3);
    Bytes cur = file;
    World w; bool have = false;
    OpCfg o; o.maxlen = gen_maxlen(g);
    for (uint32_t s = 0; s < steps; s++) {
        if (g.below(3) < 2) {
            if (!have || g.chance(1, 2)) {
                if (have) world_free(w);
                ID3v2_Tag* own = g.chance(1, 2) ? A(ID3v2_read_tag(p.c_str())) : nullptr;
                if (own) { w = World(); w.tag = own; c.label("own_tag"); } else world_fresh(g, w, c);
                have = true;
                uint32_t n = g.below(4);
                for (uint32_t i = 0; i < n; i++) do_op(g, w, c, o);
            }
            c.log("write"); c.label("write");
            A(ID3v2_write_tag(p.c_str(), w.tag));
            Bytes now = get_file(p);
            size_t len = ref_tag_len(now);
            CHECK(len >= 10, "no tag at the start of the written file");
            Bytes tail(now.begin() + (long)len, now.end());
            std::string d = bdiff(rest, tail);
            CHECK(d == "", "audio after writing: %s", d.c_str());
            cur = now;
        } else {
            c.log("delete"); c.label("delete");
            size_t len = ref_tag_len(cur);
            A(ID3v2_delete_tag(p.c_str()));
            Bytes now = get_file(p);
            Bytes want(cur.begin() + (long)len, cur.end());
            std::string d = bdiff(want, now);
            CHECK(d == "", "after deleting %s: %s", len ? "the tag" : "from a file without tag", d.c_str());
            cur = now;
            // what is left may itself start with something that looks like a tag
            rest.assign(cur.begin() + (long)ref_tag_len(cur), cur.end());
        }
    }
    if (have) world_free(w);
}

static void check_decoded(const World& w, const Bytes& file, const char* when)
{
    Decoded d = decode(file);
    CHECK(d.error == "", "%s: an independent reader rejects the file: %s", when, d.error.c_str());
    CHECK(d.ver == w.ver && d.minor == w.minor, "%s: version 2.%d.%d, expected 2.%d.%d", when, d.ver, d.minor, w.ver, w.minor);
    CHECK(d.frames.size() == w.m.size(), "%s: an independent reader sees %zu frames, expected %zu", when, d.frames.size(), w.m.size());
    for (size_t i = 0; i < w.m.size(); i++) {
        const MF& f = w.m[i]; const RawFrame& r = d.frames[i];
        CHECK(r.id == f.id, "%s: frame #%zu is %s, expected %s", when, i, r.id.c_str(), f.id.c_str());
        CHECK(!memcmp(r.flags, f.flags, 2), "%s: flags of frame #%zu (%s) are %02x%02x, expected %02x%02x", when, i, f.id.c_str(), r.flags[0], r.flags[1], f.flags[0], f.flags[1]);
        std::string e = bdiff(f.payload(), r.payload);
        CHECK(e == "", "%s: payload of frame #%zu (%s): %s", when, i, show(f).c_str(), e.c_str());
    }
}

static void c05(Gen& g, Case& c)
{
    g_big = true;
    World w; start_world(g, w, c);
    std::string p = fpath("c05");
    Bytes audio = gen_audio(g, 300);
    if (ref_tag_len(audio)) audio.insert(audio.begin(), 0xFF);
    put_file(p, audio);
    uint32_t n = gen_nops(g); log_ops(c, n);
    OpCfg o; o.maxlen = gen_maxlen(g);
    if (g.chance(1, 40)) { // bring the tag near a boundary of the size encodings
        uint32_t have = 2048; for (auto& f : w.m) have += 10 + f.psize();
        uint32_t b = g.pick<uint32_t>({16384, 65536, 131072, 2097152}) + g.below(5) - 2;
        if (w.padding <= 2048 && have + 32 < b) { Bytes data(b - have - 10 - 1 - 10 - 1 - 1, 'p'); Heap hp(data); ID3v2_ApicFrameInput in = {"\0\0", "image/png", "", 3, (int)hp.n, hp.p};
            A(ID3v2_Tag_add_apic_frame(w.tag, &in)); MF f; f.k = APIC; f.id = "APIC"; f.mime = cstr("image/png"); f.desc = {0}; f.ptype = 3; f.body = data; m_add(w, f); n = 0; c.label("tag_size_boundary"); }
    }
    for (uint32_t i = 0; i < n; i++) do_op(g, w, c, o);
    c.nontrivial = !w.m.empty();
    c.label(w.m.empty() ? "no_frames" : "frames");
    for (int r = 0; r < 2; r++) {
        uint32_t want_pad = w.padding < 2048 ? 2048 : w.padding;
        A(ID3v2_write_tag(p.c_str(), w.tag));
        world_after_write(w);
        uint8_t anyflags = w.flags;
        Bytes file = get_file(p);
        check_decoded(w, file, "after writing");
        Decoded d = decode(file);
        CHECK(d.padding == want_pad, "padding of %u bytes was written, expected %u", d.padding, want_pad);
        CHECK(d.flags == anyflags, "flags %02x were written, expected %02x", d.flags, anyflags);
        CHECK(w.tag->header->tag_size == d.size, "the tag in memory reports size %u, %u was written", w.tag->header->tag_size, d.size);
        CHECK(w.tag->padding_size == (int)d.padding, "the tag in memory reports %d bytes of padding, %u were written", w.tag->padding_size, d.padding);
        ID3v2_TagHeader* hd = A(ID3v2_read_tag_header(p.c_str())); CHECK(hd, "the written header is not recognised");
        ID3v2_TagHeader hv = *hd; A(ID3v2_TagHeader_free(hd));
        CHECK(hv.major_version == w.tag->header->major_version && hv.minor_version == w.tag->header->minor_version && hv.flags == w.tag->header->flags && hv.tag_size == w.tag->header->tag_size, "the header in memory differs from the header written");
        std::string e = bdiff(audio, Bytes(file.begin() + 10 + (long)d.size, file.end()));
        CHECK(e == "", "the tag does not end where its size says: %s", e.c_str());
        if (g.below(2) == 0) break;
        uint32_t k = g.below(4); for (uint32_t i = 0; i < k; i++) do_op(g, w, c, o);
        c.label("second_write");
    }
    world_free(w);
}

static void c06(Gen& g, Case& c)
{
    World w; start_world(g, w, c);
    uint32_t n = g.chance(1, 10) ? g.chance(1, 80) ? g.range(200, 700) : g.range(12, 60) : g.below(12); log_ops(c, n); if (n >= 200) c.label("ops>=200");
    OpCfg o; o.maxlen = gen_maxlen(g); o.mixed = true; o.focus = g.chance(1, 4); o.burst = true;
    check_size(w, "at the start");
    expect(w.m, w.tag, "at the start");
    for (uint32_t i = 0; i < n; i++) {
        size_t before = w.m.size();
        do_op(g, w, c, o);
        if (w.m.size() < before) c.nontrivial = true;
        if (before && w.m.size() == before) c.nontrivial = true;
        expect(w.m, w.tag, "after the last call");
        check_size(w, "after the last call");
        CHECK(w.tag->padding_size == (int)w.padding, "an edit changed the padding from %u to %d", w.padding, w.tag->padding_size);
        CHECK((uint8_t)w.tag->header->major_version == w.ver, "an edit changed the version");
        if (i + 1 == n || g.chance(1, 4)) { check_lookups(g, w); expect(w.m, w.tag, "after lookups"); }
    }
    world_free(w);
}

static void c07(Gen& g, Case& c)
{
    g_big = true;
    RefTag t = any_tag(g);
    if (g.chance(1, 8)) for (auto& f : t.frames) if (f.k != RAW && f.enc == 0 && g.chance(1, 3)) { f.enc = g.chance(1, 2) ? 4 : (uint8_t)(4 + g.below(252)); c.label("unknown_encoding"); }
    log_tag(c, t); label_tag(c, t);
    std::string p = fpath("c07");
    Bytes audio = gen_audio(g, 300);
    put_file(p, cat(t.encode(), audio));
    World w; w.tag = A(ID3v2_read_tag(p.c_str()));
    CHECK(w.tag, "a well-formed tag is not recognised");
    w.m = t.frames; w.ver = t.ver; w.minor = t.minor;
    uint32_t n = g.chance(1, 4) ? 0 : 1 + g.below(5); log_ops(c, n);
    OpCfg o; o.maxlen = 300;
    for (uint32_t i = 0; i < n; i++) do_op(g, w, c, o);
    size_t same = 0; for (auto& f : t.frames) for (auto& k : w.m) if (diff(f, k) == "") { same++; break; }
    c.nontrivial = same > 0;
    if (same == t.frames.size()) c.label("all_untouched");
    for (uint32_t r = 1 + g.below(2); r > 0; r--) {
        A(ID3v2_write_tag(p.c_str(), w.tag));
        check_decoded(w, get_file(p), "after read-modify-write");
        if (r > 1) { A(ID3v2_Tag_free(w.tag)); w.tag = A(ID3v2_read_tag(p.c_str())); CHECK(w.tag, "the written tag is not found"); c.label("twice"); }
    }
    world_free(w);
}

// ---- ownership and release -----------------------------------------------
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_HOOKS 1
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif
#endif
static const uint32_t TAB = 1 << 17;
static const volatile void* tab[TAB];   // open addressing, no allocation
static long live = 0; static bool track = false;
#ifdef HAVE_HOOKS
static uint32_t slot(const volatile void* p) { uint64_t x = (uint64_t)p * 0x9E3779B97F4A7C15ull; return (uint32_t)(x >> 40) & (TAB - 1); }
static void on_malloc(const volatile void* p, size_t)
{
    if (!track || !g_in_api || !p || live > TAB / 2) return;
    uint32_t i = slot(p); while (tab[i] && tab[i] != p) i = (i + 1) & (TAB - 1);
    if (!tab[i]) { tab[i] = p; live++; }
}
static void on_free(const volatile void* p)
{
    if (!track || !p || !live) return;
    uint32_t i = slot(p); while (tab[i] && tab[i] != p) i = (i + 1) & (TAB - 1);
    if (!tab[i]) return;
    tab[i] = nullptr; live--;
    for (uint32_t j = (i + 1) & (TAB - 1); tab[j]; j = (j + 1) & (TAB - 1)) { // re-insert the rest of the cluster
        const volatile void* q = tab[j]; tab[j] = nullptr; uint32_t k = slot(q); while (tab[k]) k = (k + 1) & (TAB - 1); tab[k] = q;
    }
}
#endif
static int open_fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }

static void compat_ops(Gen& g, World& w, ID3v2_tag* ct, Case& c, uint32_t maxlen);

static void c08_body(Gen& g, Case& c)
{
    std::vector<World> tags;
    std::string p = fpath("c08"), q = fpath("c08b");
    put_file(p, gen_audio(g, 200));
    uint32_t n = 2 + g.below(14);
    OpCfg o; o.maxlen = g.pick<uint32_t>({20, 40, 300}); o.focus = g.chance(1, 3); o.burst = true;
    for (uint32_t i = 0; i < n; i++) {
        uint32_t op = g.below(16);
        World* w = tags.empty() ? nullptr : &tags[g.below((uint32_t)tags.size())];
        if (!w && op < 8) op = 8 + op % 3;
        switch (op) {
        case 0: case 1: case 2: case 3: case 4: { uint32_t k = 1 + g.below(4); for (uint32_t j = 0; j < k; j++) do_op(g, *w, c, o); c.nontrivial = true; break; }
        case 5: { // lookups; the lists outlive edits of the tag, only the lists are released
            c.log("lookups"); c.label("lookups");
            Heap h(cstr(gen_any_id(g)));
            ID3v2_FrameList* a = A(ID3v2_Tag_get_frames(w->tag, h.p)); ID3v2_FrameList* b = A(ID3v2_Tag_get_comment_frames(w->tag)); ID3v2_FrameList* d = A(ID3v2_Tag_get_apic_frames(w->tag));
            A(ID3v2_Tag_get_frame(w->tag, h.p)); A(ID3v2_Tag_get_title_frame(w->tag));
            if (g.chance(1, 3)) do_op(g, *w, c, o);
            A(ID3v2_FrameList_unlink(a)); A(ID3v2_FrameList_unlink(b)); A(ID3v2_FrameList_unlink(d));
            expect(w->m, w->tag, "after unlinking lists");
            break; }
        case 6: { std::string f = g.pick<const char*>({"c08", "c08", "c08", "missing", "."}); c.log("write(%s)", f.c_str()); c.label(f == "c08" ? "write" : "write_fails"); A(ID3v2_write_tag(fpath(f.c_str()).c_str(), w->tag)); break; }
        case 7: { size_t at = g.below((uint32_t)tags.size()); c.log("free"); world_free(tags[at]); tags.erase(tags.begin() + (long)at); break; }
        case 8: { World x; world_fresh(g, x, c); tags.push_back(x); break; }
        case 9: { RefTag t = g.chance(1, 4) ? any_tag(g) : gen_tag(g, 5, o.maxlen); log_tag(c, t); label_tag(c, t); World x; world_loaded(x, t); tags.push_back(x); c.label("loaded"); break; }
        case 10: { Bytes b = gen_wild(g, c); c.log("wild %s", hex(b, 80).c_str());
            put_file(q, b); ID3v2_Tag* t = g.chance(1, 2) ? A(ID3v2_read_tag(q.c_str())) : [&] { Heap h(b); return A(ID3v2_read_tag_from_buffer(h.p, (int)h.n)); }();
            if (t) { World x; x.tag = t; x.m = snap(t); tags.push_back(x); c.label("wild_tag"); } else c.label("wild_nothing");
            break; }
        case 11: { Bytes b = g.chance(1, 2) ? gen_wild(g, c) : gen_tag(g, 1, 10).encode(); b.resize(10); Heap h(b); ID3v2_TagHeader* hd = A(ID3v2_read_tag_header_from_buffer(h.p)); if (hd) A(ID3v2_TagHeader_free(hd));
            put_file(q, b); hd = A(ID3v2_read_tag_header(g.chance(1, 4) ? fpath("missing").c_str() : q.c_str())); if (hd) A(ID3v2_TagHeader_free(hd)); c.label("headers"); break; }
        case 12: { std::string f = g.pick<const char*>({"c08", "c08", "missing", "."}); c.log("delete_tag(%s)", f.c_str()); c.label("delete_file_tag"); A(ID3v2_delete_tag(fpath(f.c_str()).c_str())); break; }
        case 13: { Heap h(gen_iso(g, 40)); char* u = A(ID3v2_to_unicode(h.p)); if (u != h.p) free(u); A(ID3v2_strlent(h.p)); break; }
        case 14: if (g.chance(1, 3)) { // a file that may only be read
                c.log("write to a read-only file"); c.label("write_read_only");
                uint32_t k = g.below(3); if (!w && k == 0) k = 1;
                chmod(p.c_str(), k == 2 ? 0 : 0444);
                { Unprivileged u; if (k == 0) A(ID3v2_write_tag(p.c_str(), w->tag)); else if (k == 1) A(ID3v2_delete_tag(p.c_str())); else { ID3v2_Tag* t = A(ID3v2_read_tag(p.c_str())); if (t) A(ID3v2_Tag_free(t)); ID3v2_tag* ct = A(load_tag(p.c_str())); if (ct) A(free_tag(ct)); } }
                chmod(p.c_str(), 0644);
                break; }
            { // staging failures: the temporary copy cannot be written
            if (!w) break;
            c.log("write without disk space"); c.label("write_no_space");
            struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = g.below(3000);
            signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &lim);
            { InApi a_; if (g.chance(1, 3)) ID3v2_delete_tag(p.c_str()); else ID3v2_write_tag(p.c_str(), w->tag); }
            setrlimit(RLIMIT_FSIZE, &old);
            break; }
        case 15: if (g.chance(1, 4)) { // covers and tags that can be opened but not (completely) read
                c.label("unreadable_contents"); c.log("unreadable contents");
                static const char* const ODD[] = {"/sys/kernel/mm/transparent_hugepage/enabled", "/sys/kernel/uevent_seqnum", "/proc/self/mem", "/proc/self/status", "/dev/null"};
                std::string s = g.chance(1, 3) ? scratch_dir() : ODD[g.below(5)];
                ID3v2_tag* ct = A(new_tag()); { Heap h(gen_iso(g, 20)); A(tag_set_title(h.p, 0, ct)); } A(tag_set_album_cover(s.c_str(), ct));
                ID3v2_Tag* t = A(ID3v2_read_tag(s.c_str())); if (t) A(ID3v2_Tag_free(t)); ID3v2_tag* l = A(load_tag(s.c_str())); if (l) A(free_tag(l));
                A(free_tag(ct)); break; }
            // fall through
        default: {
            c.label("compat"); c.log("compat:");
            ID3v2_tag* ct; World x;
            uint32_t m = g.below(3);
            if (m == 0) { ct = A(new_tag()); x.tag = ct ? ct->tag : nullptr; }
            else { RefTag t = gen_tag(g, 4, 40); Bytes b = m == 2 ? gen_wild(g, c) : t.encode(); put_file(q, b); Heap h(b);
                ct = g.chance(1, 2) ? A(load_tag(q.c_str())) : A(load_tag_with_buffer(h.p, (int)h.n)); if (ct) { x.tag = ct->tag; x.m = snap(ct->tag); } }
            if (ct) { uint32_t k = g.below(5); for (uint32_t j = 0; j < k; j++) compat_ops(g, x, ct, c, 40); compat_touch(ct); if (g.chance(1, 3)) { put_file(q, {'x'}); A(set_tag(q.c_str(), ct)); } A(free_tag(ct)); c.nontrivial = true; }
            break; }
        }
    }
    for (auto& w : tags) world_free(w);
}
static void c08(Gen& g, Case& c)
{
#ifdef HAVE_HOOKS
    static bool init = false;
    if (!init) { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); init = true; }
#endif
    size_t start = g.pos; long left = 0; int fds = 0;
    for (int attempt = 0; attempt < 2; attempt++) { // an allocation kept by libc on first use is not a leak
        g.pos = start;
        memset(tab, 0, sizeof tab); live = 0;
        c.desc.clear();
        int before = open_fds();
        track = true;
        try { c08_body(g, c); } catch (...) { track = false; throw; }
        track = false; left = live; fds = open_fds() - before;
        if (!left && fds <= 0) return;
    }
    if (left) failf("%ld allocations made by the library remain after everything was released", left);
    failf("%d files opened by the library remain open", fds);
}

static void c09(Gen& g, Case& c)
{
    std::string p = fpath("c09");
    OpCfg o; o.maxlen = g.pick<uint32_t>({20, 300, 300, 5000});
    switch (g.below(6)) {
    case 0: { // arguments are copied (do_op clobbers and releases them after every call)
        c.log("edits with clobbered arguments"); c.label("clobbered_args");
        World w; start_world(g, w, c);
        uint32_t n = 1 + g.below(8); for (uint32_t i = 0; i < n; i++) do_op(g, w, c, o);
        expect(w.m, w.tag, "after the arguments were clobbered");
        c.nontrivial = !w.m.empty(); world_free(w); break; }
    case 1: { // two tags from one buffer, which is then clobbered
        c.log("two tags from one buffer"); c.label("shared_buffer");
        RefTag t = any_tag(g); log_tag(c, t); label_tag(c, t);
        World a, b; a.m = b.m = t.frames; a.ver = b.ver = t.ver; a.tag_size = b.tag_size = t.body_size();
        { Heap h(t.encode()); a.tag = A(ID3v2_read_tag_from_buffer(h.p, (int)h.n)); b.tag = A(ID3v2_read_tag_from_buffer(h.p, (int)h.n)); if (!h.intact()) fail("reading modified the caller's buffer"); }
        CHECK(a.tag && b.tag, "a well-formed tag is not recognised");
        expect(t.frames, a.tag, "after the buffer was clobbered"); expect(t.frames, b.tag, "after the buffer was clobbered");
        uint32_t n = 1 + g.below(8); for (uint32_t i = 0; i < n; i++) do_op(g, a, c, o);
        expect(b.m, b.tag, "after editing another tag read from the same buffer"); expect(a.m, a.tag, "edited tag");
        check_header(b.tag->header, t.ver, t.minor, t.flags, t.body_size(), "after editing another tag");
        c.nontrivial = !t.frames.empty();
        if (g.chance(1, 2)) { world_free(a); expect(b.m, b.tag, "after freeing the other tag"); world_free(b); } else { world_free(b); expect(a.m, a.tag, "after freeing the other tag"); world_free(a); }
        break; }
    case 2: { // a tag read from a file does not depend on the file
        c.log("file overwritten after reading"); c.label("file_gone");
        RefTag t = any_tag(g); log_tag(c, t); label_tag(c, t);
        Bytes b = cat(t.encode(), gen_audio(g, 100)); put_file(p, b);
        World w; w.m = t.frames; w.ver = t.ver; w.tag = A(ID3v2_read_tag(p.c_str()));
        CHECK(w.tag, "a well-formed tag is not recognised");
        expect_file(p, b, "reading modified the file");
        if (g.chance(1, 2)) unlink(p.c_str()); else put_file(p, Bytes(b.size(), 'Z'));
        expect(w.m, w.tag, "after the file was overwritten"); c.nontrivial = !t.frames.empty(); world_free(w); break; }
    case 3: { // the same arguments for two tags
        c.log("two tags from the same arguments"); c.label("shared_args");
        World a, b; world_fresh(g, a, c); world_fresh(g, b, c);
        size_t at = g.pos; uint32_t n = 1 + g.below(6);
        // replay the same choices on both tags: identical argument values
        size_t ops = g.pos; OpCfg oo = o; oo.dels = false;
        for (uint32_t i = 0; i < n; i++) do_op(g, a, c, oo);
        g.pos = ops; (void)at;
        for (uint32_t i = 0; i < n; i++) do_op(g, b, c, oo);
        bool wide; Heap s(gen_arg(g, o.maxlen, &wide)); Heap d(gen_arg(g, 40, &wide));
        A(ID3v2_Tag_set_title(a.tag, s.p)); A(ID3v2_Tag_set_title(b.tag, s.p));
        MF f; f.k = TEXT; f.id = "TIT2"; f.enc = has_bom(s.orig); f.body = s.orig; m_set(a, f); m_set(b, f);
        ID3v2_ApicFrameInput in = {"\0\0", "image/png", d.p, 3, (int)s.n, s.p};
        A(ID3v2_Tag_add_apic_frame(a.tag, &in)); A(ID3v2_Tag_add_apic_frame(b.tag, &in));
        MF q; q.k = APIC; q.id = "APIC"; q.enc = has_bom(d.orig); q.mime = cstr("image/png"); q.ptype = 3; q.desc = d.orig; q.body = s.orig; m_add(a, q); m_add(b, q);
        memset(s.p, 'Q', s.n); s.orig.assign(s.n, 'Q'); memset(d.p, 'Q', d.n); d.orig.assign(d.n, 'Q');
        expect(a.m, a.tag, "after clobbering the arguments"); expect(b.m, b.tag, "after clobbering the arguments");
        for (uint32_t i = 0; i < 3; i++) do_op(g, a, c, o);
        expect(b.m, b.tag, "after editing a tag built from the same arguments");
        world_free(a); expect(b.m, b.tag, "after freeing a tag built from the same arguments"); world_free(b);
        c.nontrivial = true; break; }
    case 4: { // setting from the tag's own contents
        c.label("self_alias");
        World w; start_world(g, w, c); OpCfg oo = o; oo.dels = false;
        uint32_t n = 2 + g.below(5); for (uint32_t i = 0; i < n; i++) do_op(g, w, c, oo);
        std::vector<size_t> cand; for (size_t i = 0; i < w.m.size(); i++) if (w.m[i].k != RAW) cand.push_back(i);
        if (cand.empty()) { world_free(w); break; }
        size_t i = cand[g.below((uint32_t)cand.size())]; MF src = w.m[i];
        ID3v2_FrameList* l = w.tag->frames; for (size_t k = 0; k < i; k++) l = l->next;
        ID3v2_Frame* fr = l->frame;
        c.log("set from own frame %s", show(src).c_str());
        auto as_string = [](Bytes b) { b.insert(b.end(), 4, 0); bool wide = has_bom(b); b.resize(str_size(b.data(), wide)); return b; };
        if (src.k == TEXT) {
            MF f; f.k = TEXT; f.body = as_string(src.body); f.enc = has_bom(f.body);
            const char* text = ((ID3v2_TextFrame*)fr)->data->text;
            if (g.below(2)) { const Named& nm = NAMED[g.below(N_NAMED)]; f.id = nm.id; A(nm.set(w.tag, text)); }
            else { f.id = src.id; memcpy(f.flags, src.flags, 2); char id[5]; memcpy(id, fr->header->id, 4); id[4] = 0; ID3v2_TextFrameInput in = {g.chance(1, 2) ? id : fr->header->id, fr->header->flags, text}; A(ID3v2_Tag_set_text_frame(w.tag, &in)); }
            m_set(w, f);
        } else if (src.k == COMM) {
            ID3v2_CommentFrameData* d = ((ID3v2_CommentFrame*)fr)->data;
            MF f; f.k = COMM; f.id = "COMM"; memcpy(f.lang, src.lang, 3); f.body = as_string(src.body); f.desc = as_string(src.desc); f.enc = has_bom(f.body);
            memcpy(f.flags, src.flags, 2);
            if (src.enc == 2) { f.desc = {0}; ID3v2_CommentFrameInput in = {fr->header->flags, d->language, "", d->comment}; A(ID3v2_Tag_set_comment_frame(w.tag, &in)); }
            else { ID3v2_CommentFrameInput in = {fr->header->flags, d->language, d->short_description, d->comment}; A(ID3v2_Tag_set_comment_frame(w.tag, &in)); }
            m_set(w, f);
        } else {
            ID3v2_ApicFrameData* d = ((ID3v2_ApicFrame*)fr)->data;
            MF f = src; f.desc = as_string(src.desc); f.enc = has_bom(f.desc);
            ID3v2_ApicFrameInput in = {fr->header->flags, d->mime_type, src.enc == 2 ? "" : d->description, d->picture_type, d->picture_size, d->data};
            if (src.enc == 2) { f.desc = {0}; f.enc = 0; }
            if (g.chance(1, 3)) { A(ID3v2_Tag_set_album_cover(w.tag, d->mime_type, d->picture_size, d->data)); f.enc = 1; f.ptype = 3; f.desc = {0xFF, 0xFE, 0, 0}; f.flags[0] = f.flags[1] = 0; }
            else A(ID3v2_Tag_set_apic_frame(w.tag, &in));
            m_set(w, f);
        }
        expect(w.m, w.tag, "after setting a frame from the tag's own contents");
        c.nontrivial = true; world_free(w); break; }
    default: { // lookups and writing are pure
        c.label("pure_lookups");
        World w; start_world(g, w, c);
        uint32_t n = g.below(6); for (uint32_t i = 0; i < n; i++) do_op(g, w, c, o);
        std::vector<ID3v2_Frame*> fr; for (ID3v2_FrameList* l = w.tag->frames; l && l->frame; l = l->next) fr.push_back(l->frame);
        check_lookups(g, w); expect(w.m, w.tag, "after lookups");
        Bytes audio = gen_audio(g, 100); put_file(p, audio); put_file(fpath("c09b"), audio);
        A(ID3v2_write_tag(p.c_str(), w.tag)); expect(w.m, w.tag, "after writing");
        A(ID3v2_write_tag(fpath("c09b").c_str(), w.tag)); expect(w.m, w.tag, "after writing twice");
        check_lookups(g, w);
        size_t k = 0; for (ID3v2_FrameList* l = w.tag->frames; l && l->frame; l = l->next, k++) if (k >= fr.size() || fr[k] != l->frame) fail("lookups or writing exchanged frames of the tag");
        c.nontrivial = !w.m.empty(); world_free(w); break; }
    }
}

// ---- helpers and headers ----------------------------------------------------
static void c10(Gen& g, Case& c)
{
    Bytes s;
    switch (g.below(6)) {
    case 0: s = gen_iso(g, gen_maxlen(g)); break;
    case 1: s = gen_utf16(g, gen_maxlen(g) / 2, (int)g.below(2)); break;
    case 2: { uint32_t n = g.below(5); for (uint32_t i = 0; i < n; i++) s.push_back(g.pick<uint8_t>({0xFF, 0xFE, 'a', 0xEF, 0xBB, 0xBF, 0xFD, 0x80, 1})); if (has_bom(s)) { if (s.size() & 1) s.pop_back(); s.push_back(0); } s.push_back(0); break; } // near the byte order marks
    case 3: { // zeros everywhere except as an aligned pair
        s = g.below(2) ? Bytes{0xFE, 0xFF} : Bytes{0xFF, 0xFE};
        uint32_t n = g.below(24); for (uint32_t i = 0; i < n; i++) { uint8_t a = g.pick<uint8_t>({0, 0, 'x', 0xFF, 0xFE}), b = g.pick<uint8_t>({0, 0, 'x', 0xFE, 0xFF}); if (!a && !b) a = 1; s.push_back(a); s.push_back(b); }
        s.push_back(0); s.push_back(0); break; }
    case 4: { uint32_t n = g.chance(1, 400) ? g.pick<uint32_t>({16382, 16383, 16384, 32765, 32766, 32767, 65534, 65535, 65536, 131072, 200000, 300000}) + g.below(4) : g.size(20000);
        if (n > 20000 && g.chance(1, 2)) { n /= 2; s = g.below(2) ? Bytes{0xFE, 0xFF} : Bytes{0xFF, 0xFE}; uint8_t k = g.byte(); for (uint32_t i = 0; i < n; i++) { s.push_back((uint8_t)(i + k)); s.push_back((uint8_t)(1 + i % 200)); } s.push_back(0); s.push_back(0); c.label("length>20000"); break; }
        if (n > 20000) c.label("length>20000"); s.assign(n, (uint8_t)(1 + g.below(255))); if (has_bom(s)) s[0] = 'a'; if (n >= 2 && s[0] == s[1]) {} s.push_back(0); break; }
    default: { uint32_t n = g.below(40); for (uint32_t i = 0; i < n; i++) { uint8_t b = g.byte(); s.push_back(b ? b : 1); } if (has_bom(s)) s[0] = 'a'; s.push_back(0); break; }
    }
    bool wide = has_bom(s);
    size_t total = str_size(s.data(), wide), len = total - (wide ? 2 : 1);
    s.resize(total);
    c.log("%s", hex(s, 80).c_str()); c.label(wide ? "wide" : "single"); if (len == 0) c.label("empty"); if (len == 1) c.label("one_byte");
    c.nontrivial = len > 0;
    Heap h(s);
    int a = A(ID3v2_strlen(h.p)), b = A(ID3v2_strlent(h.p));
    CHECK(a == (int)len, "strlen is %d, expected %zu", a, len);
    CHECK(b == (int)total, "strlent is %d, expected %zu", b, total);
    char* u = A(ID3v2_to_unicode(h.p));
    CHECK(u, "to_unicode returns NULL");
    if (!h.intact()) fail("a helper modified its argument");
    if (wide) { CHECK(u == h.p || !memcmp(u, s.data(), total), "to_unicode changed a string that is Unicode already"); if (u != h.p) free(u); return; }
    CHECK(u != h.p, "to_unicode returns its argument");
    Bytes want = {0xFF, 0xFE}; for (size_t i = 0; i < len; i++) { want.push_back(s[i]); want.push_back(0); } want.push_back(0); want.push_back(0);
    CHECK(!memcmp(u, want.data(), want.size()), "to_unicode: expected %s, got %s", hex(want, 40).c_str(), hex(Bytes((uint8_t*)u, (uint8_t*)u + want.size()), 40).c_str());
    CHECK(A(ID3v2_strlent(u)) == (int)want.size(), "strlent of a converted string");
    CHECK(A(ID3v2_strlen(u)) == (int)want.size() - 2, "strlen of a converted string");
    CHECK(A(ID3v2_to_unicode(u)) == u, "converting twice");
    free(u);
}

static bool access_denied(const std::string& p) { FILE* f = fopen(p.c_str(), "rb"); if (f) fclose(f); return !f; }
static void c11(Gen& g, Case& c)
{
    Bytes b = {'I', 'D', '3', (uint8_t)(3 + g.below(2)), 0, 0};
    bool clean = true;
    uint32_t m = g.below(16);
    switch (m) { // identifier
    case 14: b[g.below(3)] = g.byte(); c.label("identifier_changed"); break;
    case 13: { static const char* I[] = {"id3", "3DI", "TAG", "ID2", "ID4", "JD3", "IE3", "ID\x33"}; memcpy(b.data(), I[g.below(8)], 3); c.label("identifier_other"); break; }
    case 12: b[3] = g.byte(); c.label("version_any"); break;
    case 11: b[3] = g.pick<uint8_t>({2, 5, 0, 1, 0xFF, 0x83, 0x84, 0x13, 0x33, 0x34}); c.label("version_other"); break;
    default: break;
    }
    b[4] = g.chance(1, 2) ? 0 : g.byte();
    b[5] = g.chance(1, 3) ? 0 : g.byte();
    uint32_t size = 0;
    switch (g.below(6)) {
    case 0: size = g.below(128); break;
    case 1: size = g.pick<uint32_t>({127, 128, 16383, 16384, 2097151, 2097152, 0x0fffffff, 0x08000000, 0x07ffffff, 255, 256, 65535, 65536}); break;
    case 2: size = 1u << g.below(28); break;
    case 3: size = g.size(0x0fffffff); break;
    default: size = g.u32() & 0x0fffffff; break;
    }
    Bytes s; putsync(s, size);
    if (g.chance(1, 12)) { s[g.below(4)] |= 0x80; clean = false; c.label("size_not_syncsafe"); }
    b.insert(b.end(), s.begin(), s.end());
    bool ok = !memcmp(b.data(), "ID3", 3) && (b[3] == 3 || b[3] == 4);
    c.log("%s", hex(b).c_str()); c.label(ok ? "header" : "no_header"); c.nontrivial = true;
    auto look = [&](ID3v2_TagHeader* h, const char* what) {
        CHECK((h != nullptr) == ok, "%s: %s", what, ok ? "a valid header is not recognised" : "a header is reported where there is none");
        if (!h) return;
        check_header(h, b[3], b[4], b[5], clean ? size : h->tag_size, what);
        A(ID3v2_TagHeader_free(h));
    };
    { Heap h(b); look(A(ID3v2_read_tag_header_from_buffer(h.p)), "buffer"); if (!h.intact()) fail("reading modified the caller's buffer"); }
    std::string p = fpath("c11");
    Bytes more = g.chance(1, 2) ? g.blob(g.size(300)) : Bytes();
    Bytes f = cat(b, more);
    uint32_t fm = g.below(6);
    if (fm < 3) { put_file(p, f); look(A(ID3v2_read_tag_header(p.c_str())), "file"); expect_file(p, f, "reading modified the file"); c.label("file"); }
    else if (fm == 3) { Bytes cut(b.begin(), b.begin() + g.below(10)); put_file(p, cut); c.label("short_file"); c.log("file cut at %zu", cut.size());
        CHECK(!A(ID3v2_read_tag_header(p.c_str())), "a file of %zu bytes has a header", cut.size()); CHECK(!A(ID3v2_read_tag(p.c_str())), "a file of %zu bytes has a tag", cut.size());
        Heap h(cut); CHECK(!A(ID3v2_read_tag_from_buffer(h.p, (int)h.n)), "a buffer of %zu bytes has a tag", cut.size()); }
    else if (fm == 4 && g.chance(1, 4)) { c.label("no_permission"); put_file(p, f); chmod(p.c_str(), 0);
        bool denied, ht, tt; { Unprivileged u; denied = access_denied(p);
            ID3v2_TagHeader* h = A(ID3v2_read_tag_header(p.c_str())); ht = h != nullptr; if (h) A(ID3v2_TagHeader_free(h));
            ID3v2_Tag* t = A(ID3v2_read_tag(p.c_str())); tt = t != nullptr; if (t) A(ID3v2_Tag_free(t)); }
        chmod(p.c_str(), 0644);
        if (denied) { CHECK(!ht, "a file without read permission has a header"); CHECK(!tt, "a file without read permission has a tag"); } }
    else if (fm == 4) { c.label("unreadable"); std::string q = g.chance(1, 2) ? fpath("missing") : g.chance(1, 2) ? scratch_dir() : fpath("c11") + "/x"; put_file(p, f);
        CHECK(!A(ID3v2_read_tag_header(q.c_str())), "an unreadable file has a header"); CHECK(!A(ID3v2_read_tag(q.c_str())), "an unreadable file has a tag"); }
    else { c.label("via_tag"); // the tag reader sees the same header
        Heap h(f); ID3v2_Tag* t = A(ID3v2_read_tag_from_buffer(h.p, (int)h.n));
        CHECK((t != nullptr) == ok, "reading the tag: %s", ok ? "a valid header is not recognised" : "a tag is reported where there is none");
        if (t) { check_header(t->header, b[3], b[4], b[5], clean ? size : t->header->tag_size, "tag"); A(ID3v2_Tag_free(t)); } }
}

struct Seen { bool any = false; ID3v2_TagHeader h; int padding = 0; std::vector<MF> frames; };
static Seen see(ID3v2_Tag* t)
{
    Seen s; if (!t) return s;
    s.any = true; s.h = *t->header; s.padding = t->padding_size; s.frames = snap(t);
    A(ID3v2_Tag_free(t));
    return s;
}
static void same(const Seen& a, const Seen& b, const char* what)
{
    CHECK(a.any == b.any, "%s: one returns a tag, the other nothing", what);
    if (!a.any) return;
    CHECK(!memcmp(a.h.identifier, b.h.identifier, 3) && a.h.major_version == b.h.major_version && a.h.minor_version == b.h.minor_version && a.h.flags == b.h.flags, "%s: headers differ", what);
    CHECK(a.h.tag_size == b.h.tag_size, "%s: tag sizes %u and %u", what, a.h.tag_size, b.h.tag_size);
    CHECK(a.h.extended_header_size == b.h.extended_header_size, "%s: extended header sizes %u and %u", what, a.h.extended_header_size, b.h.extended_header_size);
    std::string d = diff(a.frames, b.frames);
    CHECK(d == "", "%s: %s", what, d.c_str());
    CHECK(a.padding == b.padding, "%s: padding %d and %d", what, a.padding, b.padding);
}
static void c12(Gen& g, Case& c)
{
    g_big = true;
    Bytes b;
    if (g.chance(1, 3)) { RefTag t = any_tag(g); log_tag(c, t); label_tag(c, t); b = cat(t.encode(), gen_audio(g, 2000)); c.label("well_formed"); }
    else { b = gen_wild(g, c); if (g.chance(1, 2)) b = cat(b, gen_audio(g, 500)); }
    c.log("%zu bytes: %s", b.size(), hex(b, 120).c_str());
    std::string p = fpath("c12");
    put_file(p, b);
    if (g.chance(1, 4)) { Bytes o = gen_tag(g, 2, 20).encode(); Heap h(o); see(A(ID3v2_read_tag_from_buffer(h.p, (int)h.n))); } // an unrelated earlier call
    Seen f = see(A(ID3v2_read_tag(p.c_str())));
    Heap h(b);
    Seen m = see(A(ID3v2_read_tag_from_buffer(h.p, (int)h.n)));
    same(f, m, "file and buffer");
    c.nontrivial = f.any; c.label(f.any ? "tag" : "nothing");
    if (f.any && !f.frames.empty()) c.label("frames");
    same(f, see(A(ID3v2_read_tag(p.c_str()))), "repeated reading of the file");
    same(m, see(A(ID3v2_read_tag_from_buffer(h.p, (int)h.n))), "repeated reading of the buffer");
    if (g.chance(1, 12)) for (uint32_t i = 2 + g.below(7); i > 0; i--) { // again and again
        c.label("many_repeats");
        if (g.below(2)) same(f, see(A(ID3v2_read_tag(p.c_str()))), "repeated reading of the file"); else same(m, see(A(ID3v2_read_tag_from_buffer(h.p, (int)h.n))), "repeated reading of the buffer");
    }
    if (!h.intact()) fail("reading modified the buffer");
    ID3v2_TagHeader* hd = A(ID3v2_read_tag_header(p.c_str()));
    CHECK((hd != nullptr) == f.any, "the header reader and the tag reader disagree about the file");
    if (hd) { check_header(hd, (uint8_t)f.h.major_version, (uint8_t)f.h.minor_version, (uint8_t)f.h.flags, f.h.tag_size, "header alone"); A(ID3v2_TagHeader_free(hd)); }
    if (b.size() >= 10) {
        hd = A(ID3v2_read_tag_header_from_buffer(h.p));
        CHECK((hd != nullptr) == m.any, "the header reader and the tag reader disagree about the buffer");
        if (hd) { check_header(hd, (uint8_t)m.h.major_version, (uint8_t)m.h.minor_version, (uint8_t)m.h.flags, m.h.tag_size, "header alone"); A(ID3v2_TagHeader_free(hd)); }
    }
    expect_file(p, b, "reading modified the file");
    if (g.chance(1, 3)) { // a file that may only be read
        c.label("read_only");
        chmod(p.c_str(), 0444);
        Seen s; { Unprivileged u; s = see(A(ID3v2_read_tag(p.c_str()))); hd = A(ID3v2_read_tag_header(p.c_str())); }
        bool h0 = hd != nullptr; if (hd) A(ID3v2_TagHeader_free(hd));
        chmod(p.c_str(), 0644);
        same(f, s, "a writable and a read-only file"); CHECK(h0 == f.any, "the header of a read-only file");
        expect_file(p, b, "reading modified the read-only file");
    }
    // only the bytes of the tag matter
    if (f.any && !(b[6] & 0x80) && !(b[7] & 0x80) && !(b[8] & 0x80) && !(b[9] & 0x80)) {
        size_t n = 10 + ((size_t)b[6] << 21 | (size_t)b[7] << 14 | (size_t)b[8] << 7 | b[9]);
        if (n <= b.size()) {
            c.label("complete");
            Bytes only(b.begin(), b.begin() + (long)n), other = cat(only, gen_audio(g, 400));
            { Heap k(only); same(m, see(A(ID3v2_read_tag_from_buffer(k.p, (int)k.n))), "with and without what follows the tag (buffer)"); }
            { Heap k(other); same(m, see(A(ID3v2_read_tag_from_buffer(k.p, (int)k.n))), "with other bytes after the tag (buffer)"); }
            put_file(p, other); same(m, see(A(ID3v2_read_tag(p.c_str()))), "with other bytes after the tag (file)");
        } else c.label("incomplete");
    }
}

// ---- compatibility layer ------------------------------------------------------
static void compat_check_frame(const MF& want, ID3v2_frame* f)
{
    MF got = want;
    CHECK(!memcmp(f->frame_id, want.id.data(), 4), "compat frame id %s, expected %s", hex(Bytes(f->frame_id, f->frame_id + 4)).c_str(), want.id.c_str());
    CHECK(!memcmp(f->flags, want.flags, 2), "compat flags of %s", show(want).c_str());
    CHECK(f->size == (int)want.psize(), "compat size %d of %s", f->size, show(want).c_str());
    CHECK(f->data && Bytes((uint8_t*)f->data, (uint8_t*)f->data + f->size) == want.payload(), "compat payload of %s", show(want).c_str());
    if (want.k == TEXT) {
        ID3v2_frame_text_content* t = A(parse_text_frame_content(f)); CHECK(t, "no text content");
        got.enc = (uint8_t)t->encoding; CHECK(t->size >= 0, "negative size"); got.body.assign((uint8_t*)t->data, (uint8_t*)t->data + t->size);
        free(t->data); free(t);
    } else if (want.k == COMM) {
        ID3v2_frame_comment_content* t = A(parse_comment_frame_content(f)); CHECK(t && t->text, "no comment content");
        got.enc = (uint8_t)t->text->encoding; memcpy(got.lang, t->language, 3);
        const uint8_t* d = (const uint8_t*)t->short_description; got.desc.assign(d, d + str_size(d, want.enc == 2 || (d[0] && has_bom(Bytes(d, d + 2)))));
        CHECK(t->text->size >= 0, "negative size"); got.body.assign((uint8_t*)t->text->data, (uint8_t*)t->text->data + t->text->size);
        free(t->text); free(t);
    } else if (want.k == APIC) {
        ID3v2_frame_apic_content* t = A(parse_apic_frame_content(f)); CHECK(t, "no picture content");
        got.enc = (uint8_t)t->encoding; got.ptype = (uint8_t)t->picture_type;
        const uint8_t* mt = (const uint8_t*)t->mime_type; got.mime.assign(mt, mt + str_size(mt, mt[0] && has_bom(Bytes(mt, mt + 2))));
        const uint8_t* d = (const uint8_t*)t->description; got.desc.assign(d, d + str_size(d, want.enc == 2 || (d[0] && has_bom(Bytes(d, d + 2)))));
        CHECK(t->picture_size >= 0, "negative size"); got.body.assign((uint8_t*)t->data, (uint8_t*)t->data + t->picture_size);
        free(t);
    }
    std::string e = diff(want, got);
    CHECK(e == "", "compat content of %s: %s", show(want).c_str(), e.c_str());
}
static void compat_check(const World& w, ID3v2_tag* ct, const char* when)
{
    std::string e = diff(w.m, snap(ct->tag));
    CHECK(e == "", "%s, underlying tag: %s", when, e.c_str());
    size_t n = 0;
    for (ID3v2_frame_list* l = ct->frames; l && l->frame; l = l->next, n++) {
        CHECK(n < w.m.size(), "%s: the compat tag shows more than the %zu frames", when, w.m.size());
        compat_check_frame(w.m[n], l->frame);
    }
    CHECK(n == w.m.size(), "%s: the compat tag shows %zu frames, expected %zu", when, n, w.m.size());
    auto look = [&](ID3v2_frame* f, const char* id, const char* what) {
        int i = m_find(w.m, id);
        CHECK((i >= 0) == (f != nullptr), "%s: tag_get_%s returns %s", when, what, f ? "a frame that is not in the tag" : "nothing");
        if (f) compat_check_frame(w.m[(size_t)i], f);
    };
    for (uint32_t k = 0; k < N_NAMED; k++) look(A(NAMED[k].cget(ct)), NAMED[k].id, NAMED[k].name);
    look(A(tag_get_comment(ct)), "COMM", "comment"); look(A(tag_get_album_cover(ct)), "APIC", "album_cover");
}
static void compat_touch(ID3v2_tag* ct)
{
    World w; w.m = snap(ct->tag); w.tag = ct->tag;
    compat_check(w, ct, "compat layer");
}
// one compat edit; the model is edited alike
void compat_edit(Gen& g, World& w, ID3v2_tag* ct, Case& c, uint32_t maxlen, const std::string& prefix)
{
    uint32_t op = g.below(14);
    if (op < 9) {
        const Named& n = NAMED[op]; bool wide; Heap t(gen_arg(g, maxlen, &wide));
        c.log("tag_set_%s(%s)", n.name, hex(t.orig).c_str()); c.label(m_find(w.m, n.id) >= 0 ? "set_present" : "set_absent");
        A(n.cset(t.p, g.chance(1, 4) ? (char)g.below(4) : (char)wide, ct)); // (the text tells its encoding)
        MF f; f.k = TEXT; f.id = n.id; f.enc = wide; f.body = t.orig; m_set(w, f);
        if (!t.intact()) fail("the caller's text was modified");
    } else if (op < 11) {
        bool wide; Heap t(gen_arg(g, maxlen, &wide));
        c.log("tag_set_comment(%s)", hex(t.orig).c_str()); c.label(m_find(w.m, "COMM") >= 0 ? "set_present" : "set_absent");
        A(tag_set_comment(t.p, g.chance(1, 4) ? (char)g.below(4) : (char)wide, ct));
        MF f; f.k = COMM; f.id = "COMM"; f.enc = wide; memcpy(f.lang, "eng", 3); f.desc = wide ? Bytes{0xFF, 0xFE, 0, 0} : Bytes{0}; f.body = t.orig; m_set(w, f);
    } else {
        MF f; f.k = APIC; f.id = "APIC"; f.enc = 1; f.ptype = 3; f.desc = {0xFF, 0xFE, 0, 0}; f.body = g.blob(g.size(g_big && g.chance(1, 30) ? 400000 : maxlen));
        c.label(m_find(w.m, "APIC") >= 0 ? "set_present" : "set_absent");
        if (op == 11) {
            const char* n = g.pick<const char*>({"cover.png", "cover.jpg", "cover", "a.b.png", "x.jpeg", "png", ".png", "png.jpg", "nothere.png", "c.pngx", "c.xpng", "c.png.x", "c.png"});
            c.log("tag_set_album_cover(%s, %zu bytes)", n, f.body.size());
            std::string p = fpath((prefix + n).c_str());
            bool missing = !strcmp(n, "nothere.png");
            if (!missing) put_file(p, f.body);
            if (!missing && g.chance(1, 6)) { c.label("cover_read_only"); chmod(p.c_str(), 0444); { Unprivileged u; A(tag_set_album_cover(p.c_str(), ct)); } }
            else A(tag_set_album_cover(p.c_str(), ct));
            const char* e = strrchr(n, '.');
            f.mime = cstr(e && !strcmp(e, ".png") ? "image/png" : "image/jpeg");
            if (!missing) { Bytes now = get_file(p); if (now != f.body) fail("the cover file was modified"); unlink(p.c_str()); m_set(w, f); } else c.label("cover_missing");
            c.label("cover_file");
        } else {
            f.mime = g.chance(1, 4) ? gen_iso(g, 30) : cstr(g.pick<const char*>({"image/png", "image/jpeg"}));
            Heap hm(f.mime), hp(f.body);
            c.log("tag_set_album_cover_from_bytes(%s, %zu bytes)", hex(f.mime).c_str(), f.body.size());
            A(tag_set_album_cover_from_bytes(hp.p, hm.p, (int)hp.n, ct)); m_set(w, f);
        }
    }
}
static void compat_ops(Gen& g, World& w, ID3v2_tag* ct, Case& c, uint32_t maxlen) { compat_edit(g, w, ct, c, maxlen, ""); }
void compat_verify(World& w, ID3v2_tag* ct) { compat_check(w, ct, "compat layer"); }
static void c13(Gen& g, Case& c)
{
    g_big = true;
    std::string p = fpath("c13"), q = fpath("c13n");
    World w; ID3v2_tag* ct = nullptr;
    uint32_t maxlen = g.pick<uint32_t>({20, 40, 300, 300, 5000});
    uint32_t m = g.below(8);
    Bytes audio = gen_audio(g, 300);
    if (m == 0) { // nothing to load
        Bytes b; switch (g.below(4)) { case 0: break; case 1: b = {'I', 'D', '3'}; break; case 2: b = g.blob(g.size(100)); if (!b.empty()) b[0] = 'x'; break; default: b = gen_tag(g, 2, 20).encode(); b[3] = 2; }
        c.label("no_tag"); c.log("no tag: %s", hex(b).c_str());
        put_file(p, b);
        CHECK(!A(load_tag(p.c_str())), "a tag was loaded from a file without one");
        { Heap h(b); CHECK(!A(load_tag_with_buffer(h.p, (int)h.n)), "a tag was loaded from a buffer without one"); }
        CHECK(!A(load_tag(fpath("missing").c_str())), "a tag was loaded from a missing file");
        A(remove_tag(p.c_str())); expect_file(p, b, "removing a tag that is not there");
        c.nontrivial = true; return;
    }
    if (m < 4) { ct = A(new_tag()); CHECK(ct && ct->tag_header && ct->tag, "new_tag is incomplete"); w.tag = ct->tag; c.log("new_tag"); c.label("new_tag");
        CHECK(!memcmp(ct->tag_header->tag, "ID3", 3) && ct->tag_header->major_version == 3 && ct->tag_header->tag_size == 0 && ct->tag_header->flags == 0, "header of a new tag"); }
    else {
        RefTag t = g.chance(1, 3) ? any_tag(g) : gen_tag(g, 6, maxlen); log_tag(c, t); label_tag(c, t); c.label("loaded");
        Bytes b = cat(t.encode(), audio);
        if (g.below(2)) {
            put_file(p, b);
            if (g.chance(1, 4)) { chmod(p.c_str(), 0444); { Unprivileged u; ct = A(load_tag(p.c_str())); } chmod(p.c_str(), 0644); c.label("read_only"); CHECK(ct, "a tag in a read-only file is not loaded"); expect_file(p, b, "loading modified the file"); }
            else ct = A(load_tag(p.c_str()));
        } else { Heap h(b); ct = A(load_tag_with_buffer(h.p, (int)h.n)); }
        CHECK(ct, "a well-formed tag is not loaded");
        CHECK((uint8_t)ct->tag_header->major_version == t.ver && (uint8_t)ct->tag_header->minor_version == t.minor && (uint8_t)ct->tag_header->flags == t.flags && !memcmp(ct->tag_header->tag, "ID3", 3), "header of a loaded tag");
        CHECK(ct->tag_header->tag_size == (int)t.body_size() && ct->tag_header->extended_header_size == (int)t.ext_size, "sizes in the header of a loaded tag");
        size_t raw = 10 + t.body_size(); CHECK(ct->raw && !memcmp(ct->raw, b.data(), raw), "the raw bytes of a loaded tag are not those of the tag");
        w.tag = ct->tag; w.m = t.frames; w.ver = t.ver; w.minor = t.minor; w.flags = t.flags & ~0x50; w.padding = t.padding;
    }
    compat_check(w, ct, "at the start");
    uint32_t n = g.below(7); log_ops(c, n);
    for (uint32_t i = 0; i < n; i++) { compat_ops(g, w, ct, c, maxlen); compat_check(w, ct, "after the last call"); c.nontrivial = true; }
    uint32_t fm = g.below(3);
    if (fm) { // files: the same effect as the current API
        RefTag old; Bytes before = audio;
        if (g.chance(1, 2)) { old = gen_tag(g, 2, 40); before = cat(old.encode(), audio); }
        put_file(p, before); put_file(q, before);
        Bytes rest(before.begin() + (long)ref_tag_len(before), before.end());
        A(set_tag(p.c_str(), ct));
        Bytes want = cat(written_bytes(w), rest), got = get_file(p);
        std::string d = bdiff(want, got); CHECK(d == "", "set_tag: %s", d.c_str());
        A(ID3v2_write_tag(q.c_str(), ct->tag));
        d = bdiff(get_file(q), got); CHECK(d == "", "set_tag and ID3v2_write_tag differ: %s", d.c_str());
        world_after_write(w);
        compat_check(w, ct, "after set_tag");
        ID3v2_tag* again = A(load_tag(p.c_str())); CHECK(again, "the written tag is not loaded");
        World w2 = w; w2.tag = again->tag; compat_check(w2, again, "loaded again"); A(free_tag(again));
        c.label("set_tag");
        if (fm == 2) { A(remove_tag(p.c_str())); A(ID3v2_delete_tag(q.c_str())); d = bdiff(rest, get_file(p)); CHECK(d == "", "remove_tag: %s", d.c_str()); d = bdiff(rest, get_file(q)); CHECK(d == "", "ID3v2_delete_tag: %s", d.c_str()); c.label("remove_tag"); }
    }
    A(free_tag(ct));
}

// ---- cut tags -------------------------------------------------------------------
static void c16(Gen& g, Case& c)
{
    g_big = true;
    RefTag t = any_tag(g);
    if (t.whole_unsync()) t.flags &= 0x7F; // offsets below are those of the plain form
    if (t.frames.empty() && g.chance(3, 4)) t.frames.push_back(gen_frame(g, t.ver, 40));
    Bytes b = t.encode();
    log_tag(c, t); label_tag(c, t);
    std::vector<MF> want;
    uint32_t m = g.below(5);
    bool none = false;
    if (m < 3 || t.frames.empty()) {
        size_t cut;
        if (g.below(3) && !t.frames.empty()) { // near a frame boundary
            size_t i = g.below((uint32_t)t.frames.size() + 1); cut = i < t.starts.size() ? t.starts[i] : t.frames_end;
            cut += g.below(25); cut = cut > 12 ? cut - 12 : 0;
        } else if (g.chance(1, 4)) cut = g.below(11); else cut = g.below((uint32_t)b.size() + 1);
        if (cut > b.size()) cut = b.size();
        b.resize(cut); none = cut < 10;
        for (size_t i = 0; i < t.frames.size(); i++) if (t.starts[i] + 10 + t.frames[i].psize() <= cut) want.push_back(t.frames[i]); else break;
        c.log("cut at %zu: %zu complete frames", cut, want.size());
        c.label(none ? "cut_in_header" : cut < 10 + t.ext.size() ? "cut_in_ext" : cut >= t.frames_end ? "cut_in_padding" : "cut_in_frames");
        c.nontrivial = !none && cut < t.frames_end;
        if (!none && cut == t.frames_end) c.label("cut_at_frames_end");
    } else {
        size_t i = g.below((uint32_t)t.frames.size()), s = t.starts[i];
        size_t left = 10 + t.body_size() - (s + 10);
        if (m == 3) {
            uint32_t max = t.ver == 4 ? 0x0fffffff : 0x7fffffff, v = (uint32_t)left;
            switch (g.below(6)) { case 0: v = (uint32_t)left + 1; break; case 1: v = (uint32_t)left + 2 + g.below(20); break; case 2: v = max; break; case 3: v = max - g.below(64); break; case 4: v = (uint32_t)left + 1 + g.below(max - (uint32_t)left - 1); break; default: v = (uint32_t)left + 10 + (g.chance(1, 2) ? 10 : 0); }
            if (v <= left) v = (uint32_t)left + 1;
            Bytes sz; if (t.ver == 4) putsync(sz, v); else put32(sz, v);
            memcpy(&b[s + 4], sz.data(), 4); c.label("frame_too_long"); c.log("frame #%zu claims %u of %zu bytes", i, v, left);
        } else { size_t n = g.chance(1, 2) ? 10 : b.size(); for (size_t k = s; k < s + n && k < t.frames_end; k++) b[k] = 0; c.label("padding_inside"); c.log("zeros instead of frame #%zu", i); }
        want.assign(t.frames.begin(), t.frames.begin() + (long)i);
        c.nontrivial = true;
        if (t.footer) b.resize(10 + t.body_size());
        else if (g.chance(1, 2)) { Bytes a = gen_audio(g, 200); b = cat(b, a); c.label("audio_behind"); } // what follows the tag is not its continuation
    }
    ID3v2_Tag* tag;
    if (g.below(3) == 0) { std::string p = fpath("c16"); put_file(p, b); tag = A(ID3v2_read_tag(p.c_str())); c.label("file"); }
    else { Heap h(b); tag = A(ID3v2_read_tag_from_buffer(h.p, (int)h.n)); }
    if (none) { CHECK(!tag, "a header of %zu bytes yields a tag", b.size()); return; }
    CHECK(tag, "no tag although its header is complete");
    expect(want, tag, "reading the cut tag");
    A(ID3v2_Tag_free(tag));
}

static void c17(Gen& g, Case& c)
{
    g_big = true;
    std::string p = fpath("c17"), q = fpath("c17b");
    uint32_t m = g.below(3);
    Bytes audio = gen_audio(g, g.chance(1, 8) ? 20000 : 1500);
    if (m == 0) { // identity
        RefTag t = any_tag(g);
        t.ext.clear(); t.ext_size = 0; t.footer = false; t.flags &= 0x20;
        t.padding = 2048 + (g.chance(1, 2) ? 0 : g.size(g.chance(1, 30) ? 500000 : 6000));
        if (t.ver == 4) maybe_unsync(g, t);
        log_tag(c, t); label_tag(c, t); c.label("identity");
        Bytes b = cat(t.encode(), audio);
        put_file(p, b);
        uint32_t n = 1 + g.below(3);
        for (uint32_t i = 0; i < n; i++) {
            ID3v2_Tag* x = A(ID3v2_read_tag(p.c_str())); CHECK(x, "the tag is not recognised");
            A(ID3v2_write_tag(p.c_str(), x)); A(ID3v2_Tag_free(x));
            expect_file(p, b, "a plain read and write");
        }
        c.nontrivial = !t.frames.empty(); return;
    }
    Bytes before = audio;
    if (g.chance(1, 2)) { RefTag t = gen_tag(g, 3, 100); before = cat(t.encode(), audio); label_tag(c, t); c.label("had_tag"); c.log("file:"); log_tag(c, t); }
    put_file(p, before);
    Bytes rest(before.begin() + (long)ref_tag_len(before), before.end());
    World w;
    if (m == 1 && ref_tag_len(before)) { w.tag = A(ID3v2_read_tag(p.c_str())); c.label("own_tag"); c.log("own tag"); } else start_world(g, w, c);
    OpCfg o; o.maxlen = gen_maxlen(g); uint32_t n = g.below(5); for (uint32_t i = 0; i < n; i++) { if (m == 1) { do_op(g, w, c, o); } else do_op(g, w, c, o); }
    A(ID3v2_write_tag(p.c_str(), w.tag));
    Bytes first = get_file(p);
    c.nontrivial = w.tag->frames->frame != nullptr;
    uint32_t steps = g.chance(1, 100) ? 20 + g.below(300) : 1 + g.below(4);
    if (steps >= 20) { if (first.size() > 20000) steps = 20; c.label("cycles>=20"); }
    for (uint32_t i = 0; i < steps; i++) {
        switch (g.below(4)) {
        case 0: c.log("write again"); A(ID3v2_write_tag(p.c_str(), w.tag)); expect_file(p, first, "writing the same tag again"); c.label("again"); break;
        case 1: case 2: { c.log("read and write"); ID3v2_Tag* x = A(ID3v2_read_tag(p.c_str())); CHECK(x, "the written tag is not found"); A(ID3v2_write_tag(p.c_str(), x)); A(ID3v2_Tag_free(x)); expect_file(p, first, "reading and writing back"); c.label("reread"); break; }
        default: { // into another file: same tag bytes in front
            Bytes other = {'o', 't', 'h', 'e', 'r'}; put_file(q, other); A(ID3v2_write_tag(q.c_str(), w.tag));
            size_t tl = first.size() - rest.size(); Bytes want(first.begin(), first.begin() + (long)tl); expect_file(q, cat(want, other), "writing the same tag to another file"); c.label("other_file"); }
        }
    }
    if (g.chance(1, 2)) { c.log("delete"); A(ID3v2_delete_tag(p.c_str())); expect_file(p, rest, "writing and deleting the tag"); c.label("delete"); }
    world_free(w);
}

// ---- magnitudes -------------------------------------------------------------------
static uint32_t big_size(Gen& g)
{
    uint32_t s;
    uint32_t k = g.below(40);
    if (k < 36) k %= 12; // mostly below 128K
    switch (k) {
    case 0: case 1: s = 1 + g.below(400); break;
    case 2: case 3: case 4: s = g.pick<uint32_t>({127, 128, 255, 256, 16383, 16384, 32767, 32768, 65535, 65536}) - 16 + g.below(24); break;
    case 5: case 6: s = (1u << g.range(7, 17)) - 30 + g.below(40); break;
    case 7: case 8: s = g.size(300000); break;
    case 9: case 10: case 11: s = g.range(1, 70000); break;
    case 36: s = g.pick<uint32_t>({2097152, 1048576, 524288, 131072, 262144}) - 40 + g.below(60); break;
    case 37: s = g.chance(1, 4) ? g.size(3000000) : 1u << g.range(14, 20); break;
    case 38: s = g.chance(1, 8) ? g.pick<uint32_t>({16777216, 8388608, 4194304, 33554432}) - 40 + g.below(60) : g.range(60000, 200000); break;
    default: s = g.chance(1, 10) ? g.range(8000000, 12000000) : g.range(60000, 70000); break;
    }
    return s ? s : 1;
}
static Bytes fill(uint8_t k, uint32_t n) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * 2654435761u >> 24) + k; return b; }
// Tags around the largest size a tag header can hold
static void c18_limit(Gen& g, Case& c)
{
    const int64_t max = 0x0fffffff;
    std::string p = fpath("c18l");
    int ver = 3 + (int)g.below(2);
    Bytes audio = cat({'A', 'U', 'D', 'I', 'O'}, g.blob(g.size(200)));
    RefTag old; bool had = g.below(2); if (had) old = gen_tag(g, 2, 40);
    Bytes file = had ? cat(old.encode(), audio) : audio;
    World w; w.ver = ver;
    Heap h(Bytes{'I', 'D', '3', (uint8_t)ver, 0, 0, 0, 0, 0, 0});
    std::vector<MF> v; uint32_t n = g.below(3); int64_t used = 0;
    for (uint32_t i = 0; i < n; i++) { MF s; s.k = TEXT; s.id = i ? "TPE1" : "TRCK"; s.body = cstr(std::string(i + 3, 'n')); v.push_back(s); used += 10 + s.psize(); }
    bool picture = g.chance(1, 16), fits = !picture && g.chance(1, 24);
    int64_t pad = 0;
    MF big;
    if (picture) { big.k = APIC; big.id = "APIC"; big.mime = cstr("image/png"); big.ptype = 3; big.desc = {0}; used += 10 + big.psize(); big.body.assign((size_t)(max - 2048 - used + 1 + g.below(20)), 'p'); c.label("picture"); }
    else if (fits) pad = g.chance(1, 3) ? max - used - (int64_t)g.below(2) : (int64_t)g.pick<uint32_t>({67108864, 134217728, 100000000, 200000000}) + g.below(5);
    else pad = g.chance(1, 3) ? 0x7fffffff - (int64_t)g.below(g.chance(1, 2) ? 24 : 3000) : g.chance(1, 2) ? max - used + 1 + g.below(20) : (int64_t)g.pick<uint32_t>({1u << 28, 1u << 29, (1u << 29) + 4096, 1u << 30, 0x7f000000}) + g.below(5);
    w.padding = (uint32_t)pad;
    w.tag = A(ID3v2_Tag_new(A(ID3v2_read_tag_header_from_buffer(h.p)), (int)pad));
    for (auto& s : v) { Heap b(s.body); ID3v2_TextFrameInput in = {s.id.c_str(), "\0\0", b.p}; A(ID3v2_Tag_set_text_frame(w.tag, &in)); m_set(w, s); }
    if (picture) { ID3v2_ApicFrameInput in = {"\0\0", "image/png", "", 3, (int)big.body.size(), (const char*)big.body.data()}; A(ID3v2_Tag_add_apic_frame(w.tag, &in)); }
    c.label(fits ? "largest_tags" : "too_large"); c.label(ver == 4 ? "v2.4" : "v2.3"); c.nontrivial = true;
    c.log("v2.%d, padding %lld, %zu frames%s", ver, (long long)pad, v.size() + picture, had ? ", file with a tag" : "");
    put_file(p, file);
    A(ID3v2_write_tag(p.c_str(), w.tag));
    if (!fits) { expect_file(p, file, "writing a tag that is too large"); CHECK(w.tag->padding_size == (int)pad, "a tag too large to be written has its padding changed"); world_free(w); return; }
    {
        Bytes got = get_file(p); size_t total = 10 + (size_t)used + (size_t)pad; if (had) { size_t tl = ref_tag_len(file); audio.assign(file.begin() + (long)tl, file.end()); }
        CHECK(got.size() == total + audio.size(), "the written file has %zu bytes, expected %zu", got.size(), total + audio.size());
        CHECK(ref_tag_len(got) == total, "the written tag spans %zu bytes, expected %zu", ref_tag_len(got), total);
        CHECK(std::equal(audio.begin(), audio.end(), got.end() - (long)audio.size()), "the audio after a large tag changed");
        for (size_t i = 10 + (size_t)used; i < total; i++) if (got[i]) failf("padding byte %zu is not zero", i);
    }
    world_free(w);
    ID3v2_Tag* t = A(ID3v2_read_tag(p.c_str())); CHECK(t, "a large tag is not found");
    expect(w.m, t, "a large tag read back"); CHECK(t->padding_size == (int)pad, "padding %d read back, expected %lld", t->padding_size, (long long)pad);
    A(ID3v2_Tag_free(t));
    A(ID3v2_delete_tag(p.c_str())); expect_file(p, audio, "deleting a large tag"); c.label("delete");
    unlink(p.c_str());
}
static void c18(Gen& g, Case& c)
{
    if (g.chance(1, 64)) { c18_limit(g, c); return; }
    std::string p = fpath("c18");
    int ver = 3 + (int)g.below(2);
    uint32_t how = g.below(3);
    std::vector<MF> v;
    uint32_t others = g.below(3);
    for (uint32_t i = 0; i < others; i++) v.push_back(gen_frame(g, ver, 40));
    uint32_t kind = g.below(5);
    auto make = [&](uint32_t n, uint8_t k) {
        MF f;
        switch (kind) {
        case 0: f.k = TEXT; f.id = "TIT2"; f.body.assign(n, 'x'); for (size_t i = 0; i + 1 < f.body.size(); i++) f.body[i] = (uint8_t)(1 + i % 250); f.body.back() = 0; break;
        case 1: { f.k = TEXT; f.id = "TALB"; f.enc = 1; f.body = {0xFF, 0xFE}; for (uint32_t i = 0; i < n / 2; i++) { f.body.push_back((uint8_t)(i + 1)); f.body.push_back((uint8_t)(1 + i % 100)); } f.body.push_back(0); f.body.push_back(0); break; }
        case 2: f.k = COMM; f.id = "COMM"; f.desc = {'d', 0}; f.body.assign(n, 'c'); for (size_t i = 0; i + 1 < f.body.size(); i++) f.body[i] = (uint8_t)(1 + i % 251); f.body.back() = 0; break;
        case 3: if (how != 0) { f.k = RAW; f.id = "PRIV"; f.body = fill(k, n); break; } // fallthrough: raw frames cannot be set
        [[fallthrough]];
        default: f.k = APIC; f.id = "APIC"; f.mime = cstr("image/png"); f.ptype = 3; f.enc = 1; f.desc = {0xFF, 0xFE, 0, 0}; f.body = fill(k, n); break;
        }
        return f;
    };
    MF f;
    if (g.chance(2, 5)) { // a size exactly at a boundary of an encoding
        uint32_t bits = g.chance(1, 200) ? g.range(22, 24) : g.chance(1, 40) ? g.range(18, 21) : g.chance(1, 2) ? g.pick<uint32_t>({7, 14, 8, 16, 15}) : g.range(7, 17), b = (1u << bits) + g.below(3) - 1, over = 0;
        MF one = make(16, 1);
        switch (g.below(4)) {
        case 0: over = (uint32_t)(one.psize() - 16); c.label("payload_at_boundary"); break;             // the payload
        case 1: over = (uint32_t)(one.psize() - 16) + 10; c.label("frame_at_boundary"); break;          // frame with header
        case 2: { over = (uint32_t)(one.psize() - 16) + 10; for (auto& x : v) over += x.psize() + 10; if (how == 0) { over = (uint32_t)(one.psize() - 16) + 10 + 2048; for (uint32_t i = 0; i < v.size(); i++) over += 10 + 1 + i + 4; } // the whole tag
            c.label("tag_at_boundary"); if (g.below(2)) over += 10; break; }
        default: over = 0; c.label("contents_at_boundary"); break;                                       // the contents alone
        }
        f = make(b > over + 1 ? b - over : b, g.byte());
    } else f = make(big_size(g), g.byte());
    uint32_t n = (uint32_t)f.body.size();
    c.label(n < 128 ? "size<128" : n < 16384 ? "size<16K" : n < 65536 ? "size<64K" : n < 2097152 ? "size<2M" : n < 8000000 ? "size<8M" : "size>=8M");
    size_t at = g.below((uint32_t)v.size() + 1);
    Bytes audio = cat({'A', 'U', 'D', 'I', 'O'}, g.blob(g.size(200)));
    c.log("v2.%d, %s with %zu bytes at #%zu of %zu", ver, kind_name(f.k), f.body.size(), at, v.size() + 1);
    c.nontrivial = n >= 128; c.label(kind_name(f.k)); c.label(ver == 4 ? "v2.4" : "v2.3");
    World w;
    if (how == 0) { // set through the API
        c.label("set");
        Heap h(Bytes{'I', 'D', '3', (uint8_t)ver, 0, 0, 0, 0, 0, 0});
        w.tag = A(ID3v2_Tag_new(A(ID3v2_read_tag_header_from_buffer(h.p)), 0)); w.ver = ver;
        auto set = [&](const MF& x) {
            Heap d(x.desc), b(x.body), m(x.mime);
            if (x.k == TEXT) { ID3v2_TextFrameInput in = {x.id.c_str(), (const char*)x.flags, b.p}; A(ID3v2_Tag_set_text_frame(w.tag, &in)); m_set(w, x); }
            if (x.k == COMM) { ID3v2_CommentFrameInput in = {(const char*)x.flags, (const char*)x.lang, d.p, b.p}; A(ID3v2_Tag_add_comment_frame(w.tag, &in)); m_add(w, x); }
            if (x.k == APIC) { ID3v2_ApicFrameInput in = {(const char*)x.flags, m.p, d.p, (char)x.ptype, (int)b.n, b.p}; A(ID3v2_Tag_add_apic_frame(w.tag, &in)); m_add(w, x); }
        };
        std::vector<MF> small; // small neighbours as the API makes them
        for (size_t i = 0; i <= v.size(); i++) { if (i == at) set(f); if (i < v.size()) { MF s; s.k = TEXT; s.id = i ? "TPE1" : "TRCK"; s.body = cstr(std::string(i + 3, 'n')); set(s); } }
        put_file(p, audio);
    } else { // read from a file, written to the same file
        c.label("loaded");
        v.insert(v.begin() + (long)at, f);
        RefTag t; t.ver = ver; t.frames = v; t.padding = g.chance(1, 2) ? 0 : g.size(3000);
        put_file(p, cat(t.encode(), audio));
        w.tag = A(ID3v2_read_tag(p.c_str())); CHECK(w.tag, "the tag is not recognised");
        w.m = v; w.ver = ver; w.padding = t.padding; w.tag_size = t.body_size();
        expect(v, w.tag, "reading");
        CHECK(w.tag->header->tag_size == t.body_size(), "tag size %u, expected %u", w.tag->header->tag_size, t.body_size());
        CHECK(w.tag->padding_size == (int)t.padding, "padding %d, expected %u", w.tag->padding_size, t.padding);
    }
    expect(w.m, w.tag, "in memory");
    A(ID3v2_write_tag(p.c_str(), w.tag));
    Bytes want = cat(written_bytes(w), audio);
    expect_file(p, want, "the written file");
    world_free(w);
    ID3v2_Tag* t = A(ID3v2_read_tag(p.c_str())); CHECK(t, "the written tag is not recognised");
    expect(w.m, t, "read back");
    A(ID3v2_Tag_free(t));
    if (how == 2) { A(ID3v2_delete_tag(p.c_str())); expect_file(p, audio, "deleting the tag"); c.label("delete"); }
}

static void c19(Gen& g, Case& c)
{
    World w; start_world(g, w, c);
    OpCfg o; o.maxlen = g.pick<uint32_t>({16, 40, 300}); o.focus = true; o.burst = true; OpCfg add = o; add.dels = false;
    uint32_t n0 = g.below(7); for (uint32_t i = 0; i < n0; i++) do_op(g, w, c, add);
    uint32_t n = 1 + g.below(7);
    std::string p = fpath("c19");
    for (uint32_t i = 0; i < n; i++) {
        uint32_t k = m_count(w.m, "COMM") + m_count(w.m, "APIC");
        if (k >= 2) c.nontrivial = true;
        if (k >= 4) c.label(">=4 repeated");
        do_op(g, w, c, o);
        expect(w.m, w.tag, "after the last call");
        ID3v2_FrameList* l = A(ID3v2_Tag_get_comment_frames(w.tag)); std::vector<MF> cm, am; for (auto& f : w.m) { if (f.id == "COMM") cm.push_back(f); if (f.id == "APIC") am.push_back(f); }
        std::string d = diff(cm, snap_list(l)); A(ID3v2_FrameList_unlink(l)); CHECK(d == "", "get_comment_frames: %s", d.c_str());
        l = A(ID3v2_Tag_get_apic_frames(w.tag)); d = diff(am, snap_list(l)); A(ID3v2_FrameList_unlink(l)); CHECK(d == "", "get_apic_frames: %s", d.c_str());
        if (g.chance(1, 6)) { // through a file
            c.log("write and read"); c.label("reread");
            put_file(p, {'x', 'y'}); A(ID3v2_write_tag(p.c_str(), w.tag)); A(ID3v2_Tag_free(w.tag));
            w.tag = A(ID3v2_read_tag(p.c_str())); CHECK(w.tag, "the written tag is not found");
            expect(w.m, w.tag, "read back"); w.tag_size = w.tag->header->tag_size;
        }
    }
    check_lookups(g, w);
    world_free(w);
}

void c14(Gen&, Case&);
void c15(Gen&, Case&);
void c20(Gen&, Case&);
void c21(Gen&, Case&);
void c22(Gen&, Case&);
void c23(Gen&, Case&);

const Prop PROPS[] = {
    // id, run, quick, thorough, fuzz runs per job, cpu limit, rule
    {"C01", c01, 300000, 30000000, 12000, 20, "non-trivial: the reader returned a tag, which was then walked, written back, re-read and freed"},
    {"C02", c02, 300000, 30000000, 8000, 20, "non-trivial: the generated tag has at least one frame"},
    {"C03", c03, 100000, 10000000, 6000, 20, "non-trivial: at least one edit and at least one frame written"},
    {"C04", c04, 100000, 10000000, 4000, 20, "non-trivial: there is at least one byte behind the original tag"},
    {"C05", c05, 45000, 4500000, 2500, 20, "non-trivial: the written tag has at least one frame"},
    {"C06", c06, 140000, 14000000, 4000, 20, "non-trivial: at least one call replaced or removed something or was a no-op on a non-empty tag"},
    {"C07", c07, 45000, 4500000, 2500, 20, "non-trivial: at least one frame of the file is left untouched"},
    {"C08", c08, 120000, 12000000, 8000, 20, "non-trivial: at least one edit, or one compat tag, was made before everything was released"},
    {"C09", c09, 200000, 20000000, 8000, 20, "non-trivial: the observed tag has at least one frame"},
    {"C10", c10, 3000000, 4000000000, 200000, 20, "non-trivial: the string is not empty"},
    {"C11", c11, 2000000, 4000000000, 150000, 20, "non-trivial: every case (ten header bytes in buffer and file)"},
    {"C12", c12, 200000, 20000000, 6000, 20, "non-trivial: a tag was returned"},
    {"C13", c13, 100000, 10000000, 8000, 20, "non-trivial: at least one compat edit, or an input without tag"},
    {"C14", c14, 2400, 180000, 0, 60, "non-trivial: at least one failing call was injected before the file started to be replaced"},
    {"C15", c15, 8000, 800000, 0, 60, "non-trivial: at least two threads, each with at least one edit or file operation"},
    {"C16", c16, 500000, 50000000, 12000, 20, "non-trivial: the cut, the overlong frame or the padding lies behind the header and before the end of the frames"},
    {"C17", c17, 90000, 9000000, 8000, 20, "non-trivial: the tag has at least one frame"},
    {"C18", c18, 30000, 2000000, 0, 60, "non-trivial: the payload has at least 128 bytes"},
    {"C19", c19, 140000, 14000000, 8000, 20, "non-trivial: a call was made while the tag had at least two comment/picture frames"},
    {"C20", c20, 40000, 4000000, 0, 30, "non-trivial: at least one call that rewrites the target was made"},
    {"C21", c21, 200000, 20000000, 8000, 20, "non-trivial: every case (something the call acts on is missing)"},
    {"C22", c22, 16000, 1600000, 0, 60, "non-trivial: the scenario shows more than 200 characters of results"},
    {"C23", c23, 150000, 15000000, 8000, 20, "non-trivial: at least one field or byte was changed directly"},
};
const int N_PROPS = sizeof PROPS / sizeof *PROPS;
