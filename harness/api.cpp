#include "api.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <linux/capability.h>

thread_local int g_in_api = 0;
int g_pre_errno = 0;
uint32_t g_heap_shift = 0;

static bool caps(unsigned* eff, const unsigned* set)
{
    struct __user_cap_header_struct h = {_LINUX_CAPABILITY_VERSION_3, 0};
    struct __user_cap_data_struct d[2];
    if (syscall(SYS_capget, &h, d)) return false;
    if (eff) *eff = d[0].effective;
    if (set) { d[0].effective = *set; return syscall(SYS_capset, &h, d) == 0; }
    return true;
}
Unprivileged::Unprivileged()
{
    if (!caps(&saved, nullptr)) return;
    unsigned e = saved & ~(1u << CAP_DAC_OVERRIDE | 1u << CAP_DAC_READ_SEARCH);
    changed = caps(nullptr, &e);
}
Unprivileged::~Unprivileged() { if (changed) caps(nullptr, &saved); }

// ---- files -------------------------------------------------------------
std::string fpath(const char* name) { return scratch_dir() + "/" + name; }
void put_file(const std::string& p, const Bytes& b)
{
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) { perror(p.c_str()); _exit(3); }
    size_t o = 0;
    while (o < b.size()) { ssize_t k = write(fd, b.data() + o, b.size() - o); if (k <= 0) { perror("write"); _exit(3); } o += (size_t)k; }
    close(fd);
}
bool get_file(const std::string& p, Bytes& b)
{
    int fd = open(p.c_str(), O_RDONLY);
    if (fd < 0) return false;
    struct stat st; fstat(fd, &st);
    b.resize((size_t)st.st_size);
    size_t o = 0;
    while (o < b.size()) { ssize_t k = read(fd, b.data() + o, b.size() - o); if (k <= 0) break; o += (size_t)k; }
    b.resize(o);
    close(fd);
    return true;
}

// ---- observation -------------------------------------------------------
bool has_bom(const Bytes& b) { return b.size() >= 2 && ((b[0] == 0xFF && b[1] == 0xFE) || (b[0] == 0xFE && b[1] == 0xFF)); }
static bool bom_at(const uint8_t* p) { return (p[0] == 0xFF && p[1] == 0xFE) || (p[0] == 0xFE && p[1] == 0xFF); }
size_t str_size(const uint8_t* p, bool wide)
{
    size_t n = 0;
    if (!wide) { while (p[n]) n++; return n + 1; }
    while (p[n] || p[n + 1]) n += 2;
    return n + 2;
}
static Bytes grab(const char* p, size_t n, const char* what)
{
    if (n && !p) fail(std::string(what) + " is NULL");
    return Bytes((const uint8_t*)p, (const uint8_t*)p + n);
}
static Bytes grab_str(const char* p, bool wide, const char* what)
{
    if (!p) fail(std::string(what) + " is NULL");
    const uint8_t* q = (const uint8_t*)p;
    return Bytes(q, q + str_size(q, wide || (q[0] && bom_at(q))));
}
MF snap_frame(ID3v2_Frame* f)
{
    MF r;
    CHECK(f->header, "frame without header");
    r.id.assign(f->header->id, 4);
    memcpy(r.flags, f->header->flags, 2);
    r.k = kind_of(r.id);
    CHECK(f->data, "frame %s without data", hex(Bytes(r.id.begin(), r.id.end())).c_str());
    if (r.k == TEXT) {
        ID3v2_TextFrameData* d = ((ID3v2_TextFrame*)f)->data;
        CHECK(d->size >= 0, "text of negative size %d", d->size);
        r.enc = (uint8_t)d->encoding;
        r.body = grab(d->text, (size_t)d->size, "text");
    } else if (r.k == COMM) {
        ID3v2_CommentFrameData* d = ((ID3v2_CommentFrame*)f)->data;
        CHECK(d->size >= 0, "comment of negative size %d", d->size);
        r.enc = (uint8_t)d->encoding;
        memcpy(r.lang, d->language, 3);
        r.desc = grab_str(d->short_description, r.enc == 2, "short_description");
        r.body = grab(d->comment, (size_t)d->size, "comment");
    } else if (r.k == APIC) {
        ID3v2_ApicFrameData* d = ((ID3v2_ApicFrame*)f)->data;
        CHECK(d->picture_size >= 0, "picture of negative size %d", d->picture_size);
        r.enc = (uint8_t)d->encoding;
        r.mime = grab_str(d->mime_type, false, "mime_type");
        r.ptype = (uint8_t)d->picture_type;
        r.desc = grab_str(d->description, r.enc == 2, "description");
        r.body = grab(d->data, (size_t)d->picture_size, "picture");
    } else {
        CHECK(f->header->size >= 0, "frame of negative size %d", f->header->size);
        r.body = grab((const char*)f->data, (size_t)f->header->size, "payload");
    }
    CHECK(f->header->size == (int)r.psize(), "frame %s reports size %d, its contents take %u bytes", hex(Bytes(r.id.begin(), r.id.end())).c_str(), f->header->size, r.psize());
    return r;
}
std::vector<MF> snap_list(ID3v2_FrameList* l)
{
    std::vector<MF> r;
    size_t n = 0;
    for (; l && l->frame; l = l->next) {
        r.push_back(snap_frame(l->frame));
        if (++n > 2000000) fail("frame list does not end");
    }
    return r;
}
std::vector<MF> snap(ID3v2_Tag* t) { return snap_list(t->frames); }
void expect(const std::vector<MF>& want, ID3v2_Tag* t, const char* when)
{
    std::string d = diff(want, snap(t));
    if (d != "") fail(std::string(when) + ": " + d);
}

// ---- named calls -------------------------------------------------------
#define N(name, id, fn) {name, id, ID3v2_Tag_get_##fn##_frame, ID3v2_Tag_set_##fn, ID3v2_Tag_delete_##fn, tag_get_##fn, tag_set_##fn}
const Named NAMED[] = {
    N("title", "TIT2", title), N("artist", "TPE1", artist), N("album", "TALB", album), N("album_artist", "TPE2", album_artist),
    N("genre", "TCON", genre), N("track", "TRCK", track), N("year", "TYER", year), N("disc_number", "TPOS", disc_number), N("composer", "TCOM", composer),
};
#undef N

// ---- model -------------------------------------------------------------
int m_find(const std::vector<MF>& m, const std::string& id, int nth)
{
    for (size_t i = 0; i < m.size(); i++) if (m[i].id == id && nth-- == 0) return (int)i;
    return -1;
}
uint32_t m_count(const std::vector<MF>& m, const std::string& id) { uint32_t n = 0; for (auto& f : m) n += f.id == id; return n; }
void m_add(World& w, const MF& f) { w.m.push_back(f); w.tag_size += f.psize() + 10; }
void m_set(World& w, const MF& f)
{
    int i = m_find(w.m, f.id);
    if (i < 0) { m_add(w, f); return; }
    w.tag_size += f.psize() - w.m[(size_t)i].psize();
    w.m[(size_t)i] = f;
}
void m_del(World& w, int at)
{
    if (at < 0) return;
    w.tag_size -= w.m[(size_t)at].psize() + 10;
    w.m.erase(w.m.begin() + at);
}

static MF text_mf(const std::string& id, const Bytes& text, const Bytes& flags)
{
    MF f; f.k = TEXT; f.id = id; memcpy(f.flags, flags.data(), 2); f.enc = has_bom(text); f.body = text; return f;
}
static Bytes gen_flag2(Gen& g) { if (!g.chance(1, 2)) return {0, 0}; uint8_t a = g.byte(), b = g.byte(); return {a, b}; }
static void intact(const Heap& h, const char* what) { if (!h.intact()) fail(std::string("the caller's ") + what + " was modified"); }

static Bytes gen_mime(Gen& g)
{
    if (g.chance(1, 6)) return gen_iso(g, g.chance(1, 8) ? 600 : 60);
    return cstr(g.pick<const char*>({"image/png", "image/jpeg", "", "-->", "image/"}));
}
static Bytes gen_desc(Gen& g, uint32_t maxlen, bool wide) { return wide ? gen_utf16(g, maxlen / 2, (int)g.below(2)) : gen_iso(g, maxlen); }

// Contents of a frame as the string argument that produces them (empty: none does)
static Bytes as_arg(const MF& f, const Bytes& s)
{
    if (f.enc != has_bom(s) || s.empty()) return {};
    Bytes z = s; z.insert(z.end(), 4, 0);
    return str_size(z.data(), has_bom(s)) == s.size() ? s : Bytes();
}
// Rarely, the argument repeats what the frame holds
static Bytes text_arg(Gen& g, const World& w, Case& c, const std::string& id, uint32_t maxlen, bool* wide)
{
    int i;
    if (g.chance(1, 12) && (i = m_find(w.m, id)) >= 0) { Bytes b = as_arg(w.m[(size_t)i], w.m[(size_t)i].body); if (!b.empty()) { *wide = has_bom(b); c.label("same_contents"); return b; } }
    return gen_arg(g, maxlen, wide);
}
static void comment_frame(Gen& g, World& w, Case& c, const OpCfg& o, bool add)
{
    bool wide; Bytes text = text_arg(g, w, c, "COMM", o.maxlen, &wide);
    bool dwide = o.mixed && g.chance(1, 4) ? !wide : wide;
    Bytes desc = gen_desc(g, o.maxlen / 4, dwide), flags = gen_flag2(g);
    std::string lang = gen_lang(g, false);
    if (g.chance(1, 12)) { int i = m_find(w.m, "COMM"); if (i >= 0) { const MF& s = w.m[(size_t)i]; Bytes d = as_arg(s, s.desc); if (!d.empty() && wide == s.enc) desc = d; if (g.chance(1, 2)) flags.assign(s.flags, s.flags + 2); if (g.chance(1, 2) && s.lang[0] && s.lang[1] && s.lang[2]) lang.assign((const char*)s.lang, 3); } }
    MF f; f.k = COMM; f.id = "COMM"; memcpy(f.flags, flags.data(), 2); f.enc = wide; memcpy(f.lang, lang.data(), 3); f.desc = desc; f.body = text;
    c.log("%s_comment_frame(%s)", add ? "add" : "set", show(f).c_str());
    Heap hf(flags), hl(cstr(lang)), hd(desc), ht(text);
    ID3v2_CommentFrameInput in = {hf.p, hl.p, hd.p, ht.p};
    if (add) { A(ID3v2_Tag_add_comment_frame(w.tag, &in)); m_add(w, f); c.label("add_comment"); }
    else { if (m_count(w.m, "COMM") > 1) c.label("set_first_of_many"); A(ID3v2_Tag_set_comment_frame(w.tag, &in)); m_set(w, f); c.label("set_comment_frame"); }
    intact(hf, "flags"); intact(hl, "language"); intact(hd, "description"); intact(ht, "comment");
    CHECK(in.flags == hf.p && in.language == hl.p && in.short_description == hd.p && in.comment == ht.p, "the caller's input structure was modified");
}
static void apic_frame(Gen& g, World& w, Case& c, const OpCfg& o, bool add)
{
    bool wide = g.below(2);
    Bytes desc = gen_desc(g, o.maxlen / 4, wide), flags = gen_flag2(g), mime = gen_mime(g), data = g.blob(g.size(o.maxlen));
    MF f; f.k = APIC; f.id = "APIC"; memcpy(f.flags, flags.data(), 2); f.enc = wide; f.mime = mime; f.desc = desc; f.body = data;
    f.ptype = g.chance(1, 4) ? g.byte() : (uint8_t)g.below(21);
    if (g.chance(1, 8)) { // parts of what the tag holds already
        int i = m_find(w.m, "APIC");
        if (i >= 0) { const MF& s = w.m[(size_t)i]; Bytes d = as_arg(s, s.desc); uint32_t k = g.byte(); if (k & 1) data = f.body = s.body; if (k & 2) mime = f.mime = s.mime; if (k & 4) f.ptype = s.ptype; if ((k & 8) && !d.empty()) { desc = f.desc = d; f.enc = s.enc; } if (k & 16) { flags.assign(s.flags, s.flags + 2); memcpy(f.flags, s.flags, 2); } c.label("same_contents"); }
    }
    c.log("%s_apic_frame(%s)", add ? "add" : "set", show(f).c_str());
    Heap hf(flags), hm(mime), hd(desc), hp(data);
    ID3v2_ApicFrameInput in = {hf.p, hm.p, hd.p, (char)f.ptype, (int)data.size(), hp.p};
    if (add) { A(ID3v2_Tag_add_apic_frame(w.tag, &in)); m_add(w, f); c.label("add_apic"); }
    else { if (m_count(w.m, "APIC") > 1) c.label("set_first_of_many"); A(ID3v2_Tag_set_apic_frame(w.tag, &in)); m_set(w, f); c.label("set_apic_frame"); }
    intact(hf, "flags"); intact(hm, "mime type"); intact(hd, "description"); intact(hp, "picture");
}

void do_op(Gen& g, World& w, Case& c, const OpCfg& o)
{
    uint32_t op = o.focus ? g.pick<uint32_t>({4, 5, 4, 5, 3, 6, 7, 8, 11, 12, 11, 12, 13, 14, 0, 10}) : g.below(15);
    if (!o.dels && op >= 9) op -= 9;
    if (o.burst && (op == 4 || op == 5) && g.chance(1, 64) && g.chance(1, 2)) { // many at once
        std::vector<MF> v = gen_crowd(g, true);
        c.log("%zu comments/pictures added", v.size()); c.label("crowd_added");
        for (auto& f : v) {
            Heap d(f.desc), b(f.body), m(f.mime);
            if (f.k == COMM) { ID3v2_CommentFrameInput in = {"\0\0", "eng", d.p, b.p}; A(ID3v2_Tag_add_comment_frame(w.tag, &in)); }
            else { ID3v2_ApicFrameInput in = {"\0\0", m.p, d.p, (char)f.ptype, (int)b.n, b.p}; A(ID3v2_Tag_add_apic_frame(w.tag, &in)); }
            m_add(w, f);
        }
        return;
    }
    switch (op) {
    case 0: case 1: {
        const Named& n = NAMED[g.below(N_NAMED)];
        bool wide; Heap t(text_arg(g, w, c, n.id, o.maxlen, &wide));
        c.log("set_%s(%s)", n.name, hex(t.orig).c_str());
        if (m_find(w.m, n.id) >= 0) c.label("replace_text");
        A(n.set(w.tag, t.p));
        m_set(w, text_mf(n.id, t.orig, {0, 0}));
        intact(t, "text"); c.label("set_named");
        break; }
    case 2: {
        std::string id = gen_text_id(g);
        if (g.chance(1, 3)) for (auto& f : w.m) if (f.k == TEXT) { id = f.id; if (g.chance(1, 2)) break; }
        bool wide; Bytes text = text_arg(g, w, c, id, o.maxlen, &wide), flags = gen_flag2(g);
        c.log("set_text_frame(%s fl=%02x%02x %s)", id.c_str(), flags[0], flags[1], hex(text).c_str());
        if (m_find(w.m, id) >= 0) c.label("replace_text");
        Heap hi(cstr(id)), hf(flags), ht(text);
        ID3v2_TextFrameInput in = {hi.p, hf.p, ht.p};
        A(ID3v2_Tag_set_text_frame(w.tag, &in));
        m_set(w, text_mf(id, text, flags));
        intact(hi, "id"); intact(hf, "flags"); intact(ht, "text"); c.label("set_text_frame");
        break; }
    case 3: {
        bool wide; Heap t(text_arg(g, w, c, "COMM", o.maxlen, &wide)); std::string lang = gen_lang(g, false); Heap hl(cstr(lang));
        c.log("set_comment(%s, %s)", lang.c_str(), hex(t.orig).c_str());
        MF f; f.k = COMM; f.id = "COMM"; f.enc = wide; memcpy(f.lang, lang.data(), 3); f.body = t.orig;
        f.desc = wide ? Bytes{0xFF, 0xFE, 0, 0} : Bytes{0};
        if (m_count(w.m, "COMM") > 1) c.label("set_first_of_many");
        A(ID3v2_Tag_set_comment(w.tag, hl.p, t.p));
        m_set(w, f); intact(t, "comment"); intact(hl, "language"); c.label("set_comment");
        break; }
    case 4: comment_frame(g, w, c, o, true); break;
    case 5: apic_frame(g, w, c, o, true); break;
    case 6: comment_frame(g, w, c, o, false); break;
    case 7: apic_frame(g, w, c, o, false); break;
    case 8: {
        int at = m_find(w.m, "APIC"); const MF* s = at >= 0 && g.chance(1, 12) ? &w.m[(size_t)at] : nullptr; if (s) c.label("same_contents");
        Heap hm(s && g.chance(1, 2) ? s->mime : gen_mime(g)), hp(s ? s->body : g.blob(g.size(o.maxlen)));
        c.log("set_album_cover(%s, %zu bytes)", hex(hm.orig).c_str(), hp.n);
        MF f; f.k = APIC; f.id = "APIC"; f.enc = 1; f.mime = hm.orig; f.ptype = 3; f.desc = {0xFF, 0xFE, 0, 0}; f.body = hp.orig;
        if (m_count(w.m, "APIC") > 1) c.label("set_first_of_many");
        A(ID3v2_Tag_set_album_cover(w.tag, hm.p, (int)hp.n, hp.p));
        m_set(w, f); intact(hm, "mime type"); intact(hp, "picture"); c.label("set_cover");
        break; }
    case 9: {
        const Named& n = NAMED[g.below(N_NAMED)];
        c.log("delete_%s", n.name);
        c.label(m_find(w.m, n.id) >= 0 ? "del_present" : "del_absent");
        A(n.del(w.tag)); m_del(w, m_find(w.m, n.id));
        break; }
    case 10: {
        std::string id = !w.m.empty() && g.chance(3, 4) ? w.m[g.below((uint32_t)w.m.size())].id : gen_any_id(g);
        Heap h(cstr(id));
        c.log("delete_frame(%s)", hex(Bytes(id.begin(), id.end())).c_str());
        c.label(m_find(w.m, id) >= 0 ? "del_present" : "del_absent");
        A(ID3v2_Tag_delete_frame(w.tag, h.p)); m_del(w, m_find(w.m, id)); intact(h, "id");
        break; }
    case 11: case 12: {
        const char* id = op == 11 ? "COMM" : "APIC";
        int n = (int)m_count(w.m, id), i;
        switch (g.below(8)) { case 6: i = n + (int)g.below(3); break; case 7: i = g.pick<int>({-1, -2, 2147483647, -2147483647 - 1, 256, 65536}); break; default: i = n ? (int)g.below((uint32_t)n) : 0; }
        c.log("delete_%s_frame(%d of %d)", op == 11 ? "comment" : "apic", i, n);
        if (op == 11) A(ID3v2_Tag_delete_comment_frame(w.tag, i)); else A(ID3v2_Tag_delete_apic_frame(w.tag, i));
        if (i >= 0 && i < n) { c.label(i == 0 ? "del_idx_first" : i == n - 1 ? "del_idx_last" : "del_idx_middle"); m_del(w, m_find(w.m, id, i)); }
        else c.label("del_idx_outside");
        break; }
    case 13: c.log("delete_comment"); c.label("del_comment"); A(ID3v2_Tag_delete_comment(w.tag)); m_del(w, m_find(w.m, "COMM")); break;
    default: c.log("delete_album_cover"); c.label("del_cover"); A(ID3v2_Tag_delete_album_cover(w.tag)); m_del(w, m_find(w.m, "APIC")); break;
    }
}

static void check_list(World& w, ID3v2_FrameList* l, const std::string& id, const char* fn)
{
    std::vector<MF> want; for (auto& f : w.m) if (f.id == id) want.push_back(f);
    std::string d = diff(want, snap_list(l));
    if (d != "") fail(std::string(fn) + "(" + id + "): " + d);
    // the very frames of the tag, in order
    ID3v2_FrameList* t = w.tag->frames;
    for (; l && l->frame; l = l->next) {
        while (t && t->frame && t->frame != l->frame) t = t->next;
        if (!t || !t->frame) fail(std::string(fn) + "(" + id + ") does not return the frames of the tag in order");
        t = t->next;
    }
}
void check_lookups(Gen& g, World& w)
{
    std::set<std::string> ids;
    for (auto& f : w.m) { ids.insert(f.id); if (ids.size() > 12) break; }
    ids.insert(gen_any_id(g));
    if (!w.m.empty()) { // a near miss
        std::string s = w.m[g.below((uint32_t)w.m.size())].id;
        uint32_t at = g.below(4); if (g.chance(1, 3) && s[at] >= 'A' && s[at] <= 'Z') s[at] = (char)(s[at] + 32); else s[at] = s[at] == 'Q' ? 'R' : 'Q'; ids.insert(s);
    }
    for (auto& id : ids) {
        Heap h(cstr(id));
        ID3v2_Frame* f = A(ID3v2_Tag_get_frame(w.tag, h.p));
        int i = m_find(w.m, id);
        if ((i >= 0) != (f != nullptr)) failf("get_frame(%s) returns %s", hex(Bytes(id.begin(), id.end())).c_str(), f ? "a frame that is not in the tag" : "nothing although the tag has one");
        if (f) {
            std::string d = diff(w.m[(size_t)i], snap_frame(f));
            if (d != "") fail("get_frame(" + id + ") is not the first frame of that id: " + d);
            ID3v2_FrameList* t = w.tag->frames;
            for (int k = 0; k < i && t; k++) t = t->next;
            if (!t || t->frame != f) fail("get_frame(" + id + ") is not the first frame of that id");
        }
        ID3v2_FrameList* l = A(ID3v2_Tag_get_frames(w.tag, h.p));
        check_list(w, l, id, "get_frames");
        A(ID3v2_FrameList_unlink(l));
    }
    for (uint32_t k = 0; k < N_NAMED; k++) {
        ID3v2_Frame* f = (ID3v2_Frame*)A(NAMED[k].get(w.tag));
        int i = m_find(w.m, NAMED[k].id);
        if ((i >= 0) != (f != nullptr)) failf("get_%s_frame returns %s", NAMED[k].name, f ? "a frame that is not in the tag" : "nothing although the tag has one");
        if (f) { std::string d = diff(w.m[(size_t)i], snap_frame(f)); if (d != "") failf("get_%s_frame: %s", NAMED[k].name, d.c_str()); }
    }
    ID3v2_Frame* f = (ID3v2_Frame*)A(ID3v2_Tag_get_comment_frame(w.tag));
    int i = m_find(w.m, "COMM");
    if ((i >= 0) != (f != nullptr)) fail("get_comment_frame disagrees with the frames of the tag");
    if (f) { std::string d = diff(w.m[(size_t)i], snap_frame(f)); if (d != "") fail("get_comment_frame: " + d); }
    f = (ID3v2_Frame*)A(ID3v2_Tag_get_album_cover_frame(w.tag));
    i = m_find(w.m, "APIC");
    if ((i >= 0) != (f != nullptr)) fail("get_album_cover_frame disagrees with the frames of the tag");
    if (f) { std::string d = diff(w.m[(size_t)i], snap_frame(f)); if (d != "") fail("get_album_cover_frame: " + d); }
    ID3v2_FrameList* l = A(ID3v2_Tag_get_comment_frames(w.tag));
    check_list(w, l, "COMM", "get_comment_frames");
    A(ID3v2_FrameList_unlink(l));
    l = A(ID3v2_Tag_get_apic_frames(w.tag));
    check_list(w, l, "APIC", "get_apic_frames");
    A(ID3v2_FrameList_unlink(l));
}

static uint32_t gen_padding(Gen& g) { return g.size(g_big && g.chance(1, 40) ? 400000 : 5000); }
void world_fresh(Gen& g, World& w, Case& c)
{
    w = World();
    switch (g.below(4)) {
    case 0: w.tag = A(ID3v2_Tag_new_empty()); c.log("new_empty"); break;
    case 1: w.padding = gen_padding(g); w.tag = A(ID3v2_Tag_new(NULL, (int)w.padding)); c.log("Tag_new(NULL, %u)", w.padding); break;
    default: {
        w.ver = 3 + (int)g.below(2); w.padding = g.chance(1, 2) ? 0 : gen_padding(g);
        Heap h(Bytes{'I', 'D', '3', (uint8_t)w.ver, 0, 0, 0, 0, 0, 0});
        ID3v2_TagHeader* hd = A(ID3v2_read_tag_header_from_buffer(h.p));
        if (!hd) fail("a valid tag header is not recognised");
        w.tag = A(ID3v2_Tag_new(hd, (int)w.padding)); c.log("Tag_new(v2.%d header, %u)", w.ver, w.padding); break; }
    }
    if (!w.tag) fail("no tag created");
    c.label("fresh"); c.label(w.ver == 4 ? "v2.4" : "v2.3");
}
void world_loaded(World& w, RefTag& t)
{
    w = World();
    Heap h(t.encode());
    w.tag = A(ID3v2_read_tag_from_buffer(h.p, (int)h.n));
    if (!w.tag) fail("a well-formed tag is not recognised");
    w.m = t.frames; w.ver = t.ver; w.minor = t.minor; w.flags = t.flags & ~0x50; w.padding = t.padding; w.tag_size = t.body_size();
}
void world_free(World& w) { A(ID3v2_Tag_free(w.tag)); w.tag = nullptr; }
// Frames are written as they are: only a version 2.4 tag all of whose frames say so is unsynchronised
uint8_t written_flags(const World& w)
{
    bool u = w.ver == 4;
    for (auto& f : w.m) u = u && (f.flags[1] & 0x02);
    return (uint8_t)(w.flags & ~0x50 & (u ? 0xFF : 0x7F));
}
void world_after_write(World& w)
{
    w.flags = written_flags(w);
    if (w.padding < 2048) w.padding = 2048;
    w.tag_size = w.padding; for (auto& f : w.m) w.tag_size += 10 + f.psize();
}
Bytes written_bytes(const World& w)
{
    RefTag t; t.ver = w.ver; t.minor = w.minor; t.flags = written_flags(w); t.frames = w.m; t.padding = w.padding < 2048 ? 2048 : w.padding;
    return t.encode();
}

uint32_t gen_maxlen(Gen& g) { return g.pick<uint32_t>({40, 40, 300, 300, 300, 1200, 5000, 40, 300, 300, 40, 300, 2500, 300, 40, 70000}); }
Bytes gen_audio(Gen& g, uint32_t max)
{
    uint32_t big = 0;
    if (g_big && g.chance(1, 64) && g.chance(1, 12)) switch (g.below(8)) { // rarely, much
        case 0: case 1: case 2: big = g.range(60000, 300000); break;
        case 3: case 4: big = (1u << g.range(16, 20)) + g.below(3) - 1; break;
        case 5: case 6: big = g.range(1000000, 3000000); break;
        default: big = g.chance(1, 3) ? g.range(16777216, 20000000) : g.range(4000000, 9000000); break;
    }
    Bytes a = g.blob(big ? big : g.size(max));
    auto put = [&](const Bytes& h) { a.insert(a.begin(), h.begin(), h.end()); };
    switch (g.below(12)) {
    case 0: a.clear(); break;
    case 8: { // a run of one byte in front or behind
        uint32_t n = g.chance(1, 2) ? 1 + g.below(300) : g.size(5000); uint8_t x = g.pick<uint8_t>({0, 0, 0, 0xFF, ' ', 0x55});
        if (g.chance(2, 3)) { put(Bytes(n, x)); if (g.chance(1, 2)) { size_t k = a.size(); a.resize(k < n + 2 ? n + 2 : k); a[n] = 0xFF; a[n + 1] = 0xFB; } } else a.insert(a.end(), n, x);
        break; }
    case 9: { // other tags
        std::string s = g.pick<const char*>({"APETAGEX", "LYRICSBEGIN", "LYRICS200", "TAG+", "RIFF", "Xing", "LAME3.100"});
        Bytes v(s.begin(), s.end()); v.resize(g.pick<uint32_t>({8, 12, 32, 100}), 0);
        if (g.chance(1, 2)) put(v); else { a.insert(a.end(), v.begin(), v.end()); if (g.chance(1, 2)) { Bytes t(128, ' '); memcpy(t.data(), "TAG", 3); a.insert(a.end(), t.begin(), t.end()); } }
        break; }
    case 1: put({0xFF, 0xFB, 0x90, 0x64}); break;
    case 2: put({'I', 'D', '3', 3, 0, 0, 0, 0, 0, 5, 'T', 'I', 'T', '2'}); break;
    case 3: put({'I', 'D', '3', 2, 0, 0, 0, 0, 0, 5}); break;
    case 4: put({0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 'T', 'I', 'T', '2', 0, 0, 0, 2, 0, 0, 0, 'x'}); break;
    case 5: { Bytes v(128, 0); memcpy(v.data(), "TAG", 3); a.insert(a.end(), v.begin(), v.end()); break; }
    case 6: put({'T', 'I', 'T', '2', 0, 0, 0, 2, 0, 0, 0, 'x'}); break;
    case 7: put({'3', 'D', 'I', 4, 0, 0x10, 0, 0, 0, 5}); break;
    default: break;
    }
    return a;
}
Bytes cat(const Bytes& a, const Bytes& b) { Bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
