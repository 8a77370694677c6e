// C22: results depend only on the arguments and on the files named. A scenario
// is played in a fresh process and again in one with another history, environment
// or memory contents; both must see the same.
#include "api.hpp"
#include <errno.h>
#include <stdarg.h>
#include <algorithm>
#include <fcntl.h>
#include <locale.h>
#include <pthread.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sanitizer/allocator_interface.h>

struct Transcript {
    static const uint32_t MAX = 1 << 18;
    uint32_t len; int done; char text[MAX];
    void add(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        char b[1200]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a);
        if (n < 0) return; if (n >= (int)sizeof b) n = sizeof b - 1;
        if (len + (uint32_t)n + 1 > MAX) return;
        memcpy(text + len, b, (size_t)n); len += (uint32_t)n; text[len++] = '\n';
    }
    void bytes(const char* what, const uint8_t* p, size_t n)
    {
        uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ull; }
        add("%s: %zu bytes %016llx %s", what, n, (unsigned long long)h, hex(Bytes(p, p + (n < 40 ? n : 40)), 40).c_str());
    }
    void bytes(const char* what, const Bytes& b) { bytes(what, b.data(), b.size()); }
};
static void t_frames(Transcript& t, const char* what, const std::vector<MF>& v)
{
    t.add("%s: %zu frames", what, v.size());
    for (auto& f : v) { Bytes p = f.payload(); t.add("  %s %02x%02x", hex(Bytes(f.id.begin(), f.id.end())).c_str(), f.flags[0], f.flags[1]); t.bytes("  payload", p); }
}
static void t_header(Transcript& t, const char* what, ID3v2_TagHeader* h)
{
    if (!h) { t.add("%s: no header", what); return; }
    t.add("%s: v2.%d.%d flags %02x size %u ext %d", what, h->major_version, h->minor_version, (unsigned char)h->flags, h->tag_size, h->extended_header_size);
}
static void t_tag(Transcript& t, const char* what, ID3v2_Tag* g)
{
    if (!g) { t.add("%s: no tag", what); return; }
    t_header(t, what, g->header); t.add("padding %d", g->padding_size); t_frames(t, what, snap(g));
}
static void t_file(Transcript& t, const std::string& p) { Bytes b; if (get_file(p, b)) t.bytes("file", b); else t.add("no file"); }
static void old_times(const std::string& p) { struct timespec ts[2] = {{1000000000, 0}, {1000000000, 0}}; utimensat(AT_FDCWD, p.c_str(), ts, 0); }

struct Player {
    std::vector<std::string> paths; std::vector<Bytes> content;
    World w; bool own = false;
    void drop() { if (w.tag) world_free(w); w = World(); }
    void take(ID3v2_Tag* t) { drop(); w.tag = t; if (t) w.m = snap(t); }
    // one step; what it shows goes to the transcript
    void step(Gen& g, Transcript& t)
    {
        static const char* IDS[] = {"TIT2", "COMM", "APIC", "TPE1", "XXXX", "TXXX", "PRIV"};
        uint32_t op = g.below(24); const std::string& p = paths[g.below((uint32_t)paths.size())];
        if (!w.tag && op < 9) { Case c; World n; world_fresh(g, n, c); w = n; t_tag(t, "new", w.tag); return; }
        switch (op) {
        case 0: case 1: case 2: case 3: case 4: case 5: { // edits
            Case c; OpCfg o; o.maxlen = g.pick<uint32_t>({20, 60, 400}); uint32_t n = 1 + g.below(4);
            for (uint32_t i = 0; i < n; i++) do_op(g, w, c, o);
            w.m = snap(w.tag); t_tag(t, "edited", w.tag); break; }
        case 6: { // lookups
            std::string id = IDS[g.below(7)]; if (!w.m.empty() && g.below(2)) id = w.m[g.below((uint32_t)w.m.size())].id;
            Heap h(cstr(id)); ID3v2_Frame* f = A(ID3v2_Tag_get_frame(w.tag, h.p)); if (f) t_frames(t, "get_frame", {snap_frame(f)}); else t.add("get_frame: none");
            ID3v2_FrameList* l = A(ID3v2_Tag_get_frames(w.tag, h.p)); t_frames(t, "get_frames", snap_list(l)); A(ID3v2_FrameList_unlink(l));
            for (uint32_t k = 0; k < N_NAMED; k++) { f = (ID3v2_Frame*)A(NAMED[k].get(w.tag)); if (f) t_frames(t, NAMED[k].name, {snap_frame(f)}); }
            break; }
        case 7: case 8: A(ID3v2_write_tag(p.c_str(), w.tag)); old_times(p); t_tag(t, "written", w.tag); t_file(t, p); break;
        case 9: case 10: case 11: { ID3v2_Tag* x = A(ID3v2_read_tag(p.c_str())); t_tag(t, "read", x); take(x); break; }
        case 12: A(ID3v2_delete_tag(p.c_str())); old_times(p); t.add("delete_tag"); t_file(t, p); break;
        case 13: { ID3v2_TagHeader* h = A(ID3v2_read_tag_header(p.c_str())); t_header(t, "header", h); A(ID3v2_TagHeader_free(h)); break; }
        case 14: case 15: { // from memory, perhaps damaged
            Bytes b = content[g.below((uint32_t)content.size())]; uint32_t n = g.below(4); for (uint32_t i = 0; i < n && !b.empty(); i++) b[g.below((uint32_t)(b.size() < 60 ? b.size() : 60))] = g.byte();
            if (g.chance(1, 4) && b.size() > 10) b.resize(10 + g.below((uint32_t)b.size() - 10));
            Heap h(b); if (b.size() >= 10) { ID3v2_TagHeader* hd = A(ID3v2_read_tag_header_from_buffer(h.p)); t_header(t, "header of buffer", hd); A(ID3v2_TagHeader_free(hd)); }
            ID3v2_Tag* x = A(ID3v2_read_tag_from_buffer(h.p, (int)h.n)); t_tag(t, "read from buffer", x); take(x); break; }
        case 16: { Heap s(gen_iso(g, 60)); char* u = A(ID3v2_to_unicode(s.p)); t.bytes("to_unicode", (uint8_t*)u, str_size((uint8_t*)u, has_bom(Bytes(u, u + 2)))); if (u != s.p) free(u); break; }
        case 17: case 18: case 19: { // the old API
            ID3v2_tag* ct; uint32_t how = g.below(3); Heap h(content[0]);
            ct = how == 0 ? A(load_tag(p.c_str())) : how == 1 ? A(load_tag_with_buffer(h.p, (int)h.n)) : A(new_tag());
            if (!ct) { t.add("load_tag: none"); break; }
            uint32_t n = g.below(5);
            for (uint32_t i = 0; i < n; i++) {
                const Named& nm = NAMED[g.below(N_NAMED)]; bool wide; Heap v(gen_arg(g, 40, &wide));
                switch (g.below(4)) {
                case 0: A(tag_set_comment(v.p, wide, ct)); break;
                case 1: A(tag_set_album_cover(p.c_str(), ct)); break;
                default: A(nm.cset(v.p, wide, ct));
                }
            }
            t_tag(t, "compat", ct->tag);
            auto shown = [&](const char* what, ID3v2_frame* f) {
                if (!f) { t.add("%s: none", what); return; }
                t.bytes(what, (uint8_t*)f->data, f->size > 0 ? (size_t)f->size : 0);
                if (!strncmp(f->frame_id, "COMM", 4)) { ID3v2_frame_comment_content* k = A(parse_comment_frame_content(f)); if (k) { t.bytes("comment", (uint8_t*)k->text->data, (size_t)(k->text->size > 0 ? k->text->size : 0)); } }
                else if (!strncmp(f->frame_id, "APIC", 4)) { ID3v2_frame_apic_content* k = A(parse_apic_frame_content(f)); if (k) { t.add("apic type %d size %d", k->picture_type, k->picture_size); t.bytes("picture", (uint8_t*)k->data, (size_t)(k->picture_size > 0 ? k->picture_size : 0)); } }
                else { ID3v2_frame_text_content* k = A(parse_text_frame_content(f)); if (k) { t.add("encoding %d", k->encoding); t.bytes("text", (uint8_t*)k->data, (size_t)(k->size > 0 ? k->size : 0)); } }
            };
            for (uint32_t k = 0; k < N_NAMED; k++) shown(NAMED[k].name, A(NAMED[k].cget(ct)));
            shown("comment", A(tag_get_comment(ct))); shown("album_cover", A(tag_get_album_cover(ct)));
            if (g.chance(1, 3)) { A(set_tag(p.c_str(), ct)); old_times(p); t_file(t, p); }
            A(free_tag(ct)); break; }
        case 20: A(remove_tag(p.c_str())); old_times(p); t.add("remove_tag"); t_file(t, p); break;
        case 21: { // the file is replaced behind the library's back: same size, same times
            Bytes b; if (!get_file(p, b)) break; size_t n = b.size(); b = content[g.below((uint32_t)content.size())]; b.resize(n, 'z'); put_file(p, b); old_times(p); t_file(t, p);
            ID3v2_Tag* x = A(ID3v2_read_tag(p.c_str())); t_tag(t, "read after the change", x); take(x); break; }
        case 22: drop(); t.add("freed"); break;
        default: { Case c; drop(); World n; world_fresh(g, n, c); w = n; t_tag(t, "new", w.tag); break; }
        }
    }
};

enum { P_HISTORY = 1, P_BETWEEN = 2, P_LOCALE = 4, P_ERRNO = 8, P_ENV = 16, P_CWD = 32, P_UMASK = 64, P_CLOSED = 128, P_FDS = 256, P_FILL = 512, P_THREAD = 1024, P_ALIGN = 2048, P_REPEAT = 4096, P_N = 13 };
static const char* PNAME[P_N] = {"history", "calls_between", "locale", "errno", "environment", "cwd", "umask", "closed_std", "many_fds", "memory_fill", "other_thread", "alignment", "same_history"};
struct Scene {
    Bytes script, noise, before; std::vector<std::string> paths, npaths; std::vector<Bytes> content; uint32_t pert; uint8_t fill, umsk; int err; std::string envval; std::string dir; Transcript* t; uint32_t steps;
};
static uint8_t g_fill;
static void fill_hook(const volatile void* p, size_t n) { if (n <= 16384) memset((void*)p, g_fill, n); }
static void free_hook(const volatile void*) {}


// The files as the scenario finds them
static void restore(Scene& s)
{
    for (size_t i = 0; i < s.paths.size(); i++) { put_file(s.paths[i], s.content[i]); old_times(s.paths[i]); }
    for (size_t i = 0; i < s.npaths.size() && s.npaths != s.paths; i++) { put_file(s.npaths[i], s.content[i % s.content.size()]); old_times(s.npaths[i]); }
}
static void play_all(Scene& s, bool other)
{
    Gen g; g.buf = s.script; Player pl; pl.paths = s.paths; pl.content = s.content;
    Gen ng; ng.buf = s.noise; Player np; np.paths = s.npaths; np.content = s.content; Transcript* scrap = nullptr;
    auto noise = [&](uint32_t n) {
        if (!scrap) scrap = (Transcript*)mmap(nullptr, sizeof(Transcript), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (uint32_t i = 0; i < n; i++) { scrap->len = 0; try { np.step(ng, *scrap); } catch (Violation&) { } }
    };
    if (other && (s.pert & P_HISTORY)) {
        bool same = s.npaths == s.paths;
        if (same) for (size_t i = 0; i < s.paths.size(); i++) { Bytes b = s.content[i + 1]; b.resize(s.content[i].size(), 'y'); put_file(s.paths[i], b); old_times(s.paths[i]); }
        noise(1 + (uint32_t)s.noise.size() % 7);
        if (same) restore(s);
    }
    if (other && (s.pert & P_ERRNO)) g_pre_errno = s.err;
    for (uint32_t i = 0; i < s.steps; i++) {
        try { pl.step(g, *s.t); } catch (Violation& v) { s.t->add("! %s", v.msg.c_str()); pl.w = World(); }
        if (other && (s.pert & P_BETWEEN)) noise(1 + i % 3);
    }
    try { pl.drop(); } catch (Violation&) { }
    for (auto& p : s.paths) t_file(*s.t, p);
}
static void* thread_main(void* p) { play_all(*(Scene*)p, true); return nullptr; }
static void on_prof(int) { _exit(98); }
static void on_real(int) { _exit(97); }
static bool env_name(const std::string& n)
{
    if (n.empty() || n.size() > 40) return false;
    for (size_t i = 0; i < n.size(); i++) { char ch = n[i]; if (!((ch >= 'A' && ch <= 'Z') || (ch >= 'a' && ch <= 'z') || ch == '_' || (i && ch >= '0' && ch <= '9'))) return false; }
    return n != "TMPDIR" && n.compare(0, 3, "LD_") && n.compare(0, 6, "VERIF_");
}
// The scenario in a child process; how it ended
static int run_child(Scene& s, bool other)
{
    s.t->len = 0; s.t->done = 0;
    pid_t pid = fork();
    if (pid == 0) {
        signal(SIGPROF, on_prof); signal(SIGALRM, on_real);
        struct itimerval v = {{0, 0}, {20, 0}}, r = {{0, 0}, {200, 0}}; setitimer(ITIMER_PROF, &v, nullptr); setitimer(ITIMER_REAL, &r, nullptr);
        if (other) {
            if (s.pert & P_LOCALE) setlocale(LC_ALL, "C.UTF-8");
            if (s.pert & P_ENV) {
                for (const char* n : {"LANG", "LC_ALL", "HOME", "USER", "TZ", "DEBUG", "ID3V2_DEBUG", "ID3V2LIB_DEBUG", "ID3_VERSION", "POSIXLY_CORRECT", "NO_COLOR", "TMP", "TEMP"}) setenv(n, s.envval.c_str(), 1);
                for (auto& n : g_dict.strs) if (env_name(n)) setenv(n.c_str(), s.envval.c_str(), 1);
                setenv("TMPDIR", s.envval == "xx" || s.envval == "" ? "/nonexistent/directory" : s.dir.c_str(), 1);
            }
            if (s.pert & P_CWD) if (chdir(s.dir.c_str())) _exit(3);
            if (s.pert & P_UMASK) umask(s.umsk);
            if (s.pert & P_FDS) for (int i = 0; i < 300; i++) if (dup(2) < 0) break;
            if (s.pert & P_CLOSED) for (int i = 0; i < 3; i++) if (s.fill >> i & 1) close(i);
            if (s.pert & P_ALIGN) g_heap_shift = 1 + s.fill % 7;
            if (s.pert & P_REPEAT) { Scene w = s; w.t = (Transcript*)mmap(nullptr, sizeof(Transcript), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); w.pert = 0; play_all(w, false); restore(s); }
            if (s.pert & P_FILL) { g_fill = s.fill; __sanitizer_install_malloc_and_free_hooks(fill_hook, free_hook); }
            if (s.pert & P_THREAD) {
                pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 512u << 10); pthread_t th;
                if (pthread_create(&th, &a, thread_main, &s)) _exit(3);
                pthread_join(th, nullptr);
            } else play_all(s, true);
        } else play_all(s, false);
        s.t->done = 1;
        _exit(0);
    }
    if (pid < 0) { perror("fork"); _exit(3); }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    if (st == 3 << 8) { fprintf(stderr, "the scenario could not be set up\n"); _exit(3); }
    return st;
}
void c22(Gen& g, Case& c)
{
    static Transcript* sh = (Transcript*)mmap(nullptr, sizeof(Transcript) * 2, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Scene s; s.dir = fpath("c22d"); mkdir(s.dir.c_str(), 0755);
    uint32_t n = 1 + g.below(2); std::vector<Bytes> at;
    for (uint32_t i = 0; i < n; i++) {
        s.paths.push_back(fpath(i ? "c22b.mp3" : "c22a.mp3"));
        Bytes b; if (g.below(4)) { RefTag t = gen_tag(g, 4, g.pick<uint32_t>({20, 60, 400, 3000})); b = t.encode(); }
        at.push_back(cat(b, gen_audio(g, 200)));
        if (g.chance(1, 8)) { Bytes& x = at.back(); if (!x.empty()) { x[g.below((uint32_t)(x.size() < 40 ? x.size() : 40))] ^= (uint8_t)(1 + g.below(255)); c.label("damaged_file"); } }
    }
    s.content = at; s.content.push_back(cat(gen_tag(g, 3, 60).encode(), gen_audio(g, 60)));
    s.steps = 1 + g.below(8);
    uint32_t len = 40 + g.below(300); s.script.resize(len); for (auto& x : s.script) x = g.byte();
    s.pert = 1u << g.below(P_N); if (g.chance(1, 3)) s.pert |= 1u << g.below(P_N); if (g.chance(1, 8)) s.pert |= g.below(1u << P_N);
    if (s.pert & (P_HISTORY | P_BETWEEN)) { s.noise.resize(20 + g.below(200)); for (auto& x : s.noise) x = g.byte(); }
    // noise has files of its own; what came before may also have met the very files, with other contents
    s.npaths = {fpath("n0.mp3"), fpath("n1.png")};
    if ((s.pert & P_HISTORY) && !(s.pert & P_BETWEEN) && g.below(2)) { s.npaths = s.paths; c.label("history_of_same_files"); }
    s.fill = g.byte(); s.umsk = g.pick<uint8_t>({0, 077, 027}); s.err = g.pick<int>({ENOENT, EINTR, ERANGE, EILSEQ, ENOMEM, 4095}); s.envval = g.pick<const char*>({"1", "0", "", "C", "/", "-1", "xx"});
    for (uint32_t i = 0; i < P_N; i++) if (s.pert >> i & 1) { c.label(PNAME[i]); c.log("%s", PNAME[i]); }
    c.log("%u steps on %u files, script %s", s.steps, n, hex(s.script, 60).c_str());
    struct Clean { Scene& s; ~Clean() { for (auto& p : s.paths) unlink(p.c_str()); for (auto& p : s.npaths) unlink(p.c_str()); rmdir(s.dir.c_str()); } } clean{s};
    Transcript *a = &sh[0], *b = &sh[1];
    restore(s); s.t = a; int st1 = run_child(s, false);
    restore(s); s.t = b; int st2 = run_child(s, true);
    c.nontrivial = a->len > 200;
    bool d1 = a->done, d2 = b->done;
    if (!d1 && !d2) { c.label("both_failed"); return; } // (what goes wrong in any case is for the other properties)
    CHECK(d1 == d2, "the same calls on the same files end normally in one process and with status %x in another", d1 ? st2 : st1);
    std::string x(a->text, a->len), y(b->text, b->len);
    if (x != y) {
        size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) i++;
        size_t l = x.rfind('\n', i ? i - 1 : 0); l = l == std::string::npos ? 0 : l + 1;
        auto line = [&](const std::string& q) { return q.substr(std::min(l, q.size()), std::min<size_t>(q.find('\n', std::min(i, q.size())) - std::min(l, q.size()), 300)); };
        failf("the same calls on the same files give another result: %s | %s", line(x).c_str(), line(y).c_str());
    }
}

// ---- C23: what the public structures show is what counts ----------------------
static ID3v2_FrameList* node_at(ID3v2_Tag* t, size_t i) { ID3v2_FrameList* l = t->frames; while (i--) l = l->next; return l; }
static void direct_edit(Gen& g, World& w, Case& c)
{
    ID3v2_TagHeader* h = w.tag->header;
    uint32_t op = g.below(14);
    if (op >= 5 && w.m.empty()) op %= 5;
    size_t i = op >= 5 ? g.below((uint32_t)w.m.size()) : 0;
    MF* m = op >= 5 ? &w.m[i] : nullptr;
    ID3v2_Frame* f = op >= 5 ? node_at(w.tag, i)->frame : nullptr;
    auto scribble = [&](char* p, Bytes& b, size_t from, size_t to, bool zeros) { // bytes in place
        if (to <= from) return;
        uint32_t n = 1 + g.below(4);
        for (uint32_t k = 0; k < n; k++) { size_t at = from + g.below((uint32_t)(to - from)); uint8_t x = g.byte(); if (!x && !zeros) x = 'z'; p[at] = (char)x; b[at] = x; }
    };
    switch (op) {
    case 0: w.ver = 3 + (int)g.below(2); h->major_version = (char)w.ver; c.log("header->major_version = %d", w.ver); c.label("set_version"); break;
    case 1: w.minor = (uint8_t)g.below(255); h->minor_version = (char)w.minor; c.log("header->minor_version = %d", w.minor); c.label("set_revision"); break;
    case 2: { uint8_t x = g.pick<uint8_t>({0, 0x20, 0x60, 0x30, 0x70, 0x10, 0x40, 0x80, 0xA0}); if (w.ver == 3) x &= 0xE0; h->flags = (char)x; w.flags = x; c.log("header->flags = %02x", x); c.label("set_flags"); break; }
    case 3: case 4: { w.padding = g.size(5000); w.tag->padding_size = (int)w.padding; c.log("padding_size = %u", w.padding); c.label("set_padding"); break; }
    case 5: case 6: m->flags[0] = g.byte(); m->flags[1] = g.byte(); memcpy(f->header->flags, m->flags, 2); c.log("flags of #%zu", i); c.label("set_frame_flags"); break;
    case 7: { // another frame of the same kind
        if (m->k != TEXT && m->k != RAW) break;
        std::string id = m->k == TEXT ? gen_text_id(g) : gen_raw_id(g); memcpy(f->header->id, id.data(), 4); c.log("id of #%zu %s -> %s", i, m->id.c_str(), id.c_str()); m->id = id; c.label("set_frame_id"); break; }
    case 8: // encoding, contents of any kind
        if (m->k != TEXT) break;
        m->enc = (uint8_t)g.below(w.ver == 4 ? 4 : 2); ((ID3v2_TextFrame*)f)->data->encoding = (char)m->enc; c.log("encoding of #%zu", i); c.label("set_encoding"); break;
    case 9: if (m->k != COMM) break;
        { std::string l = gen_lang(g, true); memcpy(((ID3v2_CommentFrame*)f)->data->language, l.data(), 3); memcpy(m->lang, l.data(), 3); c.log("language of #%zu", i); c.label("set_language"); break; }
    case 10: if (m->k != APIC) break;
        m->ptype = g.byte(); ((ID3v2_ApicFrame*)f)->data->picture_type = (char)m->ptype; c.log("picture type of #%zu", i); c.label("set_picture_type"); break;
    case 11: case 12: c.log("bytes of #%zu", i); c.label("set_bytes");
        if (m->k == TEXT) scribble(((ID3v2_TextFrame*)f)->data->text, m->body, 0, m->body.size(), true);
        else if (m->k == COMM) scribble(((ID3v2_CommentFrame*)f)->data->comment, m->body, 0, m->body.size(), true);
        else if (m->k == APIC) { scribble(((ID3v2_ApicFrame*)f)->data->data, m->body, 0, m->body.size(), true); if (m->mime.size() > 3 && g.chance(1, 2)) scribble(((ID3v2_ApicFrame*)f)->data->mime_type, m->mime, 2, m->mime.size() - 1, false); }
        else scribble((char*)f->data, m->body, 0, m->body.size(), true);
        break;
    default: { // another order
        size_t j = g.below((uint32_t)w.m.size()); ID3v2_FrameList *a = node_at(w.tag, i), *b = node_at(w.tag, j); std::swap(a->frame, b->frame); std::swap(w.m[i], w.m[j]); c.log("#%zu <-> #%zu", i, j); c.label("set_order"); break; }
    }
}
void c23(Gen& g, Case& c)
{
    World w;
    if (g.below(3) == 0) world_fresh(g, w, c); else { RefTag t = gen_tag(g, 6, g.pick<uint32_t>({20, 60, 300})); maybe_unsync(g, t); c.log("loaded: %zu frames", t.frames.size()); world_loaded(w, t); c.label("loaded"); }
    std::string p = fpath("c23"); Bytes audio = g.blob(g.size(100)); if (!audio.empty()) audio[0] = 'a';
    put_file(p, audio);
    OpCfg o; o.maxlen = g.pick<uint32_t>({20, 60, 300});
    uint32_t n = 2 + g.below(10);
    for (uint32_t i = 0; i < n; i++) {
        switch (g.below(8)) {
        case 0: case 1: do_op(g, w, c, o); break;
        case 2: { // write and compare
            c.log("write"); c.label("write");
            A(ID3v2_write_tag(p.c_str(), w.tag));
            Bytes want = cat(written_bytes(w), audio), got = get_file(p);
            if (want != got) { size_t at = 0; while (at < want.size() && at < got.size() && want[at] == got[at]) at++; failf("the written file is not what the structures show: expected %zu bytes, got %zu, first difference at offset %zu", want.size(), got.size(), at); }
            world_after_write(w);
            CHECK(w.tag->header->tag_size == w.tag_size && w.tag->padding_size == (int)w.padding, "size %u and padding %d after writing, expected %u and %u", w.tag->header->tag_size, w.tag->padding_size, w.tag_size, w.padding);
            if (g.chance(1, 2)) { ID3v2_Tag* t = A(ID3v2_read_tag(p.c_str())); CHECK(t, "the written tag is not found");
                bool cont = g.chance(1, 2); std::vector<MF> back = snap(t);
                CHECK(t->header->major_version == w.ver && (uint8_t)t->header->minor_version == w.minor, "the version read back differs");
                CHECK(back.size() == w.m.size(), "%zu frames read back, expected %zu", back.size(), w.m.size());
                for (size_t k = 0; k < back.size(); k++) CHECK(back[k].payload() == w.m[k].payload() && back[k].id == w.m[k].id && !memcmp(back[k].flags, w.m[k].flags, 2), "frame #%zu read back differs", k);
                if (cont) { A(ID3v2_Tag_free(w.tag)); w.tag = t; w.m = back; c.label("continue_reread"); } else A(ID3v2_Tag_free(t)); }
            break; }
        default: direct_edit(g, w, c); c.nontrivial = true; break;
        }
        expect(w.m, w.tag, "after the last step");
        CHECK(w.tag->header->major_version == w.ver && (uint8_t)w.tag->header->minor_version == w.minor && w.tag->padding_size == (int)w.padding, "a step changed the version or the padding");
        if (g.chance(1, 3)) { check_lookups(g, w); c.label("lookups"); }
    }
    A(ID3v2_write_tag(p.c_str(), w.tag));
    Bytes want = cat(written_bytes(w), audio);
    CHECK(get_file(p) == want, "the file written last is not what the structures show");
    world_free(w);
}
