// C20 (nothing but the target file is touched) and C21 (what is missing)
#include "api.hpp"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <locale.h>
#include <sched.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mount.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <filesystem>
#include <functional>
#include <map>
#include <sanitizer/common_interface_defs.h>

// ---- C20 -----------------------------------------------------------------
// What can be seen of one directory entry
struct Entry {
    mode_t mode; ino_t ino; nlink_t nlink; uid_t uid; gid_t gid; off_t size; struct timespec mt; Bytes data;
};
static void scan(const std::string& d, const std::string& rel, std::map<std::string, Entry>& m)
{
    DIR* h = opendir(d.c_str()); if (!h) return;
    while (struct dirent* e = readdir(h)) {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        std::string p = d + "/" + n, r = rel.empty() ? n : rel + "/" + n; struct stat st;
        if (lstat(p.c_str(), &st)) continue;
        Entry x{st.st_mode, st.st_ino, st.st_nlink, st.st_uid, st.st_gid, st.st_size, st.st_mtim, {}};
        if (S_ISREG(st.st_mode)) get_file(p, x.data);
        if (S_ISLNK(st.st_mode)) { char b[4096]; ssize_t k = readlink(p.c_str(), b, sizeof b); if (k > 0) x.data.assign(b, b + k); }
        if (S_ISDIR(st.st_mode)) { x.size = 0; x.mt = {0, 0}; x.nlink = 0; }
        m[r] = x;
        if (S_ISDIR(st.st_mode)) scan(p, r, m);
    }
    closedir(h);
}
// The state of the process that calls could disturb
struct Env {
    std::string cwd, locale, fds; mode_t um; void* handlers[65]; char** envp; std::string env; struct itimerval it; off_t in;
    static Env now()
    {
        Env e; char b[8192]; e.cwd = getcwd(b, sizeof b) ? b : "?";
        e.locale = setlocale(LC_ALL, nullptr);
        e.um = umask(0); umask(e.um);
        for (int s = 1; s < 65; s++) { struct sigaction a; memset(&a, 0, sizeof a); sigaction(s, nullptr, &a); e.handlers[s] = (void*)a.sa_handler; }
        e.envp = environ; for (char** p = environ; *p; p++) { e.env += *p; e.env += '\n'; }
        getitimer(ITIMER_VIRTUAL, &e.it);
        e.in = lseek(0, 0, SEEK_CUR);
        for (int i = 0; i < 64; i++) { struct stat st; if (!fstat(i, &st)) { snprintf(b, sizeof b, "%d:%llu:%llu ", i, (unsigned long long)st.st_dev, (unsigned long long)st.st_ino); e.fds += b; } }
        return e;
    }
    void same(const Env& o, const char* what) const
    {
        CHECK(cwd == o.cwd, "%s changed the working directory", what); CHECK(locale == o.locale, "%s changed the locale", what); CHECK(um == o.um, "%s changed the umask", what);
        for (int s = 1; s < 65; s++) CHECK(handlers[s] == o.handlers[s], "%s changed the handling of signal %d", what, s);
        CHECK(env == o.env, "%s changed the environment", what); CHECK(in == o.in, "%s moved the position of the standard input", what);
        CHECK(fds == o.fds, "%s changed the open files of the process: %s -> %s", what, fds.c_str(), o.fds.c_str());
        CHECK(!memcmp(&it, &o.it, sizeof it), "%s changed a timer", what);
    }
};
// Standard output and error of the calls made while it lives go to a file
struct Silence {
    int o1, o2, fd; std::string p;
    Silence() : p(fpath("printed")) { fflush(stdout); fflush(stderr); o1 = dup(1); o2 = dup(2); fcntl(o1, F_SETFD, FD_CLOEXEC); __sanitizer_set_report_fd((void*)(intptr_t)o2); fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(fd, 1); dup2(fd, 2); }
    std::string printed() { fflush(stdout); fflush(stderr); Bytes b; get_file(p, b); return std::string(b.begin(), b.end()); }
    ~Silence() { fflush(stdout); fflush(stderr); dup2(o1, 1); dup2(o2, 2); __sanitizer_set_report_fd((void*)(intptr_t)2); close(o1); close(o2); close(fd); unlink(p.c_str()); }
};
// A /tmp of this process' own, if the kernel lets us
static bool own_tmp()
{
    static int done = -1;
    if (done >= 0) return done;
    done = 0;
    if (scratch_dir().compare(0, 5, "/tmp/") == 0) return false;
    uid_t u = getuid(); gid_t gr = getgid(); char b[64];
    if (unshare(CLONE_NEWUSER | CLONE_NEWNS)) return false;
    auto w = [](const char* f, const char* s) { int fd = open(f, O_WRONLY); if (fd >= 0) { if (write(fd, s, strlen(s)) < 0) {} close(fd); } };
    w("/proc/self/setgroups", "deny"); snprintf(b, sizeof b, "%u %u 1", u, u); w("/proc/self/uid_map", b); snprintf(b, sizeof b, "%u %u 1", gr, gr); w("/proc/self/gid_map", b);
    if (mount("none", "/", nullptr, MS_REC | MS_PRIVATE, nullptr)) return false;
    if (mount("none", "/tmp", "tmpfs", 0, nullptr)) return false;
    done = 1;
    return true;
}
static std::string gen_name(Gen& g, Case& c)
{
    std::string s;
    switch (g.below(12)) {
    case 0: case 1: s = g.pick<const char*>({"song.mp3", "song", "SONG.MP3", "a.b.c.mp3", "song.mp3.tmp", "tmp", ".hidden", "song.", "x"}); break;
    case 2: s = g.pick<const char*>({" ", "my song.mp3", " lead", "trail ", "tab\there", "new\nline", "two  spaces.mp3", "\r"}); c.label("name_spaces"); break;
    case 3: s = g.pick<const char*>({"%s%s%s%n", "100%.mp3", "%d", "$HOME", "`ls`", "a;b", "a|b", "a&b", "*", "?", "[x]", "\\", "a\\b.mp3", "\"q\"", "'q'", "#x", "!x", "(x)", "<x>", "~", "~root"}); c.label("name_special"); break;
    case 4: s = g.pick<const char*>({"-", "-rf", "--help", "-.mp3", "con", "nul", "http:x", "file:x", "C:x"}); c.label("name_dash"); break;
    case 5: { uint32_t n = 1 + g.below(30); for (uint32_t i = 0; i < n; i++) s += (char)(128 + g.below(128)); c.label("name_non_ascii"); break; }
    case 6: s = g.pick<const char*>({"\xC3\xA9t\xC3\xA9.mp3", "\xE6\x97\xA5\xE6\x9C\xAC.mp3", "\xFF\xFEx", "\xEF\xBB\xBFx.mp3", "\xC0\x80"}); c.label("name_non_ascii"); break;
    case 7: s = std::string(g.pick<uint32_t>({255, 254, 251, 200, 128, 127, 100, 64, 63, 32, 31, 256 - 1 - 4}), (char)('a' + g.below(26))); if (g.chance(1, 2)) { if (s.size() > 251) s.resize(251); s += ".mp3"; } c.label("name_long"); break;
    case 8: { uint32_t n = 1 + g.below(255); for (uint32_t i = 0; i < n; i++) s += (char)('a' + i % 26); c.label("name_long"); break; }
    case 9: if (!g_dict.strs.empty()) { s = g_dict.strs[g.below((uint32_t)g_dict.strs.size())]; c.label("name_from_source"); } break;
    default: { uint32_t n = 1 + g.below(12); for (uint32_t i = 0; i < n; i++) s += (char)(1 + g.below(255)); break; }
    }
    for (auto& ch : s) if (ch == '/' || ch == 0) ch = '_';
    if (s.size() > 255) s.resize(255);
    if (s.empty() || s == "." || s == "..") s = "song.mp3";
    return s;
}
void c20(Gen& g, Case& c)
{
    bool priv_tmp = own_tmp(); if (priv_tmp) c.label("own_tmp");
    std::string top = fpath("c20");
    // a place for the target, the working directory somewhere else or above it, and other files around
    uint32_t depth = g.chance(1, 12) ? g.range(3, 14) : g.below(3); std::string dir, up;
    for (uint32_t i = 0; i < depth; i++) {
        std::string n = g.chance(1, 3) ? (g.chance(1, 6) ? "~" : gen_name(g, c)) : i % 2 ? "sub" : "dir"; if (depth > 3 && g.chance(1, 2)) n.resize(255, 'd');
        if (top.size() + 6 + dir.size() + n.size() + 1 > 3700) break;
        dir += "/" + n;
    }
    std::string name = gen_name(g, c), cwd = top + "/wd";
    std::filesystem::create_directories(top + "/wd"); std::filesystem::create_directories(top + "/td"); std::filesystem::create_directories(top + "/in" + dir);
    std::string real = top + "/in" + dir + "/" + name;
    // bystanders: the names a helper file would get
    {
        static const char* AROUND[] = {"%s.tmp", "%s~", "%s.bak", "%s.new", "%s.old", ".%s", "%s.id3", "tmp", "temp", "tmp.mp3", "temp.mp3", "%s.1", "id3.tmp", "tag", "a.out", "core"};
        uint32_t n = g.below(4);
        for (uint32_t i = 0; i < n; i++) {
            std::string f = AROUND[g.below(16)]; size_t at = f.find("%s"); if (at != std::string::npos) f.replace(at, 2, name);
            std::string p = (g.chance(1, 3) ? cwd : top + "/in" + dir) + "/" + f;
            if (f.size() > 255 || p == real || !access(p.c_str(), F_OK)) continue;
            Bytes b = g.chance(1, 3) ? gen_tag(g, 1, 10).encode() : gen_audio(g, 40); put_file(p, b); c.label("bystander");
        }
    }
    // the target and its contents
    bool tagged = g.below(3); RefTag old; if (tagged) { old = gen_tag(g, 3, g.pick<uint32_t>({20, 20, 300, 5000})); c.label("had_tag"); }
    Bytes audio = gen_audio(g, g.pick<uint32_t>({60, 60, 600, 9000})); if (audio.size() >= 3 && !memcmp(audio.data(), "ID3", 3)) audio[0] = 'J';
    Bytes file = tagged ? cat(old.encode(), audio) : audio;
    put_file(real, file);
    mode_t mode = g.pick<mode_t>({0644, 0600, 0664, 0666, 0640, 0755, 0777, 0604, 0620, 0200 | 0400});
    mode_t um = umask(0); umask(g.chance(1, 3) ? g.pick<mode_t>({0, 077, 027}) : um);
    chmod(real.c_str(), mode);
    std::string path = real;
    uint32_t lk = g.below(6);
    if (lk == 4 || lk == 5) { // reached through symbolic links
        std::string l = top + "/link";
        if (symlink(real.c_str(), l.c_str())) {} path = l; c.label("symlink");
        if (lk == 5) { std::string l2 = cwd + "/l2"; if (symlink("../link", l2.c_str())) {} path = l2; c.label("symlink_chain"); }
    }
    if (lk == 3 || (lk == 4 && g.below(2))) { std::string l = top + "/other name"; if (link(real.c_str(), l.c_str())) {} c.label("hard_link"); if (g.below(2) && lk == 3) path = l; }
    { // an old modification time for everything, so that every write shows
        struct timespec ts[2] = {{1000000000, 0}, {1000000000, 0}};
        for (auto& e : std::filesystem::recursive_directory_iterator(top)) utimensat(AT_FDCWD, e.path().c_str(), ts, AT_SYMLINK_NOFOLLOW);
    }
    // how the target is named
    char keep[8192]; std::string home = getcwd(keep, sizeof keep) ? keep : "/";
    uint32_t pk = g.below(6); if (pk == 4 && path.find('/', top.size() + 1) == std::string::npos) pk = 5; std::string arg = path, wd = cwd;
    if (pk >= 1) {
        std::string rel = path.substr(top.size() + 1); // relative to top
        switch (pk) {
        case 1: arg = "../" + rel; break;
        case 2: wd = top; arg = rel; break;
        case 3: wd = top; arg = "./wd/.././" + rel; break;
        case 4: wd = path.substr(0, path.find('/', top.size() + 1)); arg = path.substr(wd.size() + 1); break;
        default: wd = path.substr(0, path.rfind('/')); arg = path.substr(path.rfind('/') + 1); if (g.chance(1, 3)) arg = "./" + arg; break;
        }
        c.label("relative_path");
    }
    if (g.chance(1, 6) && arg.find('/') != std::string::npos) { arg.insert(arg.find('/'), "/"); c.label("double_slash"); }
    struct Back { std::string d, top; mode_t um; ~Back() { if (chdir(d.c_str())) {} umask(um); std::error_code ec; std::filesystem::remove_all(top, ec); } } back{home, top, um};
    if (chdir(wd.c_str())) { perror("chdir"); _exit(3); }
    std::string td = top + "/td"; const char* otd = getenv("TMPDIR"); std::string keep_td = otd ? otd : ""; setenv("TMPDIR", td.c_str(), 1);
    struct BackTd { std::string v; ~BackTd() { setenv("TMPDIR", v.c_str(), 1); } } back_td{keep_td};
    c.log("%s (mode %o, %zu bytes%s) called %s", hex(Bytes(name.begin(), name.end()), 60).c_str(), mode, file.size(), tagged ? ", with a tag" : "", hex(Bytes(arg.begin(), arg.end()), 80).c_str());
    // a tag to write
    World w; if (g.below(2)) world_fresh(g, w, c); else { RefTag t = gen_tag(g, 2, 40); world_loaded(w, t); }
    OpCfg o; o.maxlen = 40; uint32_t n = g.below(4); for (uint32_t i = 0; i < n; i++) do_op(g, w, c, o);
    ID3v2_tag ct; memset(&ct, 0, sizeof ct); ct.tag = w.tag;
    std::vector<MF> have = tagged ? old.frames : std::vector<MF>(); bool has = tagged;
    struct stat st0; stat(real.c_str(), &st0);
    uint32_t calls = 1 + g.below(4);
    for (uint32_t i = 0; i < calls; i++) {
        uint32_t op = g.below(10); const char* what = "";
        std::map<std::string, Entry> before, after, tb, ta;
        scan(top, "", before); if (priv_tmp) scan("/tmp", "", tb);
        ID3v2_Tag* rt = nullptr; ID3v2_tag* rc = nullptr; ID3v2_TagHeader* rh = nullptr; bool writes = false, reads = false;
        std::string out;
        {
            Silence s; Env e0 = Env::now();
            switch (op) {
            case 0: case 1: what = "ID3v2_write_tag"; A(ID3v2_write_tag(arg.c_str(), w.tag)); writes = true; break;
            case 2: what = "ID3v2_delete_tag"; A(ID3v2_delete_tag(arg.c_str())); writes = true; break;
            case 3: what = "set_tag"; A(set_tag(arg.c_str(), &ct)); writes = true; break;
            case 4: what = "remove_tag"; A(remove_tag(arg.c_str())); writes = true; break;
            case 5: what = "ID3v2_read_tag_header"; rh = A(ID3v2_read_tag_header(arg.c_str())); reads = true; break;
            case 6: what = "load_tag"; rc = A(load_tag(arg.c_str())); reads = true; break;
            case 7: what = "tag_set_album_cover"; rc = A(new_tag()); A(tag_set_album_cover(arg.c_str(), rc)); break;
            case 8: if (g.chance(1, 2)) { what = "ID3v2_write_tag(NULL)"; A(ID3v2_write_tag(arg.c_str(), nullptr)); break; } // fall through
            default: what = "ID3v2_read_tag"; rt = A(ID3v2_read_tag(arg.c_str())); reads = true; break;
            }
            Env e1 = Env::now(); out = s.printed(); e0.same(e1, what);
        }
        c.log("%s", what); c.label(what);
        CHECK(out.empty(), "%s printed %s", what, hex(Bytes(out.begin(), out.end()), 60).c_str());
        if (writes) {
            if (op == 2 || op == 4) { file = audio; has = false; have.clear(); } else { file = cat(written_bytes(w), audio); has = true; have = w.m; world_after_write(w); }
            c.nontrivial = true;
        }
        // the result
        if (reads) {
            bool any = op == 5 ? rh != nullptr : op == 6 ? rc != nullptr : rt != nullptr;
            CHECK(any == has, "%s: %s", what, has ? "the tag of the file is not found" : "a tag is found where there is none");
            if (rt) expect(have, rt, what);
            if (rc) expect(have, rc->tag, what);
        }
        if (op == 7) { MF f; f.k = APIC; f.id = "APIC"; f.enc = 1; f.ptype = 3; f.desc = {0xFF, 0xFE, 0, 0}; f.body = file; size_t d = arg.rfind('.'); f.mime = cstr(d != std::string::npos && arg.substr(d) == ".png" ? "image/png" : "image/jpeg"); expect({f}, rc->tag, what); }
        if (rh) A(ID3v2_TagHeader_free(rh));
        if (rt) A(ID3v2_Tag_free(rt));
        if (rc) A(free_tag(rc));
        // and nothing else
        scan(top, "", after); if (priv_tmp) { scan("/tmp", "", ta); for (auto& x : ta) CHECK(tb.count(x.first), "%s left %s in /tmp", what, x.first.c_str()); }
        for (auto& x : after) CHECK(before.count(x.first), "%s created %s", what, hex(Bytes(x.first.begin(), x.first.end()), 80).c_str());
        bool seen = false;
        for (auto& x : before) {
            auto it = after.find(x.first); std::string shown = hex(Bytes(x.first.begin(), x.first.end()), 80);
            CHECK(it != after.end(), "%s removed %s", what, shown.c_str());
            const Entry &a = x.second, &b = it->second;
            bool target = S_ISREG(a.mode) && a.ino == st0.st_ino;
            CHECK(a.mode == b.mode, "%s changed the mode of %s from %o to %o", what, shown.c_str(), a.mode, b.mode);
            CHECK(a.ino == b.ino && a.nlink == b.nlink, "%s replaced %s by another file", what, shown.c_str());
            CHECK(a.uid == b.uid && a.gid == b.gid, "%s changed the owner of %s", what, shown.c_str());
            if (target) { seen = true; CHECK(b.data == file, "%s: the file called %s has %zu bytes, not the expected %zu", what, shown.c_str(), b.data.size(), file.size()); }
            if (!target || !writes) {
                CHECK(a.data == b.data, "%s changed the contents of %s", what, shown.c_str());
                CHECK(a.size == b.size && a.mt.tv_sec == b.mt.tv_sec && a.mt.tv_nsec == b.mt.tv_nsec, "%s wrote to %s", what, shown.c_str());
            }
        }
        CHECK(seen, "%s: the target is gone", what);
    }
    expect(w.m, w.tag, "after the calls");
    world_free(w);
}

// ---- C21 -----------------------------------------------------------------
static void no_frames(ID3v2_FrameList* l, const char* what, bool as_list)
{
    CHECK(l, "%s returns NULL", what);
    CHECK(!l->frame && !l->next, "%s returns frames where there are none", what);
    if (as_list) A(ID3v2_FrameList_free(l)); else A(ID3v2_FrameList_unlink(l));
}
static void all_missing(Gen& g, ID3v2_Tag* t, const std::vector<MF>& m, const char* when)
{
    for (uint32_t i = 0; i < N_NAMED; i++) if (m_find(m, NAMED[i].id) < 0) CHECK(!A(NAMED[i].get(t)), "%s: get_%s_frame returns something", when, NAMED[i].name);
    if (m_find(m, "COMM") < 0) { CHECK(!A(ID3v2_Tag_get_comment_frame(t)), "%s: get_comment_frame returns something", when); no_frames(A(ID3v2_Tag_get_comment_frames(t)), "get_comment_frames", g.below(2)); }
    if (m_find(m, "APIC") < 0) { CHECK(!A(ID3v2_Tag_get_album_cover_frame(t)), "%s: get_album_cover_frame returns something", when); no_frames(A(ID3v2_Tag_get_apic_frames(t)), "get_apic_frames", g.below(2)); }
    std::string id = gen_any_id(g); Heap h(cstr(id));
    if (m_find(m, id) < 0) { CHECK(!A(ID3v2_Tag_get_frame(t, h.p)), "%s: get_frame returns something", when); no_frames(A(ID3v2_Tag_get_frames(t, h.p)), "get_frames", g.below(2)); }
}
// Removing what is not there, in every way
static void delete_missing(Gen& g, Case& c, ID3v2_Tag* t, const std::vector<MF>& m)
{
    uint32_t n = 1 + g.below(6);
    for (uint32_t i = 0; i < n; i++) switch (g.below(6)) {
        case 0: { const Named& nm = NAMED[g.below(N_NAMED)]; if (m_find(m, nm.id) < 0) { c.log("delete_%s", nm.name); A(nm.del(t)); } break; }
        case 1: if (m_find(m, "COMM") < 0) { c.log("delete_comment"); A(ID3v2_Tag_delete_comment(t)); } break;
        case 2: if (m_find(m, "APIC") < 0) { c.log("delete_album_cover"); A(ID3v2_Tag_delete_album_cover(t)); } break;
        case 3: { int k = (int)m_count(m, "COMM") + (int)g.below(4); if (g.chance(1, 4)) k = -1 - (int)g.below(3); c.log("delete_comment_frame(%d)", k); A(ID3v2_Tag_delete_comment_frame(t, k)); break; }
        case 4: { int k = (int)m_count(m, "APIC") + (int)g.below(4); if (g.chance(1, 4)) k = -1 - (int)g.below(3); c.log("delete_apic_frame(%d)", k); A(ID3v2_Tag_delete_apic_frame(t, k)); break; }
        default: { std::string id = gen_any_id(g); Heap h(cstr(id)); if (m_find(m, id) < 0) { c.log("delete_frame(%s)", hex(h.orig).c_str()); A(ID3v2_Tag_delete_frame(t, h.p)); } break; }
    }
}
static void keeps(const std::string& p, const Bytes& b, const char* what) { Bytes now; CHECK(get_file(p, now), "%s: the file is gone", what); CHECK(now == b, "%s: the file has changed from %zu to %zu bytes", what, b.size(), now.size()); }
static Bytes gen_tagless(Gen& g, Case& c)
{
    Bytes b;
    switch (g.below(7)) {
    case 0: c.label("empty"); break;
    case 1: b = gen_tag(g, 2, 20).encode(); b.resize(g.below(10)); c.label("cut_header"); break;
    case 2: b = gen_tag(g, 2, 20).encode(); b[3] = g.pick<uint8_t>({2, 5, 0, 1, 0xFF}); c.label("other_version"); break;
    case 3: b = gen_tag(g, 2, 20).encode(); b[g.below(3)] ^= (uint8_t)(1 + g.below(255)); c.label("other_identifier"); break;
    case 4: {
        switch (g.below(4)) { // what a reader that searches for the tag might skip
        case 0: b = Bytes(g.pick<uint32_t>({1, 2, 9, 10, 16, 100, 512}), g.pick<uint8_t>({0, 0, 0xFF, ' ', '\n'})); break;
        case 1: { static const char* P[] = {"RIFF", "APETAGEX", "\xEF\xBB\xBF", "\r\n", "TAG", "3DI", "fLaC", "OggS", "ID", "FORM"}; const char* q = P[g.below(10)]; b.assign(q, q + strlen(q)); if (g.chance(1, 2)) b.resize(g.pick<uint32_t>({8, 10, 12, 32, 128}), 0); break; }
        default: b = g.blob(1 + g.below(30)); if (b[0] == 'I') b[0] = 'J'; break;
        }
        Bytes t = gen_tag(g, 2, 20).encode(); b.insert(b.end(), t.begin(), t.end()); c.label("tag_not_at_start"); break; }
    case 5: { b = gen_audio(g, 300); b.insert(b.end(), {'T', 'A', 'G'}); b.resize(b.size() + 125, ' '); if (b[0] == 'I') b[0] = 'J'; if (g.chance(1, 3)) { Bytes t = gen_tag(g, 2, 20).encode(); b.insert(b.end(), t.begin(), t.end()); } c.label("id3v1"); break; }
    default: b = gen_audio(g, 300); if (b.size() >= 10 && !memcmp(b.data(), "ID3", 3)) b[0] = 'J'; c.label("audio"); break;
    }
    return b;
}
void c21(Gen& g, Case& c)
{
    std::string p = fpath("c21"), gone = fpath("c21gone");
    c.nontrivial = true;
    switch (g.below(6)) {
    case 0: { // no tag at all
        c.label("null_tag");
        for (uint32_t i = 0; i < N_NAMED; i++) CHECK(!A(NAMED[i].get(nullptr)), "get_%s_frame(NULL) returns something", NAMED[i].name);
        CHECK(!A(ID3v2_Tag_get_comment_frame(nullptr)) && !A(ID3v2_Tag_get_comment_frames(nullptr)), "comments of no tag");
        CHECK(!A(ID3v2_Tag_get_album_cover_frame(nullptr)) && !A(ID3v2_Tag_get_apic_frames(nullptr)), "pictures of no tag");
        std::string id = gen_any_id(g); Heap h(cstr(id)); CHECK(!A(ID3v2_Tag_get_frame(nullptr, h.p)) && !A(ID3v2_Tag_get_frames(nullptr, h.p)), "frames of no tag");
        Bytes b = g.chance(1, 2) ? cat(gen_tag(g, 2, 40).encode(), gen_audio(g, 100)) : gen_tagless(g, c);
        put_file(p, b); c.log("writing no tag into %zu bytes", b.size());
        A(ID3v2_write_tag(p.c_str(), nullptr)); keeps(p, b, "writing no tag");
        A(ID3v2_write_tag(gone.c_str(), nullptr)); CHECK(access(gone.c_str(), F_OK), "writing no tag created a file");
        for (uint32_t i = 0; i < N_NAMED; i++) CHECK(!A(NAMED[i].cget(nullptr)), "tag_get_%s(NULL) returns something", NAMED[i].name);
        CHECK(!A(tag_get_comment(nullptr)) && !A(tag_get_album_cover(nullptr)), "old-style comment or cover of no tag");
        CHECK(!A(parse_text_frame_content(nullptr)) && !A(parse_comment_frame_content(nullptr)) && !A(parse_apic_frame_content(nullptr)), "contents of no old-style frame");
        A(set_tag(p.c_str(), nullptr)); keeps(p, b, "setting no tag");
        A(ID3v2_FrameList_free(nullptr)); A(ID3v2_FrameList_unlink(nullptr)); A(ID3v2_TagHeader_free(nullptr));
        break; }
    case 1: { // files and buffers without a tag; the documented way on from there
        c.label("no_tag_in_file");
        Bytes b = gen_tagless(g, c); c.log("no tag in %zu bytes: %s", b.size(), hex(b, 60).c_str());
        put_file(p, b);
        uint32_t rep = 1 + g.below(2);
        for (uint32_t k = 0; k < rep; k++) {
            CHECK(!A(ID3v2_read_tag_header(p.c_str())), "a header is found where there is none"); ID3v2_Tag* t = A(ID3v2_read_tag(p.c_str())); CHECK(!t, "a tag is found where there is none");
            CHECK(!A(load_tag(p.c_str())), "the compat layer finds a tag where there is none");
            Heap h(b); if (b.size() >= 10) CHECK(!A(ID3v2_read_tag_header_from_buffer(h.p)), "a header is found in a buffer without one");
            CHECK(!A(ID3v2_read_tag_from_buffer(h.p, (int)h.n)), "a tag is found in a buffer without one"); CHECK(!A(load_tag_with_buffer(h.p, (int)h.n)), "the compat layer finds a tag in a buffer without one");
            A(ID3v2_delete_tag(p.c_str())); keeps(p, b, "deleting a tag that is not there"); A(remove_tag(p.c_str())); keeps(p, b, "removing a tag that is not there");
        }
        ID3v2_Tag* t = A(ID3v2_read_tag(p.c_str())); World w; CHECK(!t, "a tag is found where there is none");
        if (g.below(2)) { ID3v2_TagHeader* hd = A(ID3v2_read_tag_header(p.c_str())); w.tag = A(ID3v2_Tag_new(hd, 0)); } else w.tag = A(ID3v2_Tag_new_empty());
        CHECK(w.tag && w.tag->header && w.tag->frames, "a new tag is incomplete");
        OpCfg o; o.maxlen = g.pick<uint32_t>({40, 300}); uint32_t n = g.below(5); for (uint32_t i = 0; i < n; i++) do_op(g, w, c, o);
        { Heap s(gen_iso(g, 40)); char* u = A(ID3v2_to_unicode(s.p)); A(ID3v2_Tag_set_title(w.tag, u)); MF f; f.k = TEXT; f.id = "TIT2"; f.enc = 1; f.body = {0xFF, 0xFE}; for (uint8_t x : s.orig) { f.body.push_back(x); f.body.push_back(0); } m_set(w, f); if (u != s.p) free(u); }
        A(ID3v2_write_tag(p.c_str(), w.tag));
        // (bytes that look like the start of a tag are one only behind the new tag)
        keeps(p, cat(written_bytes(w), b), "writing the first tag"); t = A(ID3v2_read_tag(p.c_str())); CHECK(t, "the first tag of a file is not found"); expect(w.m, t, "the first tag of a file"); A(ID3v2_Tag_free(t));
        A(ID3v2_delete_tag(p.c_str())); keeps(p, b, "deleting the first tag"); A(ID3v2_delete_tag(p.c_str())); keeps(p, b, "deleting it twice");
        world_free(w); break; }
    case 2: { // files that are not there
        c.label("no_file");
        std::string q = g.pick<int>({0, 1, 2, 3}) == 0 ? gone : g.chance(1, 3) ? gone + "/x" : g.chance(1, 2) ? "" : p + "/x"; put_file(p, {'x'}); std::string link = fpath("c21link"); unlink(link.c_str()); if (g.chance(1, 5)) { c.label("dangling_link"); q = link; if (symlink(gone.c_str(), q.c_str())) fail("symlink"); } c.log("path %s", q.size() > 20 ? q.substr(scratch_dir().size()).c_str() : q.c_str());
        CHECK(!A(ID3v2_read_tag_header(q.c_str())) && !A(ID3v2_read_tag(q.c_str())) && !A(load_tag(q.c_str())), "a file that is not there has a tag");
        World w; if (g.below(2)) world_fresh(g, w, c); else { RefTag t = gen_tag(g, 2, 40); world_loaded(w, t); }
        OpCfg o; o.maxlen = 40; uint32_t n = g.below(4); for (uint32_t i = 0; i < n; i++) do_op(g, w, c, o);
        A(ID3v2_delete_tag(q.c_str())); A(remove_tag(q.c_str())); A(ID3v2_write_tag(q.c_str(), w.tag)); expect(w.m, w.tag, "after writing to a file that is not there");
        CHECK(q.empty() || access(q.c_str(), F_OK), "writing created a file"); keeps(p, {'x'}, "another file");
        ID3v2_tag* ct = A(new_tag()); A(tag_set_album_cover(q.c_str(), ct)); expect({}, ct->tag, "a cover that is not there"); CHECK(!A(tag_get_album_cover(ct)), "a cover that is not there is shown"); A(set_tag(q.c_str(), ct));
        if (g.chance(1, 2)) { // nor is a directory a cover
            c.label("cover_directory"); std::string d = g.below(2) ? scratch_dir() : fpath("."); uint32_t k = g.below(3); World cw; cw.tag = ct->tag; for (uint32_t i = 0; i < k; i++) compat_edit(g, cw, ct, c, 40, "c21");
            A(tag_set_album_cover(d.c_str(), ct)); expect(cw.m, ct->tag, "a directory as cover"); compat_verify(cw, ct); }
        A(free_tag(ct));
        CHECK(q.empty() || access(q.c_str(), F_OK), "set_tag created a file"); unlink(link.c_str());
        // the tag is as good as before
        Bytes audio = gen_audio(g, 60); if (audio.size() >= 3 && !memcmp(audio.data(), "ID3", 3)) audio[0] = 'J'; put_file(p, audio); world_after_write(w);
        A(ID3v2_write_tag(p.c_str(), w.tag)); keeps(p, cat(written_bytes(w), audio), "writing after a failure");
        world_free(w); break; }
    case 3: case 4: { // frames that are not there
        c.label("no_frame");
        World w; if (g.below(2)) world_fresh(g, w, c); else { RefTag t = gen_tag(g, g.below(2) ? 1 : 6, 60); world_loaded(w, t); }
        OpCfg o; o.maxlen = 60; uint32_t rounds = 1 + g.below(3);
        for (uint32_t r = 0; r < rounds; r++) {
            uint32_t n = g.below(4); for (uint32_t i = 0; i < n; i++) do_op(g, w, c, o);
            all_missing(g, w.tag, w.m, "absent frames"); uint32_t size = w.tag->header->tag_size;
            delete_missing(g, c, w.tag, w.m);
            expect(w.m, w.tag, "after deleting what is not there"); CHECK(w.tag->header->tag_size == size && size == w.tag_size, "deleting what is not there changed the size from %u to %u", size, w.tag->header->tag_size);
            CHECK(w.tag->padding_size == (int)w.padding, "deleting what is not there changed the padding");
            if (g.chance(1, 3)) { // remove everything
                c.label("emptied");
                while (!w.m.empty()) { std::string id = w.m[g.below((uint32_t)w.m.size())].id; Heap h(cstr(id)); A(ID3v2_Tag_delete_frame(w.tag, h.p)); m_del(w, m_find(w.m, id)); if (g.chance(1, 4)) { A(ID3v2_Tag_delete_frame(w.tag, h.p)); m_del(w, m_find(w.m, id)); } }
                expect({}, w.tag, "after everything was deleted"); all_missing(g, w.tag, w.m, "an emptied tag"); delete_missing(g, c, w.tag, w.m); expect({}, w.tag, "an emptied tag");
                CHECK(w.tag->header->tag_size == w.tag_size, "size %u of an emptied tag, expected %u", w.tag->header->tag_size, w.tag_size);
            }
            if (g.chance(1, 3)) {
                Bytes audio = {'a', 0xFF, 0xFB}; put_file(p, audio); A(ID3v2_write_tag(p.c_str(), w.tag)); keeps(p, cat(written_bytes(w), audio), "written"); world_after_write(w);
                ID3v2_Tag* t = A(ID3v2_read_tag(p.c_str())); CHECK(t, "the written tag is not found"); expect(w.m, t, "read back"); all_missing(g, t, w.m, "read back"); A(ID3v2_Tag_free(t));
            }
        }
        world_free(w); break; }
    default: { // old-style frames that are not there
        c.label("no_compat_frame");
        World w; ID3v2_tag* ct; if (g.below(2)) { ct = A(new_tag()); CHECK(ct, "no new tag"); } else { RefTag t = gen_tag(g, g.below(4), 40); Heap h(t.encode()); ct = A(load_tag_with_buffer(h.p, (int)h.n)); CHECK(ct, "a well-formed tag is not loaded"); w.m = t.frames; w.ver = t.ver; w.minor = t.minor; w.flags = t.flags & ~0x50; w.padding = t.padding; }
        w.tag = ct->tag;
        uint32_t n = g.below(4);
        for (uint32_t i = 0;; i++) {
            for (uint32_t k = 0; k < N_NAMED; k++) if (m_find(w.m, NAMED[k].id) < 0) { ID3v2_frame* f = A(NAMED[k].cget(ct)); CHECK(!f && !A(parse_text_frame_content(f)), "tag_get_%s returns something", NAMED[k].name); }
            if (m_find(w.m, "COMM") < 0) CHECK(!A(tag_get_comment(ct)), "tag_get_comment returns something");
            if (m_find(w.m, "APIC") < 0) CHECK(!A(tag_get_album_cover(ct)), "tag_get_album_cover returns something");
            compat_verify(w, ct);
            if (i >= n) break;
            if (g.chance(1, 4)) { A(tag_set_album_cover(gone.c_str(), ct)); c.log("missing cover"); } else compat_edit(g, w, ct, c, 40, "c21");
        }
        Bytes audio = {'a', 'b'}; put_file(p, audio); A(set_tag(p.c_str(), ct)); keeps(p, cat(written_bytes(w), audio), "set_tag"); A(free_tag(ct)); break; }
    }
}
