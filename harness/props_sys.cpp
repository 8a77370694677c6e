// C14 (failing system calls, enumerated) and C15 (threads)
#include "api.hpp"
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <unistd.h>
#include <limits.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <functional>
#include <thread>
#include <atomic>

// ---- C14 -----------------------------------------------------------------
enum Cls { C_OPEN, C_OPEN_TARGET, C_OPEN_TARGET_W, C_OPEN_OTHER, C_READ, C_WRITE, N_CLS };
static const char* CLS_NAME[] = {"open", "open-target", "open-target-for-writing", "open-temporary", "read", "write"};
struct Fault { int cls = -1, onset = 0, err = EIO; bool partial = false; };
struct Trace { int n[N_CLS] = {}; bool replaced = false; int before[N_CLS] = {}; bool died = false; int status = 0; bool no_ptrace = false; };

static std::string peek_str(pid_t p, unsigned long a)
{
    std::string r;
    while (r.size() < 512) {
        errno = 0; long w = ptrace(PTRACE_PEEKDATA, p, (void*)a, nullptr);
        if (errno) return r;
        for (int i = 0; i < 8; i++) { char ch = (char)(w >> (8 * i)); if (!ch) return r; r += ch; }
        a += 8;
    }
    return r;
}
static bool is_open(long nr) { return nr == SYS_open || nr == SYS_openat || nr == SYS_creat || nr == 437; }
// The classes a system call belongs to, as a bit mask
static unsigned classify(pid_t p, const struct user_regs_struct& r, const std::string& target)
{
    long nr = (long)r.orig_rax;
    if (is_open(nr)) {
        unsigned long path = nr == SYS_open || nr == SYS_creat ? r.rdi : r.rsi;
        unsigned long fl = nr == SYS_open ? r.rsi : nr == SYS_openat ? r.rdx : nr == SYS_creat ? (unsigned long)O_WRONLY : 0;
        if (nr == 437) { errno = 0; fl = (unsigned long)ptrace(PTRACE_PEEKDATA, p, (void*)r.rdx, nullptr); }
        unsigned m = 1u << C_OPEN;
        if (peek_str(p, path) == target) { m |= 1u << C_OPEN_TARGET; if (fl & O_TRUNC || nr == SYS_creat) m |= 1u << 31; if ((fl & O_ACCMODE) != O_RDONLY) m |= 1u << C_OPEN_TARGET_W; } else m |= 1u << C_OPEN_OTHER;
        return m;
    }
    if (nr == SYS_read || nr == SYS_pread64 || nr == SYS_readv || nr == SYS_preadv) return r.rdi <= 2 ? 0 : 1u << C_READ;
    if (nr == SYS_write || nr == SYS_pwrite64 || nr == SYS_writev || nr == SYS_pwritev) return r.rdi <= 2 ? 0 : 1u << C_WRITE;
    if (nr == SYS_sendfile || nr == SYS_copy_file_range || nr == SYS_rename || nr == SYS_renameat || nr == SYS_renameat2 || nr == SYS_ftruncate || nr == SYS_truncate) return 1u << C_WRITE;
    return 0;
}

static bool is_file(pid_t p, int fd, const std::string& path)
{
    struct stat a, b; std::string l = "/proc/" + std::to_string(p) + "/fd/" + std::to_string(fd);
    return !stat(l.c_str(), &a) && !stat(path.c_str(), &b) && a.st_dev == b.st_dev && a.st_ino == b.st_ino;
}
static void cpu_bound() { signal(SIGPROF, SIG_DFL); struct itimerval v = {{0, 0}, {20, 0}}; setitimer(ITIMER_PROF, &v, nullptr); }
static Trace plain(const std::function<void()>& op)
{
    pid_t k = fork();
    if (k == 0) { cpu_bound(); op(); _exit(0); }
    Trace t; waitpid(k, &t.status, 0); t.died = !(WIFEXITED(t.status) && WEXITSTATUS(t.status) == 0);
    return t;
}

static Trace traced(const std::function<void()>& op, const Fault& f, const std::string& target, const Bytes* old)
{
    Trace t;
    pid_t p = fork();
    if (p == 0) {
        signal(SIGXFSZ, SIG_IGN); cpu_bound();
        if (ptrace(PTRACE_TRACEME, 0, nullptr, nullptr)) _exit(42);
        raise(SIGSTOP);
        op();
        _exit(0);
    }
    int st; waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 42) { t.no_ptrace = true; return t; }
    ptrace(PTRACE_SETOPTIONS, p, nullptr, (void*)(PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL));
    std::set<int> written;
    bool entry = true, inject = false; unsigned mask = 0; int sig = 0; bool cut = false;
    for (;;) {
        ptrace(PTRACE_SYSCALL, p, nullptr, (void*)(long)sig); sig = 0;
        if (waitpid(p, &st, 0) < 0) break;
        if (WIFEXITED(st) || WIFSIGNALED(st)) break;
        if (!WIFSTOPPED(st)) continue;
        if (WSTOPSIG(st) != (SIGTRAP | 0x80)) { sig = WSTOPSIG(st); if (sig == SIGTRAP) sig = 0; continue; }
        struct user_regs_struct r; ptrace(PTRACE_GETREGS, p, nullptr, &r);
        if (entry) {
            mask = classify(p, r, target);
            inject = false;
            if (mask >> C_WRITE & 1) written.insert((int)r.rdi);
            if (old && !t.replaced && (mask >> C_READ & 1) && written.count((int)r.rdi) && !is_file(p, (int)r.rdi, target)) { // the finished copy is read back: the replacement has begun
                for (int k = 0; k < N_CLS; k++) t.before[k] = t.n[k];
                t.replaced = true;
            }
            if (f.cls >= 0 && (mask >> f.cls & 1) && t.n[f.cls] >= f.onset) {
                if (f.partial && !cut && (long)r.orig_rax == SYS_write && r.rdx >= 2) { cut = true; r.rdx /= 2; ptrace(PTRACE_SETREGS, p, nullptr, &r); }
                else { inject = true; r.orig_rax = (unsigned long)-1; ptrace(PTRACE_SETREGS, p, nullptr, &r); }
            }
        } else {
            if (inject) { r.rax = (unsigned long)-f.err; ptrace(PTRACE_SETREGS, p, nullptr, &r); }
            for (int k = 0; k < N_CLS; k++) if (mask >> k & 1) t.n[k]++;
            if (old && mask && !t.replaced) {
                for (int k = 0; k < N_CLS; k++) t.before[k] = t.n[k];
                Bytes now; if (!get_file(target, now) || now != *old || (mask >> 31 && (long)r.rax >= 0)) t.replaced = true; // (emptying an empty file does not show)
            }
            mask = 0;
        }
        entry = !entry;
    }
    t.status = st;
    t.died = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    return t;
}
static std::set<std::string> listing(const std::string& d)
{
    std::set<std::string> r; DIR* h = opendir(d.c_str()); if (!h) return r;
    while (struct dirent* e = readdir(h)) r.insert(e->d_name);
    closedir(h); return r;
}
static std::string died(const Trace& t)
{
    char b[80];
    if (WIFSIGNALED(t.status)) snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(t.status)); else snprintf(b, sizeof b, "exit status %d", WEXITSTATUS(t.status));
    return b;
}

void c14(Gen& g, Case& c)
{
    std::string dir = fpath("c14d"), p = dir + "/song.mp3";
    mkdir(dir.c_str(), 0755);
    // the file and the tag
    Bytes audio = gen_audio(g, g.chance(1, 3) ? 30000 : 6000), file = audio;
    RefTag own; bool had = false; uint32_t mode = g.below(10); if (mode >= 8) mode = 1;
    if (g.below(3)) { own = gen_tag(g, 3, g.pick<uint32_t>({40, 300, 6000})); had = true;
        if (g.chance(1, mode == 1 ? 2 : 4) && own.ext.empty() && !own.footer && own.padding < 2048) own.padding += 2048; // (the new tag may be as long as the old one)
        file = cat(own.encode(), audio); c.label("had_tag"); }
    size_t tl = 0;
    if (file.size() >= 10 && !memcmp(file.data(), "ID3", 3) && (file[3] == 3 || file[3] == 4)) {
        tl = 10 + ((size_t)file[6] << 21 | (size_t)file[7] << 14 | (size_t)file[8] << 7 | file[9]); if (file[3] == 4 && (file[5] & 0x10)) tl += 10; if (tl > file.size()) tl = file.size();
    }
    Bytes rest(file.begin() + (long)tl, file.end());
    World w; bool again = had && g.chance(1, mode == 1 ? 2 : 3), keep = again && g.chance(mode == 1 ? 2 : 1, 3); if (again) { world_loaded(w, own); c.label("own_tag_again"); } else if (g.below(2)) world_fresh(g, w, c); else { RefTag t = gen_tag(g, 3, 300); world_loaded(w, t); }
    OpCfg o; o.maxlen = g.pick<uint32_t>({40, 300, 9000}); uint32_t n = keep ? 0 : g.below(4); for (uint32_t i = 0; i < n; i++) do_op(g, w, c, o);
    if (keep) { // changes that keep every size
        c.label("same_size"); w.tag->header->minor_version ^= 1;
        for (ID3v2_FrameList* l = w.tag->frames; l && l->frame; l = l->next) l->frame->header->flags[0] ^= 0x40;
    }
    bool del = g.chance(1, 3), compat = g.chance(1, 6);
    ID3v2_tag ct; memset(&ct, 0, sizeof ct); ct.tag = w.tag;
    std::string path = p;
    std::function<void()> op = [&] { if (del) { if (compat) remove_tag(path.c_str()); else ID3v2_delete_tag(path.c_str()); } else { if (compat) set_tag(path.c_str(), &ct); else ID3v2_write_tag(path.c_str(), w.tag); } };
    // what success gives, by the library itself
    put_file(p, file);
    { Trace t = plain(op); CHECK(!t.died, "without any failure: %s", died(t).c_str()); }
    Bytes done = get_file(p);
    c.log("%s%s on a file of %zu bytes (tag %zu), success gives %zu bytes", compat ? "compat " : "", del ? "delete" : "write", file.size(), tl, done.size());
    c.label(del ? "delete" : "write");
    if (mode == 0) { // no usable target
        c.nontrivial = true;
        uint32_t k = g.below(5);
        unlink(p.c_str());
        if (k == 0) { c.label("missing"); } else if (k == 1) { path = dir; c.label("directory"); } else if (k == 2) { path = dir + "/nodir/song.mp3"; c.label("missing_dir"); } else if (k == 4) { c.label("dangling_link"); path = dir + "/link.mp3"; if (symlink(g.below(2) ? "song.mp3" : p.c_str(), path.c_str())) fail("symlink"); } else { put_file(p, file); path = p + "/x"; c.label("not_a_directory"); }
        std::set<std::string> before = listing(dir);
        Trace t = traced(op, Fault(), path, nullptr);
        c.log("target %s", path.substr(dir.size()).c_str());
        CHECK(!t.died, "an unusable target: %s", died(t).c_str());
        CHECK(listing(dir) == before, "an unusable target: a file was created or removed");
        if (k == 3) { Bytes now; CHECK(get_file(p, now) && now == file, "another file was changed"); }
        if (k == 4) unlink(path.c_str());
        unlink(p.c_str()); rmdir(dir.c_str()); world_free(w); return;
    }
    if (mode == 2 && g.chance(1, 2)) { // no permission to write, or to read
        bool unreadable = g.chance(1, 3); c.label(unreadable ? "no_permission" : "read_only"); c.nontrivial = true;
        c.log(unreadable ? "target without any permission" : "read-only target");
        put_file(p, file);
        std::set<std::string> before = listing(dir);
        chmod(p.c_str(), unreadable ? 0 : 0444);
        Trace t = plain([&] { Unprivileged u; op(); });
        chmod(p.c_str(), 0644);
        CHECK(!t.died, "a target that may not be written: %s", died(t).c_str());
        Bytes now; CHECK(get_file(p, now), "a target that may not be written: the file is gone");
        CHECK(now == file || now == done, "a target that may not be written: the file has %zu bytes, neither the old %zu nor the new %zu contents", now.size(), file.size(), done.size());
        CHECK(listing(dir) == before, "a target that may not be written: a file was created or removed");
        unlink(p.c_str()); rmdir(dir.c_str()); world_free(w); return;
    }
    if (mode == 1) { // the temporary copy hits a file size limit
        put_file(p, file);
        std::set<std::string> before = listing(dir);
        uint32_t lim = done.empty() ? 0 : g.below((uint32_t)done.size()); if (g.chance(1, 2) && lim > 200) lim = g.below(200);
        c.log("file size limit %u", lim); c.label("size_limit"); c.nontrivial = true;
        pid_t k = fork();
        if (k == 0) { signal(SIGXFSZ, SIG_IGN); cpu_bound(); struct rlimit l = {lim, lim}; setrlimit(RLIMIT_FSIZE, &l); op(); _exit(0); }
        Trace t; waitpid(k, &t.status, 0); t.died = !(WIFEXITED(t.status) && WEXITSTATUS(t.status) == 0);
        CHECK(!t.died, "file size limit: %s", died(t).c_str());
        Bytes now = get_file(p);
        CHECK(now == file || now == done, "file size limit of %u bytes: the file has %zu bytes, neither the old %zu nor the new %zu contents", lim, now.size(), file.size(), done.size());
        CHECK(listing(dir) == before, "file size limit: a file was created or removed");
        unlink(p.c_str()); rmdir(dir.c_str()); world_free(w); return;
    }
    // every failing system call up to the replacement of the file
    put_file(p, file);
    std::set<std::string> before = listing(dir);
    Trace base = traced(op, Fault(), p, &file);
    if (base.no_ptrace) { c.label("no_ptrace"); world_free(w); return; }
    CHECK(!base.died, "without any failure: %s", died(base).c_str());
    int err_open = g.pick<int>({EACCES, EMFILE, ENOSPC, EROFS, ENOENT}), err_write = g.pick<int>({ENOSPC, EIO, EDQUOT}); bool partial = g.chance(1, 2);
    int injected = 0;
    for (int cls = 0; cls < N_CLS; cls++) {
        int lim = base.before[cls];
        // long copies: all of the first and last points, a sample in between
        for (int k = 0; k < lim; k++) {
            if (lim > 12 && k >= 5 && k < lim - 5 && k % (lim / 4 + 1)) continue;
            Fault f; f.cls = cls; f.onset = k; f.partial = cls == C_WRITE && partial;
            f.err = cls == C_READ ? EIO : cls == C_WRITE ? err_write : err_open;
            put_file(p, file);
            Trace t = traced(op, f, p, nullptr);
            injected++;
            CHECK(!t.died, "%s call #%d and all later ones fail (%s): %s", CLS_NAME[cls], k, strerror(f.err), died(t).c_str());
            Bytes now; CHECK(get_file(p, now), "%s call #%d fails: the file is gone", CLS_NAME[cls], k);
            CHECK(now == file || now == done, "%s call #%d and all later ones fail (%s%s): the file has %zu bytes, neither the old %zu nor the new %zu contents", CLS_NAME[cls], k, strerror(f.err), f.partial ? ", partial write" : "", now.size(), file.size(), done.size());
            CHECK(listing(dir) == before, "%s call #%d fails: a file was created or removed", CLS_NAME[cls], k);
            c.label(CLS_NAME[cls]);
        }
    }
    c.log("%d failures injected", injected);
    c.nontrivial = injected > 0;
    unlink(p.c_str()); rmdir(dir.c_str());
    world_free(w);
}

// ---- C15 -----------------------------------------------------------------
struct Script {
    int id = 0; Gen g; Case c; World w; std::string error; Bytes audio, file; std::string path; const Heap* shared = nullptr; const RefTag* st = nullptr; const char* shared_arg = nullptr; Bytes shared_bytes; World sw; ID3v2_tag* sct = nullptr; std::string spath;
    void start()
    {
        path = fpath((std::string("c15_") + (char)('0' + id)).c_str());
        audio = gen_audio(g, 200); if (audio.size() >= 3 && !memcmp(audio.data(), "ID3", 3)) audio[0] = 'J';
        put_file(path, audio); file = audio;
        if (g.below(2)) world_fresh(g, w, c); else { RefTag t = gen_tag(g, 4, 40); world_loaded(w, t); }
    }
    void step()
    {
        OpCfg o; o.maxlen = 40;
        switch (g.below(sw.tag ? 20 : 16)) {
        case 16: check_lookups(g, sw); expect(sw.m, sw.tag, "a tag nobody edits"); c.label("shared_lookups"); break;
        case 17: { ID3v2_Tag* t = ID3v2_read_tag(spath.c_str()); if (!t) fail("a tag in a file nobody edits is not found"); expect(st->frames, t, "a file nobody edits"); ID3v2_Tag_free(t);
            ID3v2_TagHeader* h = ID3v2_read_tag_header(spath.c_str()); if (!h || h->tag_size != st->body_size()) fail("the header of a file nobody edits"); ID3v2_TagHeader_free(h); c.label("shared_file"); break; }
        case 18: { World y = sw; y.tag = sct->tag; compat_verify(y, sct); c.label("shared_compat"); break; }
        case 19: { ID3v2_tag* t = load_tag(spath.c_str()); if (!t) fail("a tag in a file nobody edits is not loaded"); World y = sw; y.tag = t->tag; compat_verify(y, t); free_tag(t); break; }
        case 0: case 1: case 2: do_op(g, w, c, o); break;
        case 3: ID3v2_write_tag(path.c_str(), w.tag); world_after_write(w); file = cat(written_bytes(w), audio); { Bytes now = get_file(path); if (now != file) fail("written file differs from what the thread alone would write"); } break;
        case 4: { ID3v2_Tag* t = ID3v2_read_tag(path.c_str()); if ((t != nullptr) != (file.size() != audio.size())) fail("reading the thread's own file"); if (t) { ID3v2_Tag* k = w.tag; (void)k; Bytes now = get_file(path); if (now != file) fail("the thread's file changed"); snap(t); ID3v2_Tag_free(t); } break; }
        case 5: { ID3v2_Tag* t = ID3v2_read_tag_from_buffer(shared->p, (int)shared->n); if (!t) fail("shared buffer not recognised"); expect(st->frames, t, "reading a shared buffer"); ID3v2_Tag_free(t); break; }
        case 6: check_lookups(g, w); break;
        case 7: ID3v2_delete_tag(path.c_str()); file = audio; { Bytes now = get_file(path); if (now != audio) fail("deleting the tag of the thread's own file"); } break;
        case 8: { ID3v2_TagHeader* h = ID3v2_read_tag_header_from_buffer(shared->p); if (!h || h->tag_size != st->body_size()) fail("shared header"); ID3v2_TagHeader_free(h);
            ID3v2_Tag_set_album(w.tag, shared_arg); MF f; f.k = TEXT; f.id = "TALB"; f.enc = has_bom(shared_bytes); f.body = shared_bytes; m_set(w, f);
            int n = ID3v2_strlent(shared_arg); if (n != (int)shared_bytes.size()) fail("strlent"); char* u = ID3v2_to_unicode((char*)shared_arg); if (u != shared_arg) { if (ID3v2_strlen(u) != (int)shared_bytes.size() * 2) fail("to_unicode"); free(u); } break; }
        case 9: { // string helpers
            bool wide; Heap s(gen_arg(g, 60, &wide)); size_t len = s.n - (wide ? 2 : 1);
            if (ID3v2_strlen(s.p) != (int)len || ID3v2_strlent(s.p) != (int)s.n) fail("string lengths");
            char* u = ID3v2_to_unicode(s.p);
            if (wide) { if (u != s.p) free(u); break; }
            Bytes want = {0xFF, 0xFE}; for (size_t i = 0; i <= len; i++) { want.push_back(s.orig[i]); want.push_back(0); }
            bool ok = !memcmp(u, want.data(), want.size()); free(u); if (!ok) fail("to_unicode"); break; }
        case 10: case 11: case 12: { // compatibility layer, on a tag of the thread's own
            World x; ID3v2_tag* t;
            if (g.below(2)) { t = new_tag(); if (!t) fail("new_tag"); x.tag = t->tag; }
            else { t = load_tag_with_buffer(shared->p, (int)shared->n); if (!t) fail("shared buffer not loaded"); x.tag = t->tag; x.m = st->frames; x.ver = st->ver; x.minor = st->minor; x.flags = st->flags & ~0x50; x.padding = st->padding; }
            uint32_t k = 1 + g.below(4); for (uint32_t i = 0; i < k; i++) compat_edit(g, x, t, c, 40, "c15cover" + std::to_string(id));
            compat_verify(x, t);
            if (g.below(2)) {
                set_tag(path.c_str(), t); file = cat(written_bytes(x), audio); if (get_file(path) != file) fail("set_tag: the file differs from what the thread alone would write");
                ID3v2_tag* r = load_tag(path.c_str()); if (!r) fail("load_tag: nothing in the thread's own file"); World y = x; y.tag = r->tag; compat_verify(y, r); free_tag(r);
                if (g.below(2)) { remove_tag(path.c_str()); file = audio; if (get_file(path) != file) fail("remove_tag: the thread's own file"); }
            }
            free_tag(t); break; }
        case 13: { // another tag, from the thread's own file
            ID3v2_TagHeader* h = ID3v2_read_tag_header(path.c_str()); if ((h != nullptr) != (file.size() != audio.size())) fail("reading the header of the thread's own file"); if (h) ID3v2_TagHeader_free(h);
            world_free(w); RefTag t = gen_tag(g, 4, 40); file = cat(t.encode(), audio); put_file(path, file);
            w = World(); w.tag = ID3v2_read_tag(path.c_str()); if (!w.tag) fail("a well-formed tag in the thread's own file is not recognised");
            w.m = t.frames; w.ver = t.ver; w.minor = t.minor; w.flags = t.flags & ~0x50; w.padding = t.padding; w.tag_size = t.body_size(); break; }
        case 14: { world_free(w); world_fresh(g, w, c); break; }
        default: { ID3v2_tag* t = load_tag_with_buffer(shared->p, (int)shared->n); if (!t) fail("shared buffer not loaded"); Heap s(cstr(std::string(1 + g.below(20), (char)('a' + id)))); tag_set_title(s.p, 0, t); ID3v2_frame* f = tag_get_title(t); if (!f) fail("compat title"); ID3v2_frame_text_content* x = parse_text_frame_content(f); bool ok = x && x->size == (int)s.n && !memcmp(x->data, s.p, s.n); if (x) { free(x->data); free(x); } free_tag(t); if (!ok) fail("compat title differs"); break; }
        }
        expect(w.m, w.tag, "the thread's own tag");
        if (w.tag->header->tag_size != w.tag_size) fail("size of the thread's own tag");
    }
};
static void run_threads(std::vector<Script>& s, uint32_t steps, bool start)
{
    std::atomic<uint32_t> ready{0}; uint32_t n = (uint32_t)s.size();
    std::vector<std::thread> th;
    for (uint32_t i = 0; i < n; i++) th.emplace_back([&, i] {
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < n) { }
        try { if (start) s[i].start(); for (uint32_t k = 0; k < steps; k++) s[i].step(); } catch (Violation& v) { s[i].error = v.msg; }
    });
    for (auto& t : th) t.join();
}
// Threads whose calls are the first ones a process makes to the library: a process that has never called it
// forks one for each case (what is set up at the first use is set up by several threads then).
struct FirstUse { uint32_t seed, n, steps, twins; };
struct FirstEnd { int status; char msg[400]; };
static void first_use(const FirstUse& q, int out)
{
    std::string dir = scratch_dir(); Gen g; g.rnd = true; g.rng = Rng(q.seed);
    RefTag st = gen_tag(g, 4, 60); Heap shared(st.encode()); bool wide; Heap arg(gen_arg(g, 40, &wide));
    std::vector<Script> s(q.n); uint32_t seed0 = g.u32();
    for (uint32_t i = 0; i < q.n; i++) { s[i].id = (int)i; s[i].g.rnd = true; s[i].g.rng = Rng(q.twins ? seed0 : g.u32()); s[i].shared = &shared; s[i].st = &st; s[i].shared_arg = arg.p; s[i].shared_bytes = arg.orig; }
    run_threads(s, q.steps, true);
    for (auto& x : s) unlink(x.path.c_str());
    rmdir(dir.c_str());
    for (auto& x : s) { if (x.error != "") { if (write(out, x.error.data(), std::min<size_t>(x.error.size(), 390)) < 0) { } _exit(4); } }
    if (!shared.intact() || !arg.intact()) { if (write(out, "a shared input was modified", 27) < 0) { } _exit(4); }
    _exit(0);
}
static int g_zygote = -1;
static void zygote_main(int fd)
{
    FirstUse q; std::string log = fpath("c15_first");
    while (read(fd, &q, sizeof q) == (ssize_t)sizeof q) {
        FirstEnd e; memset(&e, 0, sizeof e); int pp[2]; if (pipe(pp)) _exit(3);
        pid_t k = fork();
        if (k == 0) { int lf = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (lf >= 0) dup2(lf, 2); close(pp[0]); alarm(120); first_use(q, pp[1]); }
        close(pp[1]); size_t at = 0; ssize_t r; while (at < 399 && (r = read(pp[0], e.msg + at, 399 - at)) > 0) at += (size_t)r;
        close(pp[0]); while (waitpid(k, &e.status, 0) < 0 && errno == EINTR) { }
        if (e.status && !e.msg[0]) { Bytes b; get_file(log, b); std::string t(b.begin(), b.end()); size_t i = t.find("SUMMARY: "); if (i != std::string::npos) snprintf(e.msg, sizeof e.msg, "%.380s", t.substr(i, t.find('\n', i) - i).c_str()); }
        unlink(log.c_str());
        if (write(fd, &e, sizeof e) != (ssize_t)sizeof e) break;
    }
    _exit(0);
}
void c15(Gen& g, Case& c)
{
    scratch_dir();
    if (g_zygote < 0) {
        int sp[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sp)) fail("socketpair");
        pid_t k = fork(); if (k == 0) { close(sp[0]); prctl(PR_SET_PDEATHSIG, SIGKILL); zygote_main(sp[1]); }
        close(sp[1]); g_zygote = sp[0];
    }
    if (g.chance(1, 8)) {
        FirstUse q = {g.u32(), 2 + g.below(3), 1 + g.below(6), g.chance(1, 2)}; FirstEnd e;
        c.label("first_use"); c.nontrivial = true; c.log("%u threads of a fresh process, %u steps each%s, seed %u", q.n, q.steps, q.twins ? ", alike" : "", q.seed);
        if (write(g_zygote, &q, sizeof q) != (ssize_t)sizeof q || recv(g_zygote, &e, sizeof e, MSG_WAITALL) != (ssize_t)sizeof e) { fprintf(stderr, "the process for first uses is gone\n"); _exit(3); }
        if (e.msg[0]) failf("in a thread of a fresh process: %s", e.msg);
        if (e.status) failf("threads that make the first calls of a process: the process ended with status %d", WIFEXITED(e.status) ? WEXITSTATUS(e.status) : -WTERMSIG(e.status));
        return;
    }
    RefTag st = gen_tag(g, 4, 60);
    Heap shared(st.encode());
    bool wide; Heap arg(gen_arg(g, 40, &wide));
    uint32_t n = 2 + g.below(3), steps = 2 + g.below(7), mode = g.below(4);
    c.log("%u %s, %u steps each", n, mode == 0 ? "interleaved histories" : "threads", steps);
    c.label(mode == 0 ? "interleaved" : "threads");
    std::vector<Script> s(n);
    World sw; world_loaded(sw, st); std::string spath = fpath("c15_shared"); put_file(spath, shared.orig);
    ID3v2_tag* sct = A(load_tag_with_buffer(shared.p, (int)shared.n)); if (!sct) fail("a well-formed tag is not loaded");
    bool twins = g.chance(1, 3); uint32_t seed0 = g.u32();
    for (uint32_t i = 0; i < n; i++) { s[i].id = (int)i; s[i].g.rnd = true; s[i].g.rng = Rng(twins ? seed0 : g.u32()); s[i].shared = &shared; s[i].st = &st; s[i].shared_arg = arg.p; s[i].shared_bytes = arg.orig; s[i].sw = sw; s[i].sct = sct; s[i].spath = spath; s[i].c.want_desc = c.want_desc; s[i].start(); }
    if (twins) c.label("same_history");
    c.nontrivial = true;
    if (mode == 0) { // a chosen interleaving of whole calls
        std::vector<uint32_t> left(n, steps); uint32_t total = n * steps;
        while (total) { uint32_t k = g.below(n); while (!left[k]) k = (k + 1) % n; s[k].step(); left[k]--; total--; }
    } else {
        run_threads(s, steps, false);
        for (auto& x : s) if (x.error != "") fail("in a thread: " + x.error);
    }
    if (c.want_desc) for (auto& x : s) { c.desc += " | history: "; c.desc += x.c.desc.substr(0, 400); }
    for (auto& x : s) { for (auto& l : x.c.labels) c.labels.insert(l); world_free(x.w); unlink(x.path.c_str()); }
    expect(st.frames, sw.tag, "a tag nobody edited"); world_free(sw); A(free_tag(sct));
    if (get_file(spath) != shared.orig) fail("a file nobody edited has changed");
    unlink(spath.c_str());
    if (!shared.intact() || !arg.intact()) fail("a shared input was modified");
}
