// Driver: parallel random search, crash-proof; confirmation, shrinking and replay of failures.
#include "engine.hpp"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <map>
#include <unordered_set>
#include <algorithm>

Dict g_dict;
static std::string g_base, g_out, g_dict_text;
static const Prop* g_prop;
static bool g_noshrink = false;

std::string scratch_dir()
{
    static pid_t pid = 0; static std::string d;
    if (pid != getpid()) { pid = getpid(); d = g_base + "/p" + std::to_string(pid); mkdir(d.c_str(), 0755); }
    return d;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static void load_dict(const char* path)
{
    FILE* f = path ? fopen(path, "r") : nullptr; if (!f) return;
    char line[4096];
    while (fgets(line, sizeof line, f)) {
        g_dict_text += line;
        if (line[0] == 'i') g_dict.ints.push_back((uint32_t)strtoul(line + 2, nullptr, 10));
        if (line[0] == 's') { std::string s; for (char* p = line + 2; p[0] > ' ' && p[1] > ' '; p += 2) { char h[3] = {p[0], p[1], 0}; s += (char)strtoul(h, nullptr, 16); } g_dict.strs.push_back(s); }
    }
    fclose(f);
}
static std::string slurp(const std::string& p) { std::string r; FILE* f = fopen(p.c_str(), "rb"); if (!f) return r; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static void spit(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); if (f) { fwrite(s.data(), 1, s.size(), f); fclose(f); } }
static std::string jstr(const std::string& s)
{
    std::string r = "\""; char t[8];
    for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; } else if (ch < 32 || ch > 126) { snprintf(t, sizeof t, "\\u%04x", ch); r += t; } else r += (char)ch; }
    return r + "\"";
}
static uint64_t fnv(const uint8_t* p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ull; } return h; }
static uint64_t case_seed(uint64_t seed, const char* id, uint64_t idx) { Rng r(seed * 0x9E3779B97F4A7C15ull + fnv((const uint8_t*)id, 3) + idx * 0xD1342543DE82EF95ull); r.next(); return r.next(); }

static void on_cpu(int) { _exit(98); }
static void on_wall(int) { _exit(97); }
static void arm(int cpu)
{
    if (g_noshrink) cpu = 4;
    struct itimerval v = {{0, 0}, {cpu, 0}};
    setitimer(ITIMER_PROF, &v, nullptr);
    struct itimerval w = {{0, 0}, {cpu * 6 + 120, 0}};
    setitimer(ITIMER_REAL, &w, nullptr);
}
static void in_child(const std::string& log)
{
    signal(SIGPROF, on_cpu); signal(SIGALRM, on_wall);
    int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
}

// ---- one case in a child -----------------------------------------------------
struct Res { volatile int kind; char msg[4096]; char desc[8192]; uint32_t used; };
static Res* g_res;
struct Outcome { bool failed = false; std::string cls, msg, desc; uint32_t used = 0; };
static std::string crash_summary(const std::string& log)
{
    std::string t = slurp(log);
    for (const char* key : {"SUMMARY: ", "runtime error: ", "ERROR: "}) { size_t i = t.find(key); if (i != std::string::npos) { size_t e = t.find('\n', i); return t.substr(i, std::min<size_t>(e == std::string::npos ? 300 : e - i, 300)); } }
    return "";
}
static Outcome explain(int st, int kind, const std::string& log)
{
    Outcome o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && kind == 1) return o;
    o.failed = true;
    if (kind == 2) { o.cls = "violation"; o.msg = g_res->msg; return o; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 98) { o.cls = "hang"; o.msg = "does not terminate within the CPU limit"; return o; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { o.cls = "hang"; o.msg = "does not terminate (blocked)"; return o; }
    std::string s = crash_summary(log); char b[64];
    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(st)); else snprintf(b, sizeof b, "process ended with status %d", WEXITSTATUS(st));
    o.cls = "crash"; o.msg = std::string(b) + (s.empty() ? "" : ": " + s);
    return o;
}
static void rm_scratch(pid_t p) { std::string d = g_base + "/p" + std::to_string(p); if (d.size() > 8) { std::string c = "rm -rf '" + d + "'"; if (system(c.c_str())) {} } }
static void rm_quick(pid_t p) { // most cases leave a handful of files
    std::string d = g_base + "/p" + std::to_string(p); if (access(d.c_str(), F_OK)) return; rm_scratch(p); }
static void run_one(Gen& g, bool desc)
{
    Case c; c.want_desc = desc;
    g_res->kind = 0; g_res->msg[0] = g_res->desc[0] = 0;
    try { g_prop->run(g, c); g_res->kind = 1; }
    catch (Violation& v) { snprintf(g_res->msg, sizeof g_res->msg, "%s", v.msg.c_str()); g_res->kind = 2; }
    snprintf(g_res->desc, sizeof g_res->desc, "%s", c.desc.c_str());
    g_res->used = (uint32_t)std::min(g.pos, g.buf.size());
}
static Outcome attempt(const Bytes& b, bool desc = false)
{
    std::string log = g_out + "/child.log";
    g_res->kind = 0; g_res->desc[0] = 0; g_res->used = (uint32_t)b.size();
    pid_t p = fork();
    if (p == 0) {
        in_child(log); arm(g_prop->cpu_limit);
        Gen g; g.buf = b;
        run_one(g, desc);
        _exit(g_res->kind == 1 ? 0 : 77);
    }
    int st; waitpid(p, &st, 0); rm_quick(p);
    Outcome o = explain(st, g_res->kind, log);
    o.desc = g_res->desc; o.used = g_res->used;
    return o;
}
// the cases idx0, idx0+step, ... idx of one worker, in one process
static Outcome attempt_history(uint64_t seed, uint64_t first, uint64_t step, uint64_t last)
{
    std::string log = g_out + "/child.log";
    g_res->kind = 0;
    pid_t p = fork();
    if (p == 0) {
        in_child(log);
        for (uint64_t i = first; i <= last; i += step) {
            arm(g_prop->cpu_limit);
            Gen g; g.rnd = true; g.rng = Rng(case_seed(seed, g_prop->id, i));
            run_one(g, i == last);
            if (g_res->kind != 1) _exit(77);
        }
        _exit(0);
    }
    int st; waitpid(p, &st, 0); rm_quick(p);
    Outcome o = explain(st, g_res->kind, log); o.desc = g_res->desc;
    return o;
}

static Bytes shrink(Bytes b, Outcome& best, double limit, int* runs)
{
    double t0 = now();
    auto tryit = [&](const Bytes& x) { if (now() - t0 > limit) return false; (*runs)++; Outcome o = attempt(x); if (!o.failed || (o.cls == "hang") != (best.cls == "hang")) return false; best = o; return true; };
    if (best.cls == "hang") limit = std::min(limit, 1.0);
    if (best.used < b.size()) { Bytes x(b.begin(), b.begin() + best.used); if (tryit(x)) b = x; }
    bool progress = true;
    while (progress && now() - t0 < limit) {
        progress = false;
        for (size_t cut = b.size() / 2; cut >= 1; cut /= 2) { // shorter tail
            while (b.size() > cut) { Bytes x(b.begin(), b.end() - (long)cut); if (!tryit(x)) break; b = x; progress = true; }
            if (now() - t0 > limit) break;
        }
        for (size_t k = 64; k >= 1; k /= 2) { // delete, then zero ranges
            for (size_t i = 0; i + k <= b.size() && now() - t0 < limit;) { Bytes x = b; x.erase(x.begin() + (long)i, x.begin() + (long)(i + k)); if (tryit(x)) { b = x; progress = true; } else i += k; }
            for (size_t i = 0; i + k <= b.size() && now() - t0 < limit; i += k) { bool z = true; for (size_t j = i; j < i + k; j++) z = z && !b[j]; if (z) continue; Bytes x = b; std::fill(x.begin() + (long)i, x.begin() + (long)(i + k), 0); if (tryit(x)) { b = x; progress = true; } }
        }
        for (size_t i = 0; i < b.size() && now() - t0 < limit; i++) for (uint8_t v : {(uint8_t)(b[i] / 2), (uint8_t)(b[i] - 1)}) if (b[i] && v < b[i]) { Bytes x = b; x[i] = v; if (tryit(x)) { b = x; progress = true; } }
    }
    return b;
}
static std::string to_hex(const Bytes& b) { std::string r; char t[4]; for (uint8_t x : b) { snprintf(t, sizeof t, "%02x", x); r += t; } return r; }

static void report(const std::string& name, const Bytes& b, const Outcome& o, const std::string& extra, int runs)
{
    std::string p = g_out + "/" + name;
    std::string d = "[";
    for (size_t i = 0; i < g_dict_text.size();) { size_t e = g_dict_text.find('\n', i); if (e == std::string::npos) break; if (d.size() > 1) d += ", "; d += jstr(g_dict_text.substr(i, e - i)); i = e + 1; }
    d += "]";
    spit(p, "{\n \"property\": " + jstr(g_prop->id) + ",\n \"failure\": " + jstr(o.cls) + ",\n \"message\": " + jstr(o.msg) + ",\n \"case\": " + jstr(o.desc) + ",\n \"shrink_runs\": " + std::to_string(runs) + ",\n" + extra + " \"case_hex\": \"" + to_hex(b) + "\",\n \"dict\": " + d + "\n}\n");
    printf("FAIL %s\n", p.c_str()); printf("MSG [%s] %s\n", o.cls.c_str(), o.msg.c_str()); printf("CASE %s\n", o.desc.c_str());
    fflush(stdout);
}
// Returns true if the failure is confirmed and reported
static bool confirm(const Bytes& b0, const std::string& name)
{
    bool threads = !strcmp(g_prop->id, "C15");
    int need = g_noshrink ? 1 : 3, tries = threads ? 30 : 3, bad = 0; Outcome o;
    for (int i = 0; i < tries && bad < need; i++) { Outcome k = attempt(b0); if (k.failed) { bad++; o = k; } else if (!threads) return false; }
    if (bad < need) return false;
    int runs = 0;
    Bytes b = threads || g_noshrink ? b0 : shrink(b0, o, 20, &runs);
    Outcome d = attempt(b, true);
    for (int i = 0; i < 20 && !d.failed; i++) d = attempt(b, true);
    if (!d.failed) { b = b0; d = attempt(b, true); for (int i = 0; i < 20 && !d.failed; i++) d = attempt(b, true); if (!d.failed) { d = o; } }
    report(name, b, d, "", runs);
    return true;
}

// ---- random search -------------------------------------------------------------
struct Slot { volatile uint64_t idx, done; volatile int finished; Res res; uint32_t len; uint8_t buf[Gen::MAXLEN]; };

static int random_mode(uint64_t seed, uint64_t cases, int workers, double wall)
{
    Slot* sl = (Slot*)mmap(nullptr, sizeof(Slot) * (size_t)workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pid((size_t)workers);
    double t0 = now();
    for (int w = 0; w < workers; w++) {
        pid[(size_t)w] = fork();
        if (pid[(size_t)w]) continue;
        in_child(g_out + "/w" + std::to_string(w) + ".log");
        Slot& s = sl[w]; g_res = &s.res;
        std::unordered_set<uint64_t> seen; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; uint64_t nontriv = 0, done = 0;
        for (uint64_t i = (uint64_t)w; i < cases; i += (uint64_t)workers) {
            if (now() - t0 > wall) break;
            s.idx = i; s.len = 0;
            arm(g_prop->cpu_limit);
            Gen g; g.rnd = true; g.rng = Rng(case_seed(seed, g_prop->id, i)); g.mirror = s.buf; g.mirror_len = &s.len;
            Case c; c.want_desc = samples.size() < 2 && done % 7 == 3;
            try { g_prop->run(g, c); } catch (Violation& v) { snprintf(s.res.msg, sizeof s.res.msg, "%s", v.msg.c_str()); s.res.kind = 2; _exit(77); }
            done++; s.done = done;
            for (auto& l : c.labels) labels[l]++;
            if (c.nontrivial) { nontriv++; if (seen.size() < 1500000) seen.insert(fnv(g.buf.data(), std::min(g.pos, g.buf.size()))); if (c.want_desc && !c.desc.empty()) samples.push_back(c.desc.substr(0, 600)); }
        }
        std::string o = "done " + std::to_string(done) + "\nnontrivial " + std::to_string(nontriv) + "\n";
        for (auto& l : labels) o += "label " + std::to_string(l.second) + " " + l.first + "\n";
        for (auto& x : samples) { std::string y = x; std::replace(y.begin(), y.end(), '\n', ' '); o += "sample " + y + "\n"; }
        spit(g_out + "/w" + std::to_string(w) + ".stat", o);
        std::string h; h.reserve(seen.size() * 8); for (uint64_t x : seen) h.append((char*)&x, 8);
        spit(g_out + "/w" + std::to_string(w) + ".hash", h);
        s.finished = 1;
        _exit(0);
    }
    int left = workers, bad = -1, bad_status = 0;
    while (left) {
        int st; pid_t p = wait(&st); if (p < 0) break;
        left--;
        int w = -1; for (int i = 0; i < workers; i++) if (pid[(size_t)i] == p) w = i;
        rm_scratch(p);
        if (w < 0) continue;
        pid[(size_t)w] = 0;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sl[w].finished) && bad < 0) {
            bad = w; bad_status = st;
            for (pid_t k : pid) if (k) kill(k, SIGKILL);
        }
    }
    if (bad < 0) return 0;
    Slot& s = sl[bad];
    Bytes b(s.buf, s.buf + s.len);
    printf("SUSPECT case %llu of worker %d, status %x, %s\n", (unsigned long long)s.idx, bad, bad_status, s.res.kind == 2 ? s.res.msg : crash_summary(g_out + "/w" + std::to_string(bad) + ".log").c_str());
    fflush(stdout);
    if (confirm(b, "replay.json")) return 1;
    // not reproducible alone: repeat what this process did before
    Outcome o;
    for (int i = 0; i < 3; i++) { o = attempt_history(seed, (uint64_t)bad, (uint64_t)workers, s.idx); if (!o.failed) break; }
    if (o.failed) {
        uint64_t first = (uint64_t)bad; // keep only as much history as needed
        for (uint64_t k = 1; s.idx >= k * (uint64_t)workers + (uint64_t)bad && k < 5000; k *= 4) { Outcome x = attempt_history(seed, s.idx - k * (uint64_t)workers, (uint64_t)workers, s.idx); if (x.failed) { first = s.idx - k * (uint64_t)workers; o = x; break; } }
        report("replay.json", b, o, " \"history\": {\"seed\": " + std::to_string(seed) + ", \"first\": " + std::to_string(first) + ", \"step\": " + std::to_string(workers) + ", \"last\": " + std::to_string(s.idx) + "},\n", 0);
        return 1;
    }
    printf("UNCONFIRMED\n");
    return 2;
}

static uint64_t jnum(const std::string& s, const char* key) { size_t i = s.find(std::string("\"") + key + "\":"); return i == std::string::npos ? 0 : strtoull(s.c_str() + i + strlen(key) + 3, nullptr, 10); }

int main(int argc, char** argv)
{
    if (argc < 3) { fprintf(stderr, "usage: harness ID random SEED CASES WORKERS WALL | confirm NAME FILE... | replay FILE | seeds DIR N SEED\n"); return 2; }
    for (int i = 0; i < N_PROPS; i++) if (!strcmp(PROPS[i].id, argv[1])) g_prop = &PROPS[i];
    if (!g_prop) return 2;
    g_base = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : ""; g_out = getenv("VERIF_OUT") ? getenv("VERIF_OUT") : "";
    if (g_base.empty() || g_out.empty()) { fprintf(stderr, "VERIF_SCRATCH and VERIF_OUT must be set\n"); return 2; }
    load_dict(getenv("VERIF_DICT"));
    g_res = (Res*)mmap(nullptr, sizeof(Res), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    { struct rlimit l; getrlimit(RLIMIT_STACK, &l); if (l.rlim_cur == RLIM_INFINITY || l.rlim_cur > 512u << 10) { l.rlim_cur = 512u << 10; setrlimit(RLIMIT_STACK, &l); } } // a usual small stack (macOS threads; Windows has 1 MB)
    std::string mode = argv[2];
    if (mode == "info") { printf("%u %u %u\n%s\n", g_prop->quick, g_prop->thorough, g_prop->fuzz_quick, g_prop->rule); return 0; }
    if (mode == "random-noshrink") g_noshrink = true; // (tools/mutate.py)
    if (mode.substr(0, 6) == "random" && argc >= 7) return random_mode(strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10), atoi(argv[5]), atof(argv[6]));
    if (mode == "confirm") { for (int i = 3; i < argc; i++) { std::string s = slurp(argv[i]); if (confirm(Bytes(s.begin(), s.end()), "replay.json")) return 1; } return 0; }
    if (mode == "seeds" && argc >= 6) {
        // choice bytes of random cases, as a starting corpus
        int n = atoi(argv[4]);
        for (int i = 0; i < n; i++) {
            g_res->kind = 0; g_res->used = 0;
            Gen g; g.rnd = true; g.rng = Rng(case_seed(strtoull(argv[5], nullptr, 10) + 77, g_prop->id, (uint64_t)i));
            Case c; try { g_prop->run(g, c); } catch (Violation&) { }
            Bytes b = g.buf; if (b.size() > 4096) continue;
            spit(std::string(argv[3]) + "/s" + std::to_string(i), std::string(b.begin(), b.end()));
        }
        return 0;
    }
    if (mode == "replay" && argc >= 4) {
        std::string s = slurp(argv[3]);
        Outcome o; size_t i = s.find("\"history\":");
        if (i != std::string::npos) o = attempt_history(jnum(s, "seed"), jnum(s, "first"), jnum(s, "step"), jnum(s, "last"));
        else {
            i = s.find("\"case_hex\": \""); if (i == std::string::npos) return 2;
            Bytes b; for (i += 13; s[i] != '"'; i += 2) b.push_back((uint8_t)strtoul(s.substr(i, 2).c_str(), nullptr, 16));
            int tries = !strcmp(g_prop->id, "C15") ? 30 : 1;
            for (int k = 0; k < tries && !o.failed; k++) o = attempt(b, true);
        }
        printf("%s\nCASE %s\n", o.failed ? ("FAILS [" + o.cls + "] " + o.msg).c_str() : "PASSES", o.desc.c_str());
        return o.failed ? 1 : 0;
    }
    return 2;
}
