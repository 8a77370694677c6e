#!/usr/bin/env python3
"""check.py ID quick|thorough          run one property's check
check.py ID replay FILE             re-run one recorded failure
check.py setup                      build everything once (only warms the cache)

Builds the library from the working tree of /repo together with the harness,
searches for a failing case (random choice sequences on all cores, then
coverage-guided fuzzing of the same choice sequences with libFuzzer), confirms
and shrinks what it finds and writes evidence/<ID>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no answer.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
JOBS = min(8, os.cpu_count() or 8)

# Per variant: flags of the library, flags of the harness, link flags
VARIANTS = {
    "asan": dict(
        lib="-g -O1 -fsanitize=address -fno-omit-frame-pointer -fsanitize=fuzzer-no-link,vla-bound,bounds,return -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern",
        har="-g -O1 -fsanitize=address -fno-omit-frame-pointer",
        link="-fsanitize=address,fuzzer-no-link -lpthread"),
    "tsan": dict(
        lib="-g -O0 -fsanitize=thread -fno-omit-frame-pointer",
        har="-g -O1 -fsanitize=thread -fno-omit-frame-pointer",
        link="-fsanitize=thread -lpthread"),
}
LIB_COMMON = "-std=gnu99 -w"
HAR_COMMON = "-std=c++17 -Wall -Wno-deprecated-declarations"
ENV = {
    "ASAN_OPTIONS": "exitcode=99:detect_leaks=0:quarantine_size_mb=16:hard_rss_limit_mb=2500:allocator_may_return_null=1:max_malloc_fill_size=4096:malloc_fill_byte=190:handle_abort=0",
    "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=1",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:die_after_fork=0:history_size=4",
}
TIERS = {  # wall limits of the random and the coverage-guided phase, in seconds
    "quick": (70, 60), "thorough": (420, 300),
}


def say(s):
    print(s, flush=True)


def die(msg):
    say("ERROR: " + msg)
    sys.exit(2)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree(top, exts):
    r = []
    for d, dirs, files in os.walk(top):
        dirs.sort()
        r += [os.path.join(d, f) for f in sorted(files) if f.endswith(exts)]
    return r


def compile_all(cmds):
    def one(c):
        p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return c, p.returncode, p.stdout.decode("utf-8", "replace")
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for c, rc, out in ex.map(one, cmds):
            if rc:
                die("build failed: %s\n%s" % (" ".join(c), out[-4000:]))


def build(variant, want_fuzzer):
    """Returns the paths of the harness and of the fuzzer, built from /repo as it is now."""
    v = VARIANTS[variant]
    heads = tree(os.path.join(REPO, "include"), (".h",)) + tree(os.path.join(REPO, "src"), (".h",))
    srcs = tree(os.path.join(REPO, "src"), (".c",))
    hsrc = tree(os.path.join(HERE, "harness"), (".hpp", ".cpp"))
    if not srcs:
        die("no sources in %s/src" % REPO)
    hk = [p for f in heads for p in (f, read(f))]
    libkey = sha(variant, LIB_COMMON, v["lib"], *hk, *[p for f in srcs for p in (f, read(f))])
    harkey = sha(variant, HAR_COMMON, v["har"], *[p for f in heads if "/include/" in f for p in (f, read(f))], *[p for f in hsrc for p in (f, read(f))])
    os.makedirs(BUILD, exist_ok=True)
    libdir, hardir = os.path.join(BUILD, "lib-" + libkey), os.path.join(BUILD, "har-" + harkey)
    cmds, moves = [], []
    cpps = [os.path.join(HERE, "harness", f) for f in ("ref.cpp", "api.cpp", "props.cpp", "props_sys.cpp", "props_env.cpp", "props_ctx.cpp", "main.cpp", "fuzz.cpp")]
    if not os.path.isdir(libdir):
        t = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
        for i, s in enumerate(srcs):
            cmds.append(["clang", *LIB_COMMON.split(), *v["lib"].split(), "-I" + REPO + "/include", "-I" + REPO + "/src", "-c", s, "-o", "%s/%03d.o" % (t, i)])
        moves.append((t, libdir))
    if not os.path.isdir(hardir):
        t = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
        for s in cpps:
            cmds.insert(0, ["clang++", *HAR_COMMON.split(), *v["har"].split(), "-I" + REPO + "/include", "-c", s, "-o", "%s/%s.o" % (t, os.path.basename(s))])
        moves.append((t, hardir))
    compile_all(cmds)
    for t, d in moves:
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)  # another run built it meanwhile
    objs = sorted(glob.glob(libdir + "/*.o"))
    base = [hardir + "/" + os.path.basename(s) + ".o" for s in cpps[:6]]
    out = tempfile.mkdtemp(prefix="bin-", dir=BUILD)
    cmds = [["clang++", *base, hardir + "/main.cpp.o", *objs, *v["link"].split(), "-o", out + "/harness"]]
    if want_fuzzer:
        cmds.append(["clang++", *base, hardir + "/fuzz.cpp.o", *objs, "-fsanitize=address,fuzzer", "-lpthread", "-o", out + "/fuzzer"])
    compile_all(cmds)
    return out


def harvest(path):
    """Numbers and strings of the code under test: boundary values worth generating."""
    ints, strs = set(), set()
    for f in tree(REPO + "/src", (".c", ".h")) + tree(REPO + "/include", (".h",)):
        t = re.sub(r"/\*.*?\*/|//[^\n]*", " ", read(f).decode("latin-1"), flags=re.S)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
            try:
                s = m.group(1).encode("latin-1").decode("unicode_escape").encode("latin-1")
            except Exception:
                continue
            if 1 <= len(s) <= 64 and not s.endswith(b".h"):
                strs.add(s)
        t = re.sub(r'"(?:[^"\\\n]|\\.)*"', " ", t)
        num = r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])"
        for m in re.finditer(num, t):
            ints.add(int(m.group(1), 16 if m.group(1)[:2].lower() == "0x" else 10))
        for m in re.finditer(num + r"\s*(\*|<<|\+|-)\s*" + num, t):
            a, b = [int(x, 0) if not re.match(r"0\d", x) else int(x, 8) for x in (m.group(1), m.group(3))]
            if m.group(2) == "<<" and b > 31:
                continue
            ints.add({"*": a * b, "<<": a << b if b < 32 else 0, "+": a + b, "-": abs(a - b)}[m.group(2)])
    with open(path, "w") as f:
        for i in sorted(ints):
            if i < 2**31:
                f.write("i %d\n" % i)
        for s in sorted(strs):
            f.write("s %s\n" % s.hex())


class Killer:
    procs = []

    @classmethod
    def stop(cls, *_):
        for p in cls.procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


def run(cmd, env, timeout):
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    Killer.procs.append(p)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return -9, out.decode("utf-8", "replace")
    return p.returncode, out.decode("utf-8", "replace")


def fuzz(bins, pid, env, work, seed, runs, wall):
    """Coverage-guided phase; returns (executions, distinct non-trivial, artifacts, features)."""
    seeds = work + "/seeds"
    os.makedirs(seeds)
    run([bins + "/harness", pid, "seeds", seeds, "150", str(seed)], env, 120)
    procs = []
    for j in range(JOBS):
        corp, art = "%s/corpus%d" % (work, j), "%s/art%d/" % (work, j)
        os.makedirs(corp), os.makedirs(art)
        cmd = [bins + "/fuzzer", corp, seeds, "-seed=%d" % (seed * 1000 + j + 1), "-max_total_time=%d" % wall, "-timeout=40", "-detect_leaks=0",
               "-rss_limit_mb=2500", "-max_len=4096", "-len_control=50", "-artifact_prefix=" + art, "-print_final_stats=1", "-verbosity=1"]
        if runs:
            cmd.append("-runs=%d" % runs)
        log = open("%s/fuzz%d.log" % (work, j), "wb")
        p = subprocess.Popen(cmd, env=dict(env, VERIF_PROP=pid, VERIF_FUZZ_STAT="%s/fstat" % work), stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        Killer.procs.append(p)
        procs.append(p)
    end = time.time() + wall + 120
    stop_at = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.1)
        if any(p.poll() not in (None, 0) for p in procs) and stop_at is None:
            stop_at = time.time() + 2
        if time.time() > end or (stop_at and time.time() > stop_at):
            for p in procs:
                if p.poll() is None:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
    execs, dist = 0, set()
    for f in glob.glob(work + "/fstat.*[0-9]"):
        execs += int(read(f).split()[0])
    for f in glob.glob(work + "/fstat.*.hash"):
        b = read(f)
        dist.update(b[i:i + 8] for i in range(0, len(b), 8))
    cov = 0
    for f in glob.glob(work + "/fuzz*.log"):
        for m in re.finditer(rb" cov: (\d+)", read(f)):
            cov = max(cov, int(m.group(1)))
    arts = [a for a in glob.glob(work + "/art*/*") if os.path.getsize(a) < 1 << 16]
    arts.sort(key=os.path.getsize)
    return execs, dist, arts, cov


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "setup":
        for v in VARIANTS:
            shutil.rmtree(build(v, v == "asan"), ignore_errors=True)
        return 0
    if len(sys.argv) < 3:
        die(__doc__)
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED") or 1) & 0x7fffffff
    t0 = time.time()
    signal.signal(signal.SIGTERM, lambda *_: (Killer.stop(), sys.exit(2)))
    variant = "tsan" if pid == "C15" else "asan"
    scratch = tempfile.mkdtemp(prefix="verif-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 2 << 30 else None)
    bins = None
    try:
        bins = build(variant, variant == "asan")
        work = scratch + "/out"
        os.makedirs(work), os.makedirs(scratch + "/s"), os.makedirs(scratch + "/tmp")
        dic = scratch + "/dict"
        env = dict(os.environ, **ENV, VERIF_SCRATCH=scratch + "/s", VERIF_OUT=work, VERIF_DICT=dic, VERIF_DEEP="1" if tier == "thorough" else "", TMPDIR=scratch + "/tmp")
        if tier == "replay":
            rp = json.loads(read(sys.argv[3]))
            with open(dic, "w") as f:
                f.write("".join(l + "\n" for l in rp.get("dict", [])))
            rc, out = run([bins + "/harness", pid, "replay", sys.argv[3]], env, 600)
            say(out.strip())
            if rc == 1:
                say("VIOLATION property=%s replay=%s" % (pid, sys.argv[3]))
            return rc if rc in (0, 1) else 2
        if tier not in TIERS:
            die("unknown tier " + tier)
        harvest(dic)
        rc, out = run([bins + "/harness", pid, "info"], env, 60)
        if rc:
            die("unknown property " + pid)
        nums, rule = out.strip().split("\n", 1)
        quick, thorough, fuzz_runs = map(int, nums.split())
        rwall, fwall = TIERS[tier]
        built = time.time() - t0
        # random search
        rc, out = run([bins + "/harness", pid, "random", str(seed), str(quick if tier == "quick" else thorough), str(JOBS), str(rwall)], env, rwall + 300)
        if rc not in (0, 1, 2):
            die("random phase ended with %d\n%s" % (rc, out[-3000:]))
        notes = []
        if rc == 2:
            notes.append("a failure that could not be reproduced was disregarded: " + out.strip()[-600:])
        done = nontriv = 0
        labels, samples, hashes = {}, [], set()
        for f in glob.glob(work + "/w*.stat"):
            for l in read(f).decode("latin-1").split("\n"):
                k, _, r = l.partition(" ")
                if k == "done":
                    done += int(r)
                elif k == "nontrivial":
                    nontriv += int(r)
                elif k == "label":
                    n, _, name = r.partition(" ")
                    labels[name] = labels.get(name, 0) + int(n)
                elif k == "sample":
                    samples.append(r)
        for f in glob.glob(work + "/w*.hash"):
            b = read(f)
            hashes.update(b[i:i + 8] for i in range(0, len(b), 8))
        violation, texec, tdist, cov = rc == 1, 0, set(), 0
        random_s = time.time() - t0 - built
        # coverage-guided search over the same choice sequences
        if not violation and fuzz_runs and variant == "asan":
            texec, tdist, arts, cov = fuzz(bins, pid, env, work, seed, fuzz_runs if tier == "quick" else 0, fwall)
            if arts:
                rc, out = run([bins + "/harness", pid, "confirm", *arts[:8]], env, 400)
                if rc == 1:
                    violation = True
                elif rc != 0:
                    die("confirmation ended with %d\n%s" % (rc, out[-3000:]))
                else:
                    notes.append("%d fuzzer artifacts did not reproduce and were disregarded" % len(arts))
        replay = None
        if violation:
            os.makedirs(HERE + "/out", exist_ok=True)
            replay = "%s/out/%s-%s-seed%d.json" % (HERE, pid, tier, seed)
            shutil.copy(work + "/replay.json", replay)
            for l in out.split("\n"):
                if l.startswith(("MSG", "CASE")):
                    say(l[:1500])
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "fault_enumeration" if pid == "C14" else "exploration",
            "coverage": {
                "evaluations": done + texec, "distinct_nontrivial": len(hashes | tdist),
                "rule": "cases are choice sequences driving the generators of harness/; two are distinct if the choices they consumed differ; " + rule,
                "samples": samples[:6],
                "random": {"cases": done, "nontrivial": nontriv, "distinct_nontrivial": len(hashes), "workers": JOBS, "seconds": round(random_s, 1)},
                "coverage_guided": {"executions": texec, "distinct_nontrivial": len(tdist), "jobs": JOBS if texec else 0, "edges_covered": cov},
                "cases_with": labels,
                "sanitizers": VARIANTS[variant]["lib"],
            },
            "assumptions": ["64-bit Linux, glibc, clang sanitizers", "memory allocation does not fail"],
            "wall_s": round(time.time() - t0, 1), "violations": int(violation),
        }
        if notes:
            ev["coverage"]["notes"] = notes
        os.makedirs(HERE + "/evidence", exist_ok=True)
        tmp = HERE + "/evidence/%s.json.tmp" % pid
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.rename(tmp, HERE + "/evidence/%s.json" % pid)
        for n in notes:
            say("NOTE " + n)
        if violation:
            say("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        say("OK property=%s tier=%s seed=%d: %d random cases (%d distinct non-trivial), %d coverage-guided executions, %.1f s" % (pid, tier, seed, done, len(hashes), texec, time.time() - t0))
        return 0
    finally:
        Killer.stop()
        shutil.rmtree(scratch, ignore_errors=True)
        if bins:
            shutil.rmtree(bins, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
