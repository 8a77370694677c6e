#!/usr/bin/env python3
"""Mutation analysis of the checks (not a check itself; run by hand).
Makes small syntactic changes to a scratch copy of /repo, drops the ones that do
not compile or that the stable test notices, and reports which properties'
random phase notices the others.
usage: mutate.py OUT.jsonl [CASE_SCALE] [FILTER [SAMPLE]]"""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
OUT = sys.argv[1]
SCALE = float(sys.argv[2]) if len(sys.argv) > 2 else 0.1
FILTER = sys.argv[3] if len(sys.argv) > 3 else ""
TMP = tempfile.mkdtemp(prefix="mutate-", dir="/dev/shm")
SAMPLE = int(sys.argv[4]) if len(sys.argv) > 4 else 0
REPO = "/repo"
PROPS = [json.loads(l)["id"] for l in open(check.HERE + "/properties.jsonl")]

def mutants():
    files = check.tree(REPO + "/src", (".c",)) + check.tree(REPO + "/include", (".h",)) + check.tree(REPO + "/src", (".private.h",))
    for f in files:
        lines = open(f).read().split("\n")
        incomment = False
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("/*"): incomment = True
            if incomment:
                if "*/" in s: incomment = False
                continue
            if not s or s.startswith("//") or s.startswith("#include") or s.startswith("#if") or s.startswith("#endif"): continue
            seen = set()
            def emit(new, op):
                if new != l and new not in seen:
                    seen.add(new)
                    return [(f, i, l, new, op)]
                return []
            res = []
            for pat, rep in [(r"==", "!="), (r"!=", "=="), (r"(?<![<\-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![>\-])>(?![>=])", ">="), (r">=", ">"),
                             (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=\w|\)) \+ (?=\w|\()", " - "), (r"(?<=\w|\)) - (?=\w|\()", " + "), (r"\+=", "-="), (r"-=", "+="),
                             (r"\+=", "="), (r"\+\+", "--"), (r"<<", ">>"), (r">>", "<<"), (r" \| ", " & "), (r" & ", " | "), (r"\bSEEK_SET\b", "SEEK_CUR"), (r"\bSEEK_CUR\b", "SEEK_SET"),
                             (r'"rb"', '"r+b"'), (r'"w\+b"', '"r+b"'), (r"\bNULL\b", "(void*)1") , (r"\bcalloc\((.*?), ", r"malloc((\1)*"), (r"\bstrncmp\b", "strncasecmp"),
                             (r"\bmalloc\((?=\w)", "malloc(1 + "), (r"~", ""), (r"!(?=[\w(])", "")]:
                if "*" in s and s.endswith(");") and pat in (r" & ",): continue
                for m in re.finditer(pat, l):
                    if "#define" in l and pat.startswith("(?<!"): continue
                    res += emit(l[:m.start()] + m.expand(rep) + l[m.end():], pat)
            for m in re.finditer(r"(?<![\w.\"\\])(0[xX][0-9A-Fa-f]+|\d+)(?![\w.\"])", l):
                v = int(m.group(1), 0) if not re.match(r"0\d", m.group(1)) else 0
                for d in (1, -1):
                    res += emit(l[:m.start()] + str(v + d) + l[m.end():], "const%+d" % d)
            for m in re.finditer(r"\bID3v2_\w+_LENGTH\b", l):
                if "#define" in l: continue
                for d in ("+ 1", "- 1"):
                    res += emit(l[:m.start()] + "(" + m.group(0) + " " + d + ")" + l[m.end():], "length" + d)
            for m in re.finditer(r"\bID3v2_[A-Z_]+_FRAME_ID\b", l):
                if "#define" in l: continue
                res += emit(l[:m.start()] + '"TPE4"' + l[m.end():], "frame id")
            for m in re.finditer(r'"([A-Z0-9]{4})"', l):
                res += emit(l[:m.start()] + '"%s"' % (m.group(1)[:3] + chr(ord(m.group(1)[3]) + 1)) + l[m.end():], "id string")
            if s.endswith(";") and not re.match(r"(const |static )?(unsigned |struct )?[\w]+\*? \w+(\[.*\])?( =.*)?;$", s) and not s.startswith(("return", "break", "}")) and f.endswith(".c"):
                res += emit(l.replace(s, ";"), "delete")
            if s == "break;" or s.startswith("return;"): res += emit(l.replace(s, ";"), "delete")
            m = re.match(r"(\s*)(if|while) \((.*)\)( return.*;)?$", l)
            if m:
                res += emit("%s%s (0)%s" % (m.group(1), m.group(2), m.group(4) or ""), "cond0")
                if m.group(2) == "if": res += emit("%sif (1)%s" % (m.group(1), m.group(4) or ""), "cond1")
            m = re.match(r"(\s*)return (?!NULL)(.+);$", l)
            if m and not m.group(2).startswith("0"): res += emit("%sreturn 0;" % m.group(1), "return0")
            yield from res

def run_one(args):
    k, (f, i, old, new, op) = args
    d = "%s/m%d" % (TMP, k)
    r = {"file": f[len(REPO) + 1:], "line": i + 1, "old": old.strip(), "new": new.strip(), "op": op}
    try:
        shutil.copytree(REPO, d + "/r", ignore=shutil.ignore_patterns(".git", "_build", "*.o", "lib"))
        p = d + "/r" + f[len(REPO):]
        t = open(p).read().split("\n"); t[i] = new; open(p, "w").write("\n".join(t))
        v = check.VARIANTS["asan"]; vt = check.VARIANTS["tsan"]
        srcs = check.tree(d + "/r/src", (".c",))
        hdr = f.endswith(".h") and "/include/" in f
        objs = []
        for n, s in enumerate(srcs):
            o = "%s/%d.o" % (d, n)
            base = "%s/base/%d.o" % (TMP, n)
            if f.endswith(".c") and s != p and os.path.exists(base):
                objs.append(base); continue
            y = subprocess.run(["clang", *check.LIB_COMMON.split(), *v["lib"].split(), "-I%s/r/include" % d, "-I%s/r/src" % d, "-c", s, "-o", o], capture_output=True)
            if y.returncode: r["result"] = "nocompile"; return r
            objs.append(o)
        har = HAR
        if hdr:
            har = d
            for c in ("ref", "api", "props", "props_sys", "main"):
                y = subprocess.run(["clang++", *check.HAR_COMMON.split(), *v["har"].split(), "-I%s/r/include" % d, "-c", "%s/harness/%s.cpp" % (check.HERE, c), "-o", "%s/%s.cpp.o" % (d, c)], capture_output=True)
                if y.returncode: r["result"] = "nocompile"; return r
        y = subprocess.run(["clang++", *["%s/%s.cpp.o" % (har, c) for c in ("ref", "api", "props", "props_sys", "main")], *objs, *v["link"].split(), "-o", d + "/h"], capture_output=True)
        if y.returncode: r["result"] = "nolink"; return r
        kills = {}
        for pid in PROPS:
            if pid == "C15" or pid in ("C14", "C18") and not f.endswith(("id3v2lib.c", "utils.c", "char_stream.c", "frame_header.c")): continue
            w = d + "/" + pid; os.makedirs(w + "/s"); os.makedirs(w + "/o")
            env = dict(os.environ, **check.ENV, VERIF_SCRATCH=w + "/s", VERIF_OUT=w + "/o", VERIF_DICT=DICT)
            n = max(40, int(QUICK[pid] * SCALE))
            y = subprocess.run(["timeout", "-k", "5", "240", d + "/h", pid, "random-noshrink", "1", str(n), "1", "60"], env=env, capture_output=True, text=True, errors="replace")
            if y.returncode == 1: kills[pid] = (re.search(r"MSG (.*)", y.stdout) or [0, "?"])[1][:160]
            elif y.returncode != 0: kills[pid] = "rc %d %s" % (y.returncode, y.stdout[-200:])
        r["result"] = "killed" if kills else "survived"; r["kills"] = kills
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    b = check.build("asan", False)
    os.environ.setdefault("VERIF_SCRATCH", TMP); os.environ.setdefault("VERIF_OUT", TMP)
    QUICK = {p: int(subprocess.run([b + "/harness", p, "info"], capture_output=True, text=True).stdout.split()[0]) for p in PROPS}
    shutil.rmtree(b)
    HAR = max(glob.glob(check.BUILD + "/har-*"), key=lambda d: (os.path.exists(d + "/main.cpp.o"), os.path.getmtime(d)) if "asan" else 0)
    # the asan harness objects: those that link with the asan library
    v = check.VARIANTS["asan"]
    heads = check.tree(REPO + "/include", (".h",)) + check.tree(REPO + "/src", (".h",)); hsrc = check.tree(check.HERE + "/harness", (".hpp", ".cpp"))
    HAR = check.BUILD + "/har-" + check.sha("asan", check.HAR_COMMON, v["har"], *[p for f in heads if "/include/" in f for p in (f, check.read(f))], *[p for f in hsrc for p in (f, check.read(f))])
    DICT = TMP + "/dict"; check.harvest(DICT)
    open(TMP + "/empty.c", "w").write("int main(void){return 0;}\n")
    os.makedirs(TMP + "/base")
    check.compile_all([["clang", *check.LIB_COMMON.split(), *v["lib"].split(), "-I%s/include" % REPO, "-I%s/src" % REPO, "-c", s, "-o", "%s/base/%d.o" % (TMP, n)] for n, s in enumerate(check.tree(REPO + "/src", (".c",)))])
    ms = [m for m in mutants() if FILTER in m[0]]
    import random
    if SAMPLE and SAMPLE < len(ms): ms = random.Random(1).sample(ms, SAMPLE)
    print(len(ms), "mutants", flush=True)
    n = {}
    with open(OUT, "w") as o, concurrent.futures.ThreadPoolExecutor(8) as ex:
        for r in ex.map(run_one, enumerate(ms)):
            o.write(json.dumps(r) + "\n"); o.flush(); n[r["result"]] = n.get(r["result"], 0) + 1
    print(n)
    shutil.rmtree(TMP, ignore_errors=True)
