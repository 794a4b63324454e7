"""Plants a bug in a scratch copy of the repository, confirms it and keeps it below /verif/seeded.

    plant(id, property, [(file, old, new)], needs, breaks, demo)

The scratch copies (made with `cp -a /repo /tmp/wt/repo` and `.../clean`) and the adapted build and test
scripts in /tmp/wt/vp have to exist.  Not used by any check."""
import json, os, re, shutil, subprocess

REPO, CLEAN, VP = "/tmp/wt/repo", "/tmp/wt/clean", "/tmp/wt/vp"
OUT = "/verif/seeded"
BASE = "0b310de"
HELP = '''"""Exit status 0 if the program behaves, 1 otherwise.  Run with the repository as working directory, after its build."""
import csv, io, os, re, subprocess, sys, tempfile, time, zipfile

B = os.path.abspath("target/debug/csvpp")


def put(files):
    for n, t in files.items():
        os.makedirs(os.path.dirname(n) or ".", exist_ok=True)
        with open(n, "wb") as f:
            f.write(t if isinstance(t, bytes) else t.encode())


def run(*args, **kw):
    p = subprocess.run([B, *args], capture_output=True, text=True, errors="replace", stdin=subprocess.DEVNULL, timeout=100, **kw)
    print(args, "->", p.returncode, p.stdout[-300:], p.stderr[-600:])
    return p


def rows(name="out.csv"):
    with open(name, newline="", encoding="utf-8") as f:
        r = [[c.strip() for c in l] for l in csv.reader(f)]
    print(r)
    return r


def compiled(files, *args, out="out.csv"):
    """The rows of the CSV that prog.csvpp compiles to"""
    put(files)
    p = run("prog.csvpp", "-o", out, "--no-cache", *args)
    check(p.returncode == 0, "it compiles")
    return rows(out)


def part(book, name):
    with zipfile.ZipFile(book) as z:
        return z.read(name).decode()


def check(ok, what):
    if not ok:
        print("WRONG:", what)
        sys.exit(1)


'''


def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)


def baseline():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return set(b.get("passing") or b.get("passed") or b.get("stable"))


def reset():
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", REPO)


def plant(id, prop, edits, needs, breaks, demo, keep=True, extra=()):
    """`extra`: files that the demonstration needs beside it"""
    reset()
    for f, old, new in edits:
        p = os.path.join(REPO, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(id, "EDIT", f, "matches", s.count(old), repr(old[:80]))
            return False
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", REPO).stdout
    # lines which are taken away have to be of the original
    mine, orig = [], 0
    for f in {f for f, _, _ in edits}:
        d = sh(["git", "diff", "-U0", "--", f], REPO).stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
            a, n = int(m[1]), int(m[2]) if m[2] is not None else 1
            if n:
                for l in sh(["git", "blame", "-s", "-L", f"{a},{a + n - 1}", "HEAD", "--", f], REPO).stdout.splitlines():
                    if BASE in l.split()[0]:
                        orig += 1
                    else:
                        mine.append(l)
    if not orig or mine:
        print(id, "ORIGINAL lines", orig, "others:", mine)
        if not orig:
            return False
    r = sh(["bash", VP + "/build.sh"])
    if r.returncode:
        print(id, "BUILD", r.stderr[-3000:])
        return False
    sh(["bash", VP + "/test.sh", "/tmp/wt/out.json"])
    o = json.load(open("/tmp/wt/out.json"))
    lost = baseline() - set(o.get("passing") or o.get("passed"))
    if lost:
        print(id, "TESTS", sorted(lost)[:8])
        return False
    d = os.path.join("/tmp/wt/seeds", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for e in extra:
        shutil.copy(e, d)
    with open(d + "/demo.py", "w") as f:
        f.write(HELP + "with tempfile.TemporaryDirectory() as d:\n    os.chdir(d)\n    try:\n" + "".join("        " + l + "\n" if l else "\n" for l in demo.strip("\n").split("\n")) + "    finally:\n        os.chdir(\"/\")\n")
    with open(d + "/demo.sh", "w") as f:
        f.write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + "/patch.diff", "w") as f:
        f.write(diff)
    with open(d + "/meta.json", "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
        f.write("\n")
    bad, good = sh(["bash", d + "/demo.sh"], REPO), sh(["bash", d + "/demo.sh"], CLEAN)
    if bad.returncode == 0 or good.returncode != 0:
        print(id, "DEMO patched", bad.returncode, "clean", good.returncode)
        print("PATCHED:", bad.stdout[-1500:], bad.stderr[-1500:])
        print("CLEAN:", good.stdout[-1500:], good.stderr[-1500:])
        return False
    if keep:
        t = os.path.join(OUT, id)
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t)
    print(id, "kept:", [l for l in bad.stdout.splitlines() if "WRONG" in l][:2] or bad.stderr[-200:])
    return True
