"""The command line does what it says"""
import os, re, tomllib

import build, lang, prog, whole, xlsx
from common import *

ID = "C21"
CASES = {"quick": 4500, "thorough": 100000}
TIME = {"quick": 50, "thorough": 900}
RULE = ("A case is one command line for the real program: any set of options in short, long, attached, `=` and clustered forms, in any order, the input anywhere, with or without an existing output, object code (fresh, stale, corrupt) and key/values. Three in five are valid "
        "and every effect is checked: the cells of the output (merged as asked), the sheet, the backup, the object code, the levels of the messages, no other file touched, the exit status. The others ask for help or the version or have one thing wrong. "
        "Non-trivial: at least two options besides the output.")
ASSUMPTIONS = ["offsets other than 0 are not used (known finding)", "how long messages are, and what they say besides their level, is not specified"]
MUST_SEE = ["csv", "excel", "existing output", "no existing output", "safe", "backup", "sheet name", "sheet named after the input", "key/value", "several key/values", "no cache", "stale object code", "corrupt object code", "cluster", "attached value", "= value", "input first", "input last",
            "input in the middle", "after --", "verbose 0", "verbose 1", "verbose 2", "verbose 3", "verbose 4", "help", "version", "no target", "two targets", "unknown option", "unknown kind", "missing value", "too verbose", "bad key/value", "bad number", "two inputs", "no input",
            "missing input", "repeated", "google", "google credentials", "google from the environment", "google id", "not UTF-8", "other directory", "absolute path", "other extension", "no extension", "dots in the name", "upper case", "offset 0"]

LEVELS = ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"]
LONG = ["backup", "google-sheet-id", "google-account-credentials", "key-values", "no-cache", "output-filename", "safe", "sheet-name", "verbose", "x-offset", "y-offset", "help", "version"]


def with_value(rng, short, long, v, see):
    """An option with a value in one of its forms"""
    r = rng.random()
    if r < .35:
        return ["--" + long, v]
    if r < .5:
        see("= value")
        return [f"--{long}={v}"]
    if r < .8:
        return ["-" + short, v]
    if r < .9 and not v.startswith("="):
        see("attached value")
        return [f"-{short}{v}"]
    see("= value")
    return [f"-{short}={v}"]


def arrange(rng, groups, flags, name, see, dashes=False):
    """The command line: groups of words that belong together, in any order, `flags` at times in clusters"""
    groups = [list(g) for g in groups]
    flags = list(flags)
    while flags:
        n = min(len(flags), rng.choice([1, 1, 2, 3]))
        part, flags = flags[:n], flags[n:]
        if n > 1:
            see("cluster")
            groups.append(["-" + "".join(s for s, _ in part)])
        elif part[0][0] == "v" or rng.random() < .5:
            groups.append(["-" + part[0][0]] if part[0][0] != "v" or rng.random() < .6 else ["--verbose"])
        else:
            groups.append(["--" + part[0][1]])
    rng.shuffle(groups)
    # a cluster may end in an option with a value
    if len(groups) > 1 and rng.random() < .2:
        k = next((k for k in range(len(groups) - 1) if re.fullmatch(r"-[bsv]+", groups[k][0]) and len(groups[k + 1]) == 2 and re.fullmatch(r"-[no]", groups[k + 1][0])), None)
        if k is not None:
            see("cluster")
            groups[k:k + 2] = [[groups[k][0] + groups[k + 1][0][1:], groups[k + 1][1]]]
    if dashes:
        see("after --")
        return [w for g in groups for w in g] + ["--", name]
    # what comes after the values of -k would be one more of them
    at = [k for k in range(len(groups) + 1) if k == 0 or not re.match(r"-k|--key-values", groups[k - 1][0])]
    k = rng.choice(at)
    see("input first" if k == 0 else "input last" if k == len(groups) else "input in the middle")
    groups.insert(k, [name])
    return [w for g in groups for w in g]


def book(rng, names):
    return {n: {"cells": {xlsx.a1(x, y): ("s", f"old {x} {y}", 0) for x in range(rng.randint(1, 4)) for y in range(rng.randint(1, 4)) if rng.random() < .7}} for n in names}


def csv_of(cells):
    w = max((x for x, _ in cells), default=0) + 1
    h = max((y for _, y in cells), default=0) + 1
    return "".join(",".join(cells.get((x, y), "") for x in range(w)) + "\n" for y in range(h))


def levels_shown(err):
    return [l for l in LEVELS if re.search(r"^\[[^\]]*\b" + l + r"\b[^\]]*\]", err, re.M)]


def credentials(ctx, rng, see, argv, env):
    """What -g looks for is in the option, the environment or the home directory, in this order: (what the error names)"""
    places = rng.sample(["option", "env", "home"], rng.randint(0, 3))
    if "home" in places:
        ctx.put({"home/.config/gcloud/application_default_credentials.json": "{ home broken"})
        env["HOME"] = os.path.join(ctx.dir, "home")
    named = None
    if "env" in places:
        see("google from the environment")
        env["GOOGLE_APPLICATION_CREDENTIALS"] = "from_env.json"
        named = "from_env"
    if "option" in places:
        see("google credentials")
        argv.append(rng.choice([["--google-account-credentials", "from_option.json"], ["--google-account-credentials=from_option.json"]]))
        named = "from_option"
    if named is None:
        return "JSON" if "home" in places else "credentials"
    return named


def case(ctx, rng, i):
    seen = {}

    def see(*names):
        for n in names:
            seen[n] = seen.get(n, 0) + 1
    w = whole.generate(rng, rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), module=.2, kv=.45, opts=.1, texts=prog.word if rng.random() < .3 else None)
    src = w.files.pop("prog.csvpp")
    stem = rng.choice(["prog", "prog", "my sheet", "my.sheet", "a.b.c", "Übersicht", "2024", "x-y", "UPPER", "-dash"])
    ext = rng.choice([".csvpp"] * 5 + [".csv++", ".txt", ".CSVPP", ""])
    name = stem + (ext if ext or "." not in stem else ".csvpp")
    where = rng.choice([""] * 5 + ["sub/", "sub/deep er/", "./", "sub/../"])
    ctx.fresh()
    if where.startswith("sub"):
        os.makedirs(os.path.join(ctx.dir, "sub/deep er"))
        see("other directory")
    if "." in stem:
        see("dots in the name")
    if ext != ".csvpp":
        see("other extension" if name != stem else "no extension")
    files = {where + k: v for k, v in w.files.items()}
    source = where + name
    objects = {os.path.normpath(where + stem + ".csvpo")} | {os.path.normpath(k[:-1] + "o") for k in files}
    arg = os.path.join(ctx.dir, source) if rng.random() < .1 else source
    if arg != source:
        see("absolute path")
    dashes = arg.startswith("-") or rng.random() < .06

    kind = rng.choice(["csv", "csv", "xlsx"])
    e = rng.choice([".csv", ".csv", ".CSV", ".Csv"] if kind == "csv" else [".xlsx", ".xlsx", ".XLSX", ".xlsm", ".xltx", ".xltm", ".XltM"])
    out = rng.choice(["out", "out", "my out", "o.u.t", "Ausgabe-ä", "outdir/out"]) + e
    if out.startswith("outdir"):
        os.mkdir(os.path.join(ctx.dir, "outdir"))
    if e != e.lower():
        see("upper case")
    ctx.put({**files, source: src})

    # ---- the options, and what they do
    fault = rng.choice(["help", "version", "no target", "two targets", "unknown option", "unknown kind", "missing value", "too verbose", "bad key/value", "bad number", "two inputs", "no input", "missing input", "google", "google", "google id", "not UTF-8", "repeated"]) if rng.random() < .4 else None
    sheet = rng.choice([None, None, "s", "My Sheet", "Daten ü", "2024", "a.b", "x&y"])
    verbose = rng.choice([0, 0, 1, 2, 3, 4])
    safe, no_cache = rng.random() < .35, rng.random() < .4
    cells = {(x, y): f"old {x} {y}" for x in range(rng.randint(1, 4)) for y in range(rng.randint(1, 4)) if rng.random() < .7}
    old = rng.random() < .6
    if old:
        cells[(0, 0)] = "old 0 0"
        # (lines without any cell are skipped: known finding)
        for y in range(max(y for _, y in cells)):
            if not any(v[1] == y for v in cells):
                cells[(0, y)] = f"old 0 {y}"
        before_book = book(rng, [sheet or stem, "other"] if rng.random() < .6 else ["other"]) if kind != "csv" else None
        ctx.put({out: csv_of(cells) if kind == "csv" else xlsx.write(before_book)})
    see("existing output" if old else "no existing output")
    backup = old and rng.random() < .4

    groups = [with_value(rng, "o", "output-filename", out if rng.random() < .9 else os.path.join(ctx.dir, out), see)]
    flags = [("v", "verbose")] * verbose
    if safe:
        flags.append(("s", "safe"))
    if backup:
        flags.append(("b", "backup"))
    if no_cache:
        groups.append(["--no-cache"])
        see("no cache")
    if sheet is not None:
        groups.append(with_value(rng, "n", "sheet-name", sheet, see))
    for axis in "xy":
        if rng.random() < .08:
            groups.append(with_value(rng, axis, axis + "-offset", "0", see))
            see("offset 0")
    kvs = [a for a in w.args if a not in ("-k", "--key-values")]
    if kvs:
        see("key/value" if len(kvs) == 1 else "several key/values")
        if len(kvs) > 1 and rng.random() < .5:
            groups.append([rng.choice(["-k", "--key-values"]), *kvs])
        else:
            for kv in kvs:
                groups.append(with_value(rng, "k", "key-values", kv, see))
    rng.shuffle(flags)
    env = {}
    expect = None
    bad_bytes = None

    # ---- what is wrong with it
    if fault == "help":
        groups.append([rng.choice(["-h", "--help"])])
    elif fault == "version":
        groups.append([rng.choice(["-V", "--version"])])
    elif fault == "no target":
        groups.pop(0)
        expect = "-o"
    elif fault == "two targets":
        groups.append(with_value(rng, "g", "google-sheet-id", "abc123", see))
    elif fault == "unknown option":
        groups.append([rng.choice(["--nonsense", "-z", "--Backup", "--no-caches", "--output", "--offset", "-O", "--key-value", "--verbosity", "--safe=yes", "--no-cache=1", "--backups"])])
    elif fault == "unknown kind":
        groups[0] = with_value(rng, "o", "output-filename", rng.choice(["out", "out.txt", "out.xls", "out.csvx", "out.", ".csv", "out.csv.gz", "out.csvpp", "out.xlsx~", "csv", "out.ods", "dir.csv/out"]), see)
    elif fault == "missing value":
        k = rng.choice(["-o", "--output-filename", "-n", "--sheet-name", "-x", "--y-offset", "-g", "--google-account-credentials"])
        if k in ("-o", "--output-filename"):
            groups.pop(0)
        elif k in ("-n", "--sheet-name"):
            groups = [g for g in groups if not re.match(r"-n|--sheet", g[0])]
    elif fault == "too verbose":
        flags = [f for f in flags if f[0] != "v"] + [("v", "verbose")] * rng.choice([5, 5, 6, 9, 20])
        expect = r"\d+|verb"
    elif fault == "bad key/value":
        groups = [g for g in groups if not re.match(r"-k|--key", g[0])]
        groups.append([rng.choice(["-k", "--key-values"])] + rng.sample(["ok=1", "also=A1"], rng.randint(0, 2)) + [rng.choice(["novalue", "a", "a=(1", "=1", "a=", "a=1 2", "a=+", "a==", "=", " =1", "a= ", 'a="x', "a=f(1,"])])
    elif fault == "bad number":
        groups = [g for g in groups if not re.match(r"-x|-y|--[xy]-", g[0])]
        groups.append([rng.choice(["-x", "-y", "--x-offset", "--y-offset"]), rng.choice(["abc", "1.5", "", "4294967296", "99999999999999999999", "0x1", "1,0"])])
    elif fault == "repeated":
        groups.append(rng.choice([["-o", "second.csv"], ["-n", "second"], ["--no-cache"], ["-s"], ["--safe"], ["-b"]]))
    elif fault in ("google", "google id"):
        # the target needs the network: only how it is set up can be observed
        gid = rng.choice(["abc123", "1BxiMVs0XRA5nFMdKvBdBZjgmUUqptlbs74OgvE2upms", "a-b_c", "-_-x", "0"])
        expect = credentials(ctx, rng, see, groups, env)
        if fault == "google id":
            gid = rng.choice(["a b", "a/b", "https://docs.google.com/spreadsheets/d/abc/edit", "abc#gid=0", "a.b", "a+b", "abc?"])
            expect = "(?i)sheet.?id"
        groups[0] = [f"--google-sheet-id={gid}"] if gid.startswith("-") else with_value(rng, "g", "google-sheet-id", gid, see)
        flags = [f for f in flags if f[0] != "b"]
        backup = False

    argv = arrange(rng, groups, flags, arg, see, dashes)
    if fault == "missing value":
        argv.append(k)
        if dashes:
            argv = [a for a in argv if a not in ("--", arg)]
            argv = ["prog.csvpp"] + argv
    elif fault == "two inputs":
        argv.append("second.csvpp") if dashes or not any(re.match(r"-k|--key", a) for a in argv) else argv.insert(0, "second.csvpp")
    elif fault == "no input":
        argv = [a for a in argv if a not in (arg, "--")]
        if rng.random() < .1:
            argv = []
    elif fault == "missing input":
        os.remove(os.path.join(ctx.dir, source))
        expect = re.escape(name.encode("unicode_escape").decode()) + "|" + re.escape(name)
    elif fault == "not UTF-8":
        k = rng.randrange(4)
        if k == 0:
            argv = [os.fsencode(a) for a in argv if a not in (arg, "--")] + [b"--", b"\xff.csvpp"]
        elif k == 1:
            argv = [b"-o", b"out.\xe9\xff"] + [os.fsencode(a) for a in arrange(rng, groups[1:], flags, arg, see, dashes)]
        elif k == 2:
            argv = [b"-n\xff"] + [os.fsencode(a) for a in argv]
        else:
            argv = [b"--key-values=a=\xff"] + [os.fsencode(a) for a in argv]
        bad_bytes = True

    # ---- object code
    state = None
    if fault is None and rng.random() < .45:
        state = rng.choice(["stale", "corrupt", "fresh"]) if no_cache or rng.random() < .5 else rng.choice(["corrupt", "fresh"])
        if state == "stale":
            # of another program which looks older than its object code
            no_cache or argv.insert(0, "--no-cache")
            no_cache = True
            ctx.put({source: "something else,\n" * 3, **{k: "mod_v := 1\nmod_w := 2\nfn mod_f(p) p\nfn mod_g(p, q) p\n---\n" for k in files}})
            ctx.cli(*(["-o", "first.csv", "--", source]))
            ctx.put({source: src, **files})
            for k in [source, *files]:
                os.utime(os.path.join(ctx.dir, k), ns=(10 ** 18,) * 2)
            see("stale object code")
        elif state == "fresh":
            ctx.cli(*(["-o", "first.csv"] + [a for a in w.args] + ["--", source]))
        else:
            ctx.put({k: bytes(rng.randrange(256) for _ in range(rng.choice([0, 10, 300]))) for k in objects if rng.random() < .8 or len(objects) == 1})
            see("corrupt object code")
        if ctx.exists("first.csv"):
            os.remove(os.path.join(ctx.dir, "first.csv"))
    had_objects = state == "corrupt"
    for n in rng.sample(["notes.txt", "other.csv", "out.csv.bak", "prog.csv", "out.txt", "-o", "second.csvpp", "home.txt"], rng.randint(0, 3)):
        if not ctx.exists(n):
            ctx.put({n: "keep me\n"})
    before = ctx.snapshot()
    if bad_bytes:
        r = run_bytes(ctx, argv, env)
        argv = [repr(a) for a in argv]
    else:
        r = ctx.cli(*argv, env=env)
    after = ctx.snapshot()
    out_key = os.path.normpath(out)
    shown = dict(argv=argv, status=r["status"], stdout=r["stdout"][:400], stderr=r["stderr"][:800], wrong=fault, source=src[:800])
    if r.get("panic"):
        raise Violation(f"the program {failed(r)}", **shown)
    new = {n for n in after if n not in before}
    changed = {n for n in before if n not in after or before[n] != after[n]}
    nontrivial = len(groups) + len(flags) > 2

    def done(executions=1):
        return Case((src, argv, sorted(before)), nontrivial, seen, {"argv": argv, "status": r["status"]}, executions=executions)

    if fault in ("help", "version"):
        see(fault)
        if r["status"] != 0 or r["stderr"]:
            raise Violation(f"asked for {fault} the status is {r['status']} and the error output {r['stderr'][:200]!r}", **shown)
        if new or changed:
            raise Violation(f"asked for {fault} it wrote {sorted(new | changed)}", **shown)
        if fault == "version":
            if r["stdout"].split() != ["csvpp", VERSION]:
                raise Violation(f"the version is {VERSION}", **shown)
        else:
            missing = [l for l in LONG if f"--{l}" not in r["stdout"]]
            if missing:
                raise Violation(f"the help does not tell about {missing}", **shown)
        return done()
    if r["stdout"]:
        raise Violation("there is something on the standard output", **shown)
    if fault == "repeated" and r["status"] == 0:
        # the last of them counting would do as well
        see(fault)
        return done()
    if fault is not None:
        see(fault)
        if r["status"] == 0:
            raise Violation(f"with {fault} the exit status is 0", **shown)
        if not r["stderr"].strip():
            raise Violation(f"with {fault} there is no error message", **shown)
        if expect and not re.search(expect, r["stderr"]):
            raise Violation(f"with {fault} the error does not name what is wrong (expected {expect!r})", **shown)
        if fault == "google" and re.search("(?i)must be all", r["stderr"]):
            raise Violation("the id of a sheet is not accepted", **shown)
        written = {n for n in new | changed} - (objects if not no_cache else set())
        if fault == "not UTF-8":
            written = {n for n in written if not n.endswith(".csvpo")}
        if written:
            raise Violation(f"with {fault} it wrote {sorted(written)}", **shown)
        return done()

    # ---- a valid command line
    if r["status"] != 0:
        raise Violation(f"a valid command line has the exit status {r['status']}", **shown)
    if out_key not in after:
        raise Violation(f"it did not write {out}", **shown)
    see("csv" if kind == "csv" else "excel", f"verbose {verbose}")
    for flag, what in ((safe, "safe"), (backup, "backup"), (sheet is not None, "sheet name"), (sheet is None and kind != "csv", "sheet named after the input")):
        if flag:
            see(what)
    # messages
    shown_levels = levels_shown(r["stderr"])
    if verbose == 0 and r["stderr"].strip():
        raise Violation("there are messages although none were asked for", **shown)
    quiet = [l for l in shown_levels if LEVELS.index(l) > verbose]
    if quiet:
        raise Violation(f"messages of {quiet} with {verbose} times -v", **shown)
    need = LEVELS[2:verbose + 1]
    if state == "fresh" and not no_cache and not kvs:
        need = [l for l in need if l != "TRACE"]
    if had_objects and verbose and not no_cache and not kvs and os.path.normpath(where + stem + ".csvpo") in before:
        need = need + ["WARN"]
    if not set(need) <= set(shown_levels):
        raise Violation(f"with {verbose} times -v there are messages of {shown_levels} only", **shown)
    # files
    backups = {n for n in new if re.fullmatch(re.escape(os.path.splitext(out_key)[0]) + r"-\d{4}_\d\d_\d\d(-[0-9_]+[AP]M)?" + re.escape(e), n)}
    if backup:
        if len(backups) != 1 or any(after[n] != before[out_key] for n in backups):
            raise Violation(f"the backup of {out} is not there: new files {sorted(new)}", **shown)
    elif backups:
        raise Violation(f"nobody asked for the backup {sorted(backups)}", **shown)
    touched = (new | changed) & objects
    if no_cache and touched:
        raise Violation(f"--no-cache but {sorted(touched)} was written", **shown)
    if not no_cache and not kvs and os.path.normpath(where + stem + ".csvpo") not in after:
        raise Violation(f"there is no object code", **shown)
    rest = (new | changed) - {out_key} - backups - touched
    if rest:
        raise Violation(f"it wrote {sorted(rest)}", **shown)
    # cells
    grid = w.grid
    if kind == "csv":
        rows = prog.csv_rows(after[out_key])
        merged = cells if old else {}
        height = max([len(grid)] + [y + 1 for _, y in merged])
        if len(rows) != height:
            raise Violation(f"{len(rows)} rows instead of {height}", **shown)
        for y, row in enumerate(rows):
            for x, t in enumerate(row):
                o = merged.get((x, y), "")
                g = grid[y][x][0] if y < len(grid) and x < len(grid[y]) else 0
                if g == 0 or safe and o:
                    m = None if t == o else f"expected {o!r} which was there"
                else:
                    m = prog.text_mismatch(g, t)
                if m:
                    raise Violation(f"cell {xlsx.a1(x, y)}: {m}, got {t!r}", **shown)
    else:
        now = read_xlsx(ctx, out)
        want = sheet if sheet is not None else stem
        was = before_book if old else {}
        if set(now) != set(was) | {want}:
            raise Violation(f"the sheets are {list(now)}, expected {sorted(set(was) | {want})}", **shown)
        for n, s in was.items():
            if n != want:
                kept = {a: c["value"] for a, c in now[n].cells.items() if c["value"] != ""}
                if kept != {a: c[1] for a, c in s["cells"].items()}:
                    raise Violation(f"the cells of the sheet {n!r} are {kept}", **shown)
        there = was.get(want, {"cells": {}})["cells"]
        if not (safe and there):
            kept = {}
        g2 = {}
        for y, line in enumerate(grid):
            for x, (v, st) in enumerate(line):
                g2[xlsx.a1(x, y)] = v
        for a in set(g2) | set(there) | set(now[want].cells):
            c = now[want].cells.get(a)
            o = there.get(a)
            if a not in g2 or safe and o:
                if (c["value"] if c else "") != (o[1] if o else ""):
                    raise Violation(f"cell {a} is {c}, it was {o}", **shown)
            elif g2[a] is None:
                # whether an empty cell clears what was there is not said
                if c and c["value"] not in ("", o[1] if o else ""):
                    raise Violation(f"cell {a} is {c}, expected nothing", **shown)
            else:
                m = prog.excel_mismatch(g2[a], c)
                if m:
                    raise Violation(f"cell {a}: {m}", **shown)
    return done(2 if state in ("stale", "fresh") else 1)


def run_bytes(ctx, argv, env):
    r = ctx.wait_cli(ctx.start_cli([os.fsdecode(a) for a in argv], env=env))
    ctx.history[-1] = {"program": [repr(a) for a in argv]}
    return r


def version():
    with open(os.path.join(build.REPO, "Cargo.toml"), "rb") as f:
        return tomllib.load(f)["package"]["version"]


VERSION = version()


def offset(ctx):
    ctx.fresh({"prog.csvpp": "x\n"})
    must_compile(ctx.cli("prog.csvpp", "-o", "out.csv", "-x", "1", "-y", "2"))
    rows = prog.csv_rows(read_csv(ctx))
    if rows[2:] != [["", "x"]]:
        raise Violation(f"the cells are moved by the offset: {rows}")


FIXED = {"offset": offset}
