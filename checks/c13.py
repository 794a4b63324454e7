"""A failed compilation changes nothing and says so"""
import os, re, shutil

import defs, lang, prog, sheets, xlsx
from common import *
from prog import Cell, Names, Program, Row

ID = "C13"
CASES = {"quick": 2500, "thorough": 60000}
TIME = {"quick": 45, "thorough": 900}
RULE = ("A case runs the real command line program on a generated program (with or without modules) in a directory with other files, with or without an existing output (CSV, Excel, text), earlier "
        "backups and object code. Three in four have one thing wrong: a mistake in the code section, a cell, an option, the CSV or a module; a wrong call; circular definitions; a missing, unreadable or non-UTF-8 source or module; a bad "
        "command line; an output that cannot be read, is of the wrong kind, in a missing or forbidden directory, or does not fit on the disk. The directory before and after is compared file by file, with the exit status and the error output. "
        "Non-trivial: something that could be lost or left behind existed.")
ASSUMPTIONS = ["object code of modules may be written by a compilation that fails later on", "what a CSV output file holds after the disk got full while writing it is not specified"]
MUST_SEE = ["ok csv", "ok xlsx", "existing output", "earlier backups", "failed", "fault code", "fault cell", "fault option", "fault csv", "fault module", "fault missing module", "fault call", "fault circle", "fault missing source", "fault not utf-8", "fault directory as source",
            "fault key/value", "fault command line", "fault kind of output", "fault existing output", "fault missing directory", "fault output is a directory", "fault disk full", "disk full, small output", "fault too wide", "object code before", "no cache", "asked for a backup", "relative path", "fault unterminated quote", "fault nothing to back up"]

CODE = [("broken :=\n", "code section|CSV"), ("fn (a) a\n", "code section"), ("fn f(a,) \n", "code section"), ("x_ := (1 + \n", "code section|CSV"), ("x_ := 1 +* 2\n", "code section"), (") := 3\n", "code section"), ("use\n", "code section|use"),
        ("fn f(1) 2\n", "code section"), ("x_ = 3\n", "code section"), ("x_ := ~\n", "code section")]
CELLS = ["=foo(", "=1 +", "=)", "=(1", "=1 2", "= ~x", "=a b", "=*2", "=f(1 2)"]
OPTIONS = ["[[nosuch=1]]x", "[[text=]]x", "[[border=nowhere]]x", "[[fs=abc]]x", "[[fc=zzz]]x", "[[halign=up]]x", "[[bold=]]x", "[[dv=no_such_rule(1)]]x", "[[dv=date_after()]]x", "[[dv=date_after('hello')]]x", "[[text=bold", "[[n='open]]x", "[[var=]]x",
           "[[nf=roman]]x", "[[bs=wavy]]x"]
ROWS = ["![[nosuch]]x", "![[fill=x]]x", "![[fill=-1]]x", "![[text=bold", "![[halign=9]]x"]
KINDS = ["code"] * 3 + ["cell"] * 3 + ["option"] * 3 + ["csv", "module", "module", "missing module", "call", "call", "circle", "missing source", "not utf-8", "directory as source", "key/value", "command line", "command line",
         "kind of output", "existing output", "existing output", "missing directory", "output is a directory", "disk full", "too wide", "unterminated quote", "forbidden"]


def base(rng):
    """A valid program: (sources, Program)"""
    pool = defs.pick_names(rng, rng.randint(0, 3))
    rows = sheets.with_vars(rng, sheets.shape(rng, 3, 3, inf=0.0, big=0.0), list(pool))
    if not any(r.fill != 0 for r in rows):
        rows.append(Row([Cell(("text", "x"))]))
    functions, variables = {}, {}
    for _ in range(5):
        functions, variables = defs.gen_defs(rng, rng.choice([0, 1, 2]), rng.choice([0, 1, 2]), 1, avoid=set(pool))
        if defs.acyclic(functions, variables):
            break
        functions, variables = {}, {}
    imported, files, uses = None, {}, []
    if rng.random() < 0.4:
        mf, mv = {"mod_f": (["p"], ("bin", "+", ("ref", "p"), prog.gen_num(rng, False)))}, {"mod_v": prog.gen_num(rng)}
        imported = lang.Scope(mf, mv)
        files["m.csvpp"] = prog.source(rng, Program([], mf, mv), code=True) + "\n"
        uses = ["m"]
    sheets.put_contents(rng, rows, Names(sheets.bound(rows) + list(variables) + (["mod_v"] if uses else []), [(n, len(f[0])) for n, f in functions.items()] + ([("mod_f", 1)] if uses else [])), 1)
    p = Program(rows, functions, variables, uses=uses, imported=imported)
    return p, files


def lines_end(s):
    return s if s.endswith("\n") or not s else s + "\n"


def workbook(rng):
    return xlsx.write({n: {"cells": {xlsx.a1(x, y): ("s", f"old {x} {y}", 0) for x in range(rng.randint(1, 3)) for y in range(rng.randint(1, 3))}} for n in rng.sample(["Sheet1", "prog", "data"], rng.randint(1, 2))})


def case(ctx, rng, i):
    seen = []
    fault = rng.choice(KINDS) if rng.random() < 0.75 else None
    p, files = base(rng)
    src = prog.source(rng, p, fancy=rng.random() < .5, code=fault in ("code", "circle", "missing module", "call", "module") or None)
    name, out = "prog.csvpp", rng.choice(["out.csv", "out.csv", "out.xlsx"])
    why = None
    argv = []
    made_dir = None
    extra = []
    fsize = None
    user = None
    # what is there already
    if rng.random() < 0.75:
        files[out] = workbook(rng) if out.endswith("x") else rng.choice(["old,1,2\nkeep,,3\n", "a\n", "x,y\n" * 20, ""])
        seen.append("existing output")
    for n in rng.sample(["notes.txt", "other.csv", "out.csv.bak", "other.csvpp", "out-old.csv", "prog.csvpo~", "tmp", ".hidden", "prog.csv", "out.xlsxtmp.x", "out.txt"], rng.randint(0, 4)):
        files[n] = f"{n} keep me\n"
    backup = rng.random() < 0.3
    cache = rng.random() < 0.6
    key_values = []

    if fault == "code":
        bad, why = rng.choice(CODE)
        src = bad + src
    elif fault == "cell":
        src = lines_end(src) + '"%s"\n' % rng.choice(CELLS)
        why = "cell"
    elif fault == "option":
        src = lines_end(src) + '"%s"\n' % rng.choice(OPTIONS + ROWS)
        why = "prog.csvpp"
    elif fault == "csv":
        src = lines_end(src) + '"a"b,c\n'
        why = "CSV"
    elif fault == "unterminated quote":
        src = lines_end(src) + 'a,"b\n'
        why = "CSV"
    elif fault == "module":
        files["bad_module.csvpp"] = rng.choice(["broken :=\n---\n", "fn (\n---\n", ")\n---\n", "use nowhere_at_all\n---\n", "x := 1\n---\n=(\n"])
        src = "use bad_module\n" + src
        why = "bad_module|nowhere_at_all"
    elif fault == "missing module":
        src = "use nowhere_at_all\n" + src
        why = "nowhere_at_all"
    elif fault == "call":
        src = "fn two_args_(a, b) a + b\n" + lines_end(src) + '"=%s"\n' % rng.choice(["two_args_(1)", "two_args_()", "two_args_(1, 2, 3)", "1 + two_args_(two_args_(1, 2))"])
        why = "two_args_|argument"
    elif fault == "circle":
        src = "ring_a_ := 1 + ring_b_\nring_b_ := ring_a_ * 2\n" + lines_end(src) + "=ring_a_\n"
        why = "ring_"
    elif fault == "not utf-8":
        if p.uses and rng.random() < .5:
            files["m.csvpp"] = b"x := 1\n---\n\xff\xfe\n"
            why = "m.csvpp|module m"
        else:
            src = src.encode() + b"caf\xe9,\n"
            why = "prog.csvpp"
    elif fault == "key/value":
        key_values = ["-k"] + rng.choice([["novalue"], ["a=1", "b"], ["a=(1"], ["=1"], ["a="], ["a=1 2"]])
        why = "."
    elif fault == "existing output":
        files[out] = rng.choice([b"PK\x03\x04garbage", b"not a workbook", b"\x00" * 100]) if out.endswith("x") else rng.choice([b"a,b\n\xff\xfe,c\n", b"\xe9\n"])
        if out.endswith("x") and rng.random() < .3:
            files[out] = workbook(rng)[:200]
        why = "out\\."
    elif fault == "kind of output":
        out = rng.choice(["out.ods", "out.txt", "out", "out.", ".csv", "out.csv.bak", "out.xls", "out.csvpp", "out.CSVX"])
        if rng.random() < 0.7:
            files[out] = "old,1,2\n"
        why = "."
    elif fault == "missing directory":
        out = "no/such/" + out
        why = "no/such"
    elif fault == "too wide":
        src = lines_end(src) + "," * rng.choice([18278, 20000]) + "x\n"
        out = "out.xlsx"
        why = "."
    elif fault == "disk full":
        if rng.random() < .4:
            # so little that it is written only when the file is done with
            fsize = 0
            seen.append("disk full, small output")
        else:
            src = lines_end(src) + "".join(f"{k},{rng.random()},some text\n" for k in range(400))
            fsize = rng.choice([0, 100, 4096]) if out.endswith("v") else rng.choice([0, 100, 2000])
        backup = cache = False
        why = "out\\."
    elif fault == "forbidden":
        user = 65534
        why = "."
    elif fault is None:
        seen.append("ok " + out.rsplit(".")[-1])

    # objects of an earlier, good compilation
    ctx.fresh({k: v for k, v in files.items() if k.endswith(".csvpp")} | {name: src})
    if fault not in ("disk full", "forbidden") and rng.random() < 0.35:
        ctx.put({name: prog.source(rng, p)})
        ctx.cli(name, "-o", "first.csv")
        if ctx.exists("first.csv"):
            os.remove(os.path.join(ctx.dir, "first.csv"))
        ctx.put({name: src})
        os.utime(os.path.join(ctx.dir, name), ns=(2 * 10 ** 18,) * 2)
        seen.append("object code before")
    ctx.put(files)
    if fault == "module":
        os.utime(os.path.join(ctx.dir, "bad_module.csvpp"), ns=(2 * 10 ** 18,) * 2)
    if fault == "not utf-8":
        for n in os.listdir(ctx.dir):
            if n.endswith(".csvpp"):
                os.utime(os.path.join(ctx.dir, n), ns=(2 * 10 ** 18,) * 2)
    if fault == "output is a directory":
        out = "dir.csv" if out.endswith("v") else "dir.xlsx"
        os.mkdir(os.path.join(ctx.dir, out))
        ctx.put({out + "/inside": "keep"})
        why = "dir\\."
    if fault == "missing source":
        os.remove(os.path.join(ctx.dir, name))
        why = "prog"
        if rng.random() < .5:
            os.symlink("gone", os.path.join(ctx.dir, name))
    if fault == "directory as source":
        os.remove(os.path.join(ctx.dir, name))
        os.mkdir(os.path.join(ctx.dir, name))
        why = "prog"
    if backup and ctx.exists(out) and fault is None and rng.random() < .5:
        ctx.put({re.sub(r"\.(\w+)$", r"-2001_01_01.\1", out): "an old backup"})
        seen.append("earlier backups")

    if backup and fault is None and not ctx.exists(out):
        fault, why = "nothing to back up", "backup"
        seen = [x for x in seen if not x.startswith("ok ")]
    # the command line
    inp = name
    cwd = ctx.dir
    o = out
    style = rng.random()
    if style < 0.2:
        inp, o = os.path.join(ctx.dir, name), os.path.join(ctx.dir, out)
        cwd = ctx.root
    elif style < 0.35:
        os.makedirs(os.path.join(ctx.dir, "sub"), exist_ok=True)
        cwd = os.path.join(ctx.dir, "sub")
        inp, o = "../" + name, "../" + out
        seen.append("relative path")
    argv = [inp]
    if fault == "command line":
        k = rng.randrange(8)
        bad = [["-o", o, "--nonsense"], [], ["-o", o, "-g", "abc"], ["-o"], ["-o", o, "-vvvvv"], ["-o", o, "-x", "abc"], ["-o", o, "-o", o], ["-o", o, "second.csvpp"]][k]
        argv = argv + bad
        if k != 3 and rng.random() < .1:
            argv = bad
        why = "."
    else:
        argv += [rng.choice(["-o", "--output-filename"]), o]
    # what comes after a lone -o is its value
    if not (fault == "command line" and argv[-1:] == ["-o"]):
        if backup:
            argv.append(rng.choice(["-b", "--backup"]))
            seen.append("asked for a backup")
        if not cache:
            argv.append("--no-cache")
            seen.append("no cache")
        if rng.random() < 0.2:
            argv.append(rng.choice(["-s", "--safe"]))
        argv += key_values
    binary = None
    if user is not None:
        # an unprivileged user who may read but not write here; what it can reach is this directory
        binary = os.path.join(ctx.root, "program")
        shutil.copy(ctx.bins["cli"], binary)
        os.chmod(binary, 0o755)
        os.chmod(ctx.root, 0o755)
        for d, ds, fs in os.walk(ctx.dir):
            os.chmod(d, 0o755)
            for f in fs:
                os.chmod(os.path.join(d, f), 0o644)
    before = ctx.snapshot()
    if "-2001_01_01" in str(before) and "earlier backups" not in seen:
        seen.append("earlier backups")
    elif any(re.match(r"out.*-2001", n) for n in before):
        seen.append("earlier backups")
    try:
        r = ctx.cli(*argv, cwd=cwd, fsize=fsize, user=user, binary=binary)
    except PermissionError:
        # cannot become another user here
        return Case((src, argv), False, ["cannot change the user"])
    after = ctx.snapshot()
    shown = {"argv": argv, "fault": fault, "status": r["status"], "stderr": r["stderr"][:600]}

    if r.get("panic"):
        raise Violation(f"with {fault or 'nothing'} wrong the program {failed(r)}", **shown)
    new = {n for n in after if n not in before}
    lost = {n for n in before if n not in after}
    changed = {n for n in before if n in after and before[n] != after[n]}
    objects = {n for n in new | changed if n.endswith(".csvpo")}
    backups = {n for n in new if re.fullmatch(re.escape(os.path.splitext(out)[0]) + r"-\d{4}_\d\d_\d\d(-[0-9_]+[AP]M)?\.\w+", n)}
    if lost:
        raise Violation(f"{sorted(lost)} disappeared", **shown)
    if objects and not cache:
        raise Violation(f"object code {sorted(objects)} although caching is off", **shown)

    if fault is None:
        if r["status"] != 0:
            raise Violation(f"the program has to compile but its status is {r['status']}: {failed(r)}", **shown)
        if backup and out in before:
            if len(backups) != 1 or any(after[n] != before[out] for n in backups):
                raise Violation(f"the new files are {sorted(new)}, expected a backup of {out}", **shown)
        elif backups:
            raise Violation(f"nobody asked for the backup {backups}", **shown)
        rest = (new | changed) - objects - backups - {out}
        if rest:
            raise Violation(f"{sorted(rest)} were written besides the output", **shown)
        if "-s" not in argv and "--safe" not in argv and out not in before:
            if out.endswith(".csv"):
                judge_csv(ctx, p)
            else:
                judge_excel(ctx, p)
        elif out.endswith(".xlsx"):
            read_xlsx(ctx)
        else:
            read_csv(ctx)
        if out not in after:
            raise Violation("the status is 0 but there is no output", **shown)
        return Case((src, argv, sorted(files)), bool(files), seen, shown)

    seen += ["failed", "fault " + fault]
    if r["status"] == 0:
        raise Violation(f"with a wrong {fault} the exit status is 0", **shown)
    if not r["stderr"].strip():
        raise Violation(f"with a wrong {fault} the error output is empty", **shown)
    if why and not re.search(why, r["stderr"]):
        raise Violation(f"the error does not say that the {fault} is wrong (expected {why!r})", **shown)
    # the output is what is at fault: it is opened after the backup was made
    late = fault in ("existing output", "disk full", "output is a directory", "too wide", "missing directory", "forbidden", "nothing to back up") or out.endswith(".ods")
    if backups and not (late and backup and all(after[n] == before.get(out) for n in backups)):
        raise Violation(f"a failed compilation left {sorted(backups)}", **shown)
    rest = (new | changed) - objects - (backups if late else set())
    if fault == "disk full" and out.endswith(".csv"):
        rest.discard(out)
    if rest:
        raise Violation(f"a failed compilation wrote {sorted(rest)}", **shown)
    bad_objects = {n for n in objects if n == "prog.csvpo" and not late}
    if bad_objects:
        raise Violation(f"a failed compilation left object code {sorted(bad_objects)}", **shown)
    return Case((src, argv, sorted(files)), bool(files), seen, shown)
