"""A backup is the previous output, byte for byte"""
import datetime, os, re, shutil

import prog, xlsx
from common import *
from prog import Cell, Names, Program, Row

ID = "C17"
CASES = {"quick": 1500, "thorough": 40000}
TIME = {"quick": 45, "thorough": 900}
RULE = ("A case is a directory with an existing output (CSV or workbook, any size and name: dots, blanks, Unicode, upper case extension, names like those of backups, subdirectories, relative and absolute paths), earlier backups (also directories and links "
        "with the names that the next backups would have), and a history of 1 to 12 runs of the real program with and without the backup option, some on a program that fails. After every run the directory is compared file by file: a successful run with a backup adds exactly one file, next to the "
        "output, with its name and extension, which holds the output's previous bytes, and leaves every other file alone. Faults: names too long for a backup, a file size limit, a directory that may not be written to, no output yet. Non-trivial: at least one backup was asked for.")
ASSUMPTIONS = ["the backup and the output are compared after the program has ended, concurrent runs on one output are not part of this"]
MUST_SEE = ["backup", "backup csv", "backup xlsx", "no backup", "second format", "third format", "fourth format", "earlier backups", "directory in the way", "failed compilation", "name too long", "file size limit", "forbidden", "no output yet",
            "dots", "unicode", "absolute", "relative", "subdirectory", "five in a row", "large", "empty", "link as output", "safe"]
STEMS = ["out", "out", "report.2024.final", "my report", "Übersicht", "日本", "a-b", "x", ".hidden", "out-2024_01_01", "v1.2", "out.csv", "a..b", "trailing-", "100%", "it's", "%Y", "{}", "out (1)", "out ", " lead", "a  b"]


def case(ctx, rng, i):
    seen = []
    ext = rng.choice(["csv", "csv", "csv", "CSV", "xlsx", "xlsx", "XLSX", "xlsm"])
    isx = ext.lower() != "csv"
    stem = rng.choice(STEMS)
    fault = rng.choice(["name too long", "file size limit", "forbidden", "no output yet"]) if rng.random() < .15 else None
    if fault == "name too long":
        stem = "n" * (255 - 1 - len(ext) - rng.choice([0, 3, 10]))
    sub = rng.choice(["", "", "", "sub/", "sub.dir/deep/"])
    out = f"{sub}{stem}.{ext}"
    if "." in stem[1:]:
        seen.append("dots")
    if not stem.isascii():
        seen.append("unicode")
    if sub:
        seen.append("subdirectory")
    p = Program([Row([Cell(("text", prog.simple_word(rng))) for _ in range(rng.choice([1, 3]))]) for _ in range(rng.choice([1, 2, 3]))])
    src = prog.source(rng, p, fancy=False)
    ctx.fresh({"prog.csvpp": src, "bad.csvpp": "x :=\n---\ny\n", "other.txt": "keep"})
    if sub:
        os.makedirs(os.path.join(ctx.dir, sub), exist_ok=True)
    if isx:
        data = xlsx.write({"prog": {"cells": {xlsx.a1(x, y): ("s", f"old {x}", 0) for x in range(rng.randint(1, 3)) for y in range(rng.choice([1, 3, 3, 3, 60]))}}})
    else:
        r = rng.random()
        data = b"" if r < .08 else b"some,old,text\n" * 60000 if r < .12 else rng.choice([b"a,b\r\nc,d", b"x\n", "é,日\n,\n".encode(), b"1,2,3\n4,5,6\n" * rng.choice([1, 50]), b'"q,""x"""\n'])
        seen += ["empty"] if not data else ["large"] if len(data) > 500000 else []
    if fault != "no output yet":
        if rng.random() < .05 and not fault and not isx:
            ctx.put({"real_output": data})
            os.symlink(os.path.join(ctx.dir, "real_output"), os.path.join(ctx.dir, out))
            seen.append("link as output")
        else:
            ctx.put({out: data})
    # what may be in the way
    now = datetime.datetime.now(datetime.timezone.utc)
    block = rng.choice([0, 0, 1, 2, 3]) if fault is None else 0
    names = []
    if block >= 1:
        names.append(now.strftime("%Y_%m_%d"))
    if block >= 2:
        names += [(now + datetime.timedelta(minutes=m)).strftime("%Y_%m_%d-%I_%M%p") for m in (0, 1, 2)]
    if block >= 3:
        names += [(now + datetime.timedelta(seconds=s)).strftime("%Y_%m_%d-%I_%M_%S%p") for s in range(30)]
    for k, n in enumerate(names):
        b = f"{sub}{stem}-{n}.{ext}"
        if k == 0 and rng.random() < .15:
            os.mkdir(os.path.join(ctx.dir, b))
            seen.append("directory in the way")
        else:
            ctx.put({b: f"an earlier backup {k}\n"})
    if fault != "name too long" and rng.random() < .3:
        ctx.put({f"{sub}{stem}-1999_01_01.{ext}": "very old", f"{sub}{stem}-{now:%Y_%m_%d}.{ext}.bak": "another", f"{sub}x{stem[:9]}-{now:%Y_%m_%d}.{ext}": "not mine"})
        names.append("1999")
    if names:
        seen.append("earlier backups")
    style = rng.choice(["plain", "plain", "relative", "absolute"])
    cwd, inp, bad, o = ctx.dir, "prog.csvpp", "bad.csvpp", out
    if style == "absolute":
        cwd, inp, bad, o = ctx.root, os.path.join(ctx.dir, inp), os.path.join(ctx.dir, bad), os.path.join(ctx.dir, out)
    elif style == "relative":
        os.makedirs(os.path.join(ctx.dir, "w"))
        cwd, inp, bad, o = os.path.join(ctx.dir, "w"), "../" + inp, "../" + bad, "../" + out
    if style != "plain":
        seen.append(style)
    steps = rng.choice([1, 1, 2, 3, 5, 7, 12]) if not fault else 1
    log, backups, in_a_row = [], 0, 0
    for step in range(steps):
        fails = fault is None and rng.random() < .12
        want = fault is not None or rng.random() < .75
        argv = [bad if fails else inp, rng.choice(["-o", "--output-filename"]), o, "--no-cache"]
        if rng.random() < .3:
            argv.append("--safe")
            seen.append("safe")
        if want:
            argv.insert(rng.choice([0, len(argv)]), rng.choice(["-b", "--backup"]))
        if fault is None and not fails and rng.random() < .4:
            p.rows[0].cells[0].content = ("text", prog.simple_word(rng) + str(step))
            ctx.put({"prog.csvpp": prog.source(rng, p, fancy=False)})
        kw = {}
        if fault == "file size limit":
            kw["fsize"] = rng.choice([0, max(0, len(data) - 1), len(data) // 2])
            if not len(data) > kw["fsize"]:
                fault = None
                kw = {}
        elif fault == "forbidden":
            binary = os.path.join(ctx.root, "program")
            shutil.copy(ctx.bins["cli"], binary)
            os.chmod(binary, 0o755)
            os.chmod(ctx.root, 0o755)
            for d, ds, fs in os.walk(ctx.dir):
                os.chmod(d, 0o755)
                for f in fs:
                    os.chmod(os.path.join(d, f), 0o666)     # the output may be written but nothing be added
            kw = {"user": 65534, "binary": binary}
        before = ctx.snapshot()
        try:
            r = ctx.cli(*argv, cwd=cwd, **kw)
        except PermissionError:
            return Case((src, argv), False, ["cannot change the user"])
        after = ctx.snapshot()
        log.append({"argv": argv, "status": r["status"], "stderr": r["stderr"][:300]})
        shown = {"log": log, "out": out, "before": sorted(before), "after": sorted(after)}
        where = f"run {step + 1} ({'backup, ' if want else ''}status {r['status']})"
        if r.get("panic"):
            raise Violation(f"{where}: {failed(r)}", **shown)
        new = sorted(set(after) - set(before))
        target = "real_output" if "link as output" in seen else out
        for n in before:
            if n != target and (n not in after or before[n] != after[n]):
                raise Violation(f"{where}: {n} was {'lost' if n not in after else 'changed'}", **shown)
        if fault or fails:
            if fault != "no output yet" or not r["ok"]:
                if r["ok"]:
                    raise Violation(f"{where}: succeeds although {'the program is wrong' if fails else 'no backup can be made: ' + fault}", **shown)
                if not r["stderr"].strip():
                    raise Violation(f"{where}: no error message", **shown)
                if before.get(target) != after.get(target):
                    raise Violation(f"{where}: the output has changed", **shown)
                if fails and new:
                    raise Violation(f"{where}: new files {new}", **shown)
            seen.append(fault or "failed compilation")
            continue
        if not r["ok"]:
            raise Violation(f"{where} has to succeed: {failed(r)}", **shown)
        if target not in after:
            raise Violation(f"{where}: no output", **shown)
        if not want:
            if new:
                raise Violation(f"{where}: new files {new} without a backup asked for", **shown)
            seen.append("no backup")
            in_a_row = 0
            continue
        if len(new) != 1:
            raise Violation(f"{where}: {len(new)} new files instead of one backup: {new}", **shown)
        n = new[0]
        if os.path.dirname(n) != os.path.dirname(out) or not os.path.basename(n).startswith(stem) or not n.endswith("." + ext):
            raise Violation(f"{where}: the backup {n} is not named after {out}", **shown)
        if after[n] != before[target]:
            raise Violation(f"{where}: the backup {n} is not what the output was: {len(after[n] or '')} bytes instead of {len(before[target])}", **shown)
        seen += ["backup", "backup xlsx" if isx else "backup csv"]
        rest = os.path.basename(n)[len(stem):-len(ext) - 1]
        seen += [f for f, x in (("first format", r"-\d{4}_\d\d_\d\d"), ("second format", r"-\d{4}_\d\d_\d\d-\d\d_\d\d[AP]M"), ("third format", r"-\d{4}_\d\d_\d\d-\d\d_\d\d_\d\d[AP]M"), ("fourth format", r"-\d{4}_\d\d_\d\d-\d\d_\d\d_\d\d_\d{9}[AP]M")) if re.fullmatch(x, rest)]
        in_a_row += 1
        backups += 1
        if in_a_row == 5:
            seen.append("five in a row")
    return Case((src, out, log and log[-1]["argv"], len(log)), bool(backups or fault), seen, {"out": out, "runs": len(log), "backups": backups, "fault": fault}, executions=len(log))
