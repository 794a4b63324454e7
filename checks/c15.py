"""Writing to an existing CSV keeps what is not overwritten"""
import csv, io, os

import lang, prog, whole, xlsx
from common import *

ID = "C15"
CASES = {"quick": 4000, "thorough": 100000}
TIME = {"quick": 40, "thorough": 900}
RULE = ("A case is an existing CSV file (ragged, of any quoting, line ends and texts, at times empty or absent) and a history of 1 to 5 compilations of up to 3 programs of any shape (with definitions, modules, fills, bound cells) onto it, with and "
        "without the safe mode, one in six by the real program. After every step each cell of the file is compared with a model of the merge: the program's cell, the cell as it was, or empty. Non-trivial: the file had cells the program does not cover, or "
        "kept some in safe mode.")
ASSUMPTIONS = ["there are no entirely blank lines in the existing file (known finding)", "an empty cell of the program counts as one that it covers"]
MUST_SEE = ["kept to the right", "kept below", "overwritten", "overwritten by an empty cell", "safe kept", "safe filled", "same again", "no file before", "empty file before", "program narrower", "program wider", "program longer", "program shorter", "real program",
            "CRLF before", "quoted newline before", "fill"]


def existing(rng):
    """(bytes, grid)"""
    n, w = rng.choice([1, 2, 3, 5, 8, 30]), rng.choice([1, 2, 3, 5, 12])
    ragged = rng.random() < .5
    grid = []
    for _ in range(n):
        row = []
        for _ in range(rng.randint(1, w) if ragged else w):
            r = rng.random()
            if r < .3:
                row.append("")
            elif r < .8:
                row.append(rng.choice([prog.word, prog.simple_word])(rng))
            elif r < .9:
                row.append("=" + lang.Speller(rng).expr(prog.gen_expr(rng, 1, prog.Names())))
            else:
                row.append(rng.choice([" padded ", " ", "\t", "a\r\nb", "a\nb\n", '"', '""', "\r", "x" * 500, "é\u0301", "0", "  lead", "# x", "[[text=bold]]x", "![[fill=3]]y", "'", "\ufeffx" if grid or row else "x", "a\\", "\\\n"]))
        grid.append(row)
    eol = rng.choice(["\n", "\n", "\r\n"])
    out = []
    for row in grid:
        fs = []
        for c in row:
            must = any(x in c for x in ',"\r\n') or (c == "" and len(row) == 1)
            fs.append('"' + c.replace('"', '""') + '"' if must or rng.random() < .15 else c)
        out.append(",".join(fs))
    t = eol.join(out) + (eol if rng.random() < .85 or not out[-1] else "")
    return t.encode(), grid, eol


def case(ctx, rng, i):
    seen = {}

    def see(*names):
        for n in names:
            seen[n] = seen.get(n, 0) + 1
    ws = []
    for k in range(rng.choice([1, 1, 1, 2, 3])):
        w = whole.generate(rng, rng.choice([1, 3, 5]), rng.choice([1, 3, 5]), module=.15, texts=prog.word if rng.random() < .4 else None)
        ws.append(w)
    ctx.fresh()
    r = rng.random()
    before = []
    if r < .08:
        see("no file before")
    elif r < .13:
        ctx.put({"out.csv": b""})
        see("empty file before")
    else:
        data, before, eol = existing(rng)
        ctx.put({"out.csv": data})
        if eol == "\r\n":
            see("CRLF before")
        if any("\n" in c for row in before for c in row):
            see("quoted newline before")
    log = []
    again = None
    interesting = False
    for step in range(rng.choice([1, 1, 2, 3, 5])):
        if again is not None and rng.random() < .35:
            k, safe = again
            see("same again")
        else:
            k, safe = rng.randrange(len(ws)), rng.random() < .45
        w = ws[k]
        ctx.put(w.files)
        argv = ["prog.csvpp", rng.choice(["-o", "--output-filename"]), "out.csv", "--no-cache"] + ([rng.choice(["-s", "--safe"])] if safe else []) + w.args
        log.append(f"program {k}" + (" safe" if safe else ""))
        if rng.random() < .16:
            run = ctx.cli(*argv)
            see("real program")
        else:
            run = ctx.run(*argv)
        must_compile(run)
        rows = prog.csv_rows(read_csv(ctx))
        grid = w.grid
        h = max(len(before), len(grid))
        width = max([len(r) for r in before] + [len(r) for r in grid])
        if len(rows) != h:
            raise Violation(f"step {step} ({log[-1]}): {len(rows)} rows, expected {h}", before=before, after=rows, source=w.files)
        for y in range(h):
            old = before[y] if y < len(before) else []
            new = grid[y] if y < len(grid) else []
            if len(rows[y]) != width:
                raise Violation(f"step {step} ({log[-1]}): row {y + 1} has {len(rows[y])} cells, expected {width}", before=before, after=rows, source=w.files)
            for x in range(width):
                o = old[x] if x < len(old) else ""
                got = rows[y][x]
                if x < len(new) and not (safe and o):
                    m = prog.text_mismatch(new[x][0], got)
                    if o and not m:
                        see("overwritten" if new[x][0] is not None else "overwritten by an empty cell")
                    elif safe and not m and new[x][0] is not None and (y < len(before) and x < len(old)):
                        see("safe filled")
                else:
                    m = None if got == o else f"was {o!r}, is {got!r}"
                    if o and x < len(new):
                        see("safe kept")
                        interesting = True
                    elif o:
                        see("kept to the right" if y < len(grid) else "kept below")
                        interesting = True
                if m:
                    raise Violation(f"step {step} ({log[-1]}): cell {xlsx.a1(x, y)}: {m}", before=before, after=rows, source=w.files, log=log)
        if again == (k, safe) and log[-1] == (log[-2] if len(log) > 1 else None):
            # the same compilation again changes nothing
            if rows != before:
                raise Violation(f"step {step}: the same compilation again changes the file", before=before, after=rows, source=w.files)
        if before:
            pw, bw = max(len(r) for r in grid), max(len(r) for r in before)
            see("program narrower" if pw < bw else "program wider" if pw > bw else "as wide", "program longer" if len(grid) > len(before) else "program shorter" if len(grid) < len(before) else "as long")
        if any(r.fill is not None for r in w.program.rows):
            see("fill")
        before = rows
        again = (k, safe)
    return Case((log, [w.files for w in ws], before), interesting, seen, {"log": log, "rows": len(before)}, executions=len(log))


def blank_line(ctx):
    ctx.fresh({"prog.csvpp": "x\n", "out.csv": "a\n\nb\n"})
    must_compile(ctx.run("prog.csvpp", "-o", "out.csv", "--no-cache"))
    rows = prog.csv_rows(read_csv(ctx))
    if rows[2:] != [["b"]]:
        raise Violation(f"the cell A3 is kept at its place: {rows}")


FIXED = {"blank-line-before": blank_line}
