"""Literal cells survive compilation"""
import re

import prog
from common import *
from prog import Cell, Program, Row

ID = "C02"
CASES = {"quick": 6000, "thorough": 120000}
TIME = {"quick": 45, "thorough": 900}
RULE = ("A case is a generated sheet of literal text, number-like, empty and multi-line cells (up to 9x7, ragged rows), spelled "
        "with random quoting, padding, escaped newlines, comments, blank lines and line ends, with or without a code section, compiled "
        "to CSV or to XLSX; it is non-trivial if it has at least two different non-empty cells. What is compared is every cell of the output file.")
ASSUMPTIONS = ["a trailing empty field on the last line of the file is not generated (known finding)"]
MUST_SEE = ["csv", "xlsx", "code section", "ragged", "control characters", "control characters in xlsx", "what looks like an escape", "a line of dashes", "a line of dashes after a code section"]
ODD = ["\x01", "\x07", "\x08", "\x0b", "\x0c", "\x0e", "\x1b", "\x1f", "\x7f", "\ufffe", "\uffff", "\x00", "_x000A_", "_x0041_", "_x005F_", "_x00e9_x0041_", "_x12_", "_xgggg_", "__x0001_", "_x000a"]



def gen(rng, code):
    big = rng.random() < 0.03
    h = rng.choice([1, 1, 2, 3, 4, 5, 7]) if not big else rng.randint(40, 120)
    w = rng.choice([1, 2, 3, 4, 5, 9]) if not big or rng.random() < .5 else rng.randint(20, 60)
    ragged = rng.random() < 0.4
    rows = []
    for _ in range(h):
        n = rng.randint(1, w) if ragged else w
        rows.append(Row([Cell(None if rng.random() < 0.2 else ("text", prog.word(rng))) for _ in range(n)]))
    for r in rows:
        for k, c in enumerate(r.cells):
            if c.content and rng.random() < .03:
                w = c.content[1]
                at = rng.randint(1, max(1, len(w) - 1))
                r.cells[k] = Cell(("text", w[:at] + rng.choice(ODD) + (w[at:] or "x")))
    if rng.random() < .08:
        # lines that look like the end of a code section
        rows.insert(rng.randint(0, len(rows)), Row([Cell(("text", rng.choice(["---", "---", "----", "-----", "--", "--- ---", "-- -"] + ["a\n---\nb", "x\n ---"] * code)))]))
    return Program(rows)


def case(ctx, rng, i):
    code = rng.random() < 0.3
    p = gen(rng, code)
    src = prog.source(rng, p, code=code)
    excel = rng.random() < 0.3
    out = "out.xlsx" if excel else "out.csv"
    r = compile_csv(ctx, src, out=out, cache=rng.random() < .3)
    must_compile(r)
    if excel:
        judge_excel(ctx, p)
    else:
        judge_csv(ctx, p)
    vals = {c.content[1] for row in p.rows for c in row.cells if c.content}
    seen = ["xlsx" if excel else "csv"] + (["code section"] if code else [])
    if len({len(r.cells) for r in p.rows}) > 1:
        seen.append("ragged")
    if any(len(r.cells) == 1 and r.cells[0].content and r.cells[0].content[1].startswith("--") for r in p.rows):
        seen.append("a line of dashes" + (" after a code section" if code else ""))
    if any(re.search("[\0-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]", v) for v in vals):
        seen.append("control characters")
        if excel:
            seen.append("control characters in xlsx")
    if excel and any(re.search("_x[0-9A-Fa-f]{4}_", v) for v in vals):
        seen.append("what looks like an escape")
    seen = {k: 1 for k in seen}
    seen["cells compared"] = sum(len(r.cells) for r in p.rows)
    return Case(src, len(vals) >= 2, seen, {"source": src[:400], "output": out})
