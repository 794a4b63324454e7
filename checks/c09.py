"""Excel files hold every value as its type, with notes on their own cell"""
import options, prog, xlsx
from common import *
from options import Style
from prog import Cell, Names, Program, Row

ID = "C09"
CASES = {"quick": 4000, "thorough": 100000}
TIME = {"quick": 32, "thorough": 900}
RULE = ("A case is a sheet of texts that look like other things (numbers, dates, booleans, formulas), number, boolean, string and other formulas, empty cells and notes, "
        "up to 40 columns and 300 lines, with or without a sheet name; the type, value and address of every cell and the notes of the workbook are read back and "
        "compared. Non-trivial: at least two different types.")
ASSUMPTIONS = ["strings of formulas contain no double quotes (known finding)"]
MUST_SEE = ["number", "boolean", "string", "formula", "text", "empty", "note", "note in a fill", "beyond column Z", "sheet named", "number-like text"]
LIKE = ["1", "1.5", "-3", "007", "1e5", "TRUE", "false", "2024-01-31", "12/31/99", "10:30", "50%", "$5", "1,000", "#REF!", "#N/A", "'quoted", "+1", "-", "0", "NaN", "inf",
        " x", "A1", "SUM(A1)", "null", "00.10", "1E400", "0x1F", "1/2", "_x000A_", "_xHHHH_", "_x00aF_", "a_x0001_b", "a\x01b", "a\x1ab\x0b.", "a\ufffeb", "a\uffffb", "\x7f", "_x005F_", "\ufeffx\ufeff"]
NAMES = ["Sheet1", "my sheet", "Übersicht", "日本", "a-b", "x", "A1", "2024", "Q1 & Q2", "it's", "<s>", "a.b", "sheet_1", "data,csv", "0"]


def case(ctx, rng, i):
    seen = {}
    rows = []
    wide = rng.random() < 0.1
    big = rng.random() < 0.04
    for _ in range(rng.choice([1, 2, 3, 5]) if not big else rng.randint(60, 300)):
        row = Row([])
        rst = Style()
        if rng.random() < 0.15:
            row.fill = rng.choice([1, 2, 3, 7])
        if rng.random() < 0.08:
            o, row.opts = options.gen(rng, 1, ["note"])
            rst.apply(o)
        for _ in range(rng.choice([1, 2, 3, 6]) if not wide else rng.randint(24, 60)):
            r = rng.random()
            if r < 0.12:
                v, k = None, "empty"
            elif r < 0.3:
                v, k = ("text", rng.choice(LIKE).strip()), "number-like text"
            elif r < 0.45:
                v, k = ("text", prog.word(rng)), "text"
            elif r < 0.6:
                v, k = ("formula", prog.gen_num(rng, rng.random() < .3)), "number"
            elif r < 0.67:
                v, k = ("formula", ("bool", rng.random() < 0.5)), "boolean"
            elif r < 0.75:
                v, k = ("formula", ("str", rng.choice(prog.STRINGS))), "string"
            else:
                v, k = ("formula", prog.gen_expr(rng, rng.choice([1, 2]), Names())), "formula"
            seen[k] = seen.get(k, 0) + 1
            c = Cell(v, style=rst.copy())
            if rng.random() < (0.12 if not big and not wide else 0.01):
                o, c.opts = options.gen(rng, 1, ["note"])
                c.style.apply(o)
            row.cells.append(c)
        rows.append(row)
    p = Program(rows)
    src = prog.source(rng, p, fancy=not big)
    name = rng.choice(["prog", "prog", "prog.v2", "Über sicht", "a b", "x"])
    extra, sheet = [], name
    if rng.random() < 0.4:
        sheet = rng.choice(NAMES)
        extra = [rng.choice(["-n", "--sheet-name"]), sheet]
        seen["sheet named"] = 1
    must_compile(compile_csv(ctx, src, extra=extra, name=name + ".csvpp", out="out.xlsx"))
    grid = p.expected()
    book = judge_excel(ctx, p, sheet, grid)
    if list(book) != [sheet]:
        raise Violation(f"a new workbook has the sheets {list(book)}, expected only {sheet!r}")
    want = [(xlsx.a1(x, y), c.style.note) for y, line in enumerate(grid) for x, (_, c) in enumerate(line) if c.style.note is not None]
    if sorted(want) != sorted(book[sheet].comments):
        raise Violation(f"notes are {sorted(book[sheet].comments)[:8]}, expected {sorted(want)[:8]}")
    if want:
        seen["note"] = len(want)
        if any(r.fill for r in rows if any(c.style.note for c in r.cells)):
            seen["note in a fill"] = 1
    if any(len(line) > 26 for line in grid):
        seen["beyond column Z"] = 1
    kinds = [k for k in ("number", "boolean", "string", "formula", "text", "number-like text") if k in seen]
    return Case((src, sheet), len(kinds) >= 2, seen, {"source": src[:400], "sheet": sheet})


def sheet_name_limits(ctx):
    for n in ("a" * 32, "a/b"):
        if compile_csv(ctx, "a\n", extra=["-n", n], out="out.xlsx")["ok"] and n in read_xlsx(ctx):
            raise Violation(f"the sheet name {n!r} is written, Excel takes up to 31 characters other than []:*?/\\")


def long_text(ctx):
    if compile_csv(ctx, "b" * 32768 + "\n", out="out.xlsx")["ok"]:
        n = len(read_xlsx(ctx)["prog"].cells["A1"]["value"])
        if n > 32767:
            raise Violation(f"a text of {n} characters is written to a cell, Excel takes 32767")


def last_column(ctx):
    """All of the 16384 columns that there are can be used, and no more"""
    must_compile(compile_csv(ctx, "," * 16383 + "end\nx\n", out="out.xlsx"))
    got = {a: c["value"] for a, c in read_xlsx(ctx)["prog"].cells.items() if c["value"] != ""}
    if got != {"XFD1": "end", "A2": "x"}:
        raise Violation(f"XFD1 should be 'end' and A2 'x': {got}")
    run = compile_csv(ctx, "," * 16384 + "end\nx\n", out="out.xlsx")
    if run["ok"] or ctx.exists("out.xlsx"):
        raise Violation("16385 columns are written")


def last_row(ctx):
    run = compile_csv(ctx, "![[fill=1048575]]=1\nx,y\nz\n", out="out.xlsx")
    if run["ok"] or ctx.exists("out.xlsx"):
        raise Violation("1048577 rows are written")
    must_compile(compile_csv(ctx, "![[fill=69998 t=bold]]=A1\n[[t=bold]]x,y\nz\n", out="out.xlsx"))
    sheet = read_xlsx(ctx)["prog"]
    got = {a: c["value"] for a, c in sheet.cells.items() if c["value"] != "" and xlsx.xy(a)[1] >= 69997}
    bold = {a for a, s in sheet.styles.items() if s and s["bold"]}
    if bold != {f"A{k}" for k in range(1, 70000)}:
        raise Violation(f"{len(bold)} cells are bold, not A1 to A69999")
    if got != {"A69998": "A1", "A69999": "x", "B69999": "y", "A70000": "z"}:
        raise Violation(f"the last rows are {got}")


FIXED = {"last-column": last_column, "last-row": last_row, "sheet-name-limits": sheet_name_limits, "long-text": long_text}
