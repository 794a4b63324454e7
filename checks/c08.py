"""Data validations become the Excel rules they name"""
import datetime

import options, prog, validations, xlsx
from common import *
from options import Style
from prog import Cell, Names, Program, Row

ID = "C08"
CASES = {"quick": 4000, "thorough": 100000}
TIME = {"quick": 32, "thorough": 900}
RULE = ("A case is a sheet of up to 5x5 cells (some rows filled) where rows and cells have data validations in all of their spellings with random dates, numbers, texts, "
        "lists, ranges and formulas, mixed with other options; the rules of the workbook are read back: exactly one for each cell that has one, with the right kind, operator, "
        "operands and reference to the cell. One case in eight has a bad validation and has to be an error. Non-trivial: at least one validation.")
ASSUMPTIONS = ["dates counted from 1900-01-01 are accepted (known finding)", "a rule per cell or one for several cells are both accepted, rules for ranges are not"]
KINDS = sorted({k for k, _ in validations.OPS.values()})
MUST_SEE = ["validation " + k for k in KINDS] + ["row validation", "overridden", "filled row", "bad validation rejected"]

BAD = ["num_gt(x)", "num_gt()", "num_gt(1 2)", "num_gt 1", "num_gt", "num_btwn(1)", "num_btwn(1 2 3)", "num_btwn()", "date_gt(foo)", "date_gt(2024-13-01)", "date_gt(2024-02-30)",
       "date_gt(2/30/2024)", "date_gt()", "date_gt(5)", "date_btwn(2024-01-01)", "date_btwn(2024-01-01 5)", "date_eq(2024-01-01 2024-01-02)", "in_list()", "in_list", "in_range()",
       "in_range(foo bar)", "in_range(1 2)", "nope(1)", "", "text_contains()", "text_contains('a' 'b')", "text_contains", "is_email(1)", "is_date()", "num_gt(1", "num_gt(1))", "text_eq('x)",
       "number", "num_gt(--5)", "num_gt(1-2)", "c()", "custom", "date_between(1/1/2024,1/2/2024)", "num_gt(99999999999999999999)", "in_range(A0)"]


def case(ctx, rng, i):
    seen = {}
    rows = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        row, rst = Row([]), Style()
        if rng.random() < 0.25:
            rst.dv, t = validations.one(rng)
            row.opts = [t]
            seen["row validation"] = 1
        if rng.random() < 0.2:
            row.fill = rng.choice([1, 2, 3, 8])
        for _ in range(rng.choice([1, 2, 3, 5])):
            r = rng.random()
            c = Cell(None if r < .3 else ("text", prog.simple_word(rng)) if r < .8 else ("formula", prog.gen_expr(rng, 1, Names())), style=rst.copy())
            if rng.random() < 0.45:
                dv, t = validations.one(rng)
                if c.style.dv:
                    seen["overridden"] = 1
                c.opts = [t]
                if rng.random() < .08:
                    dv, t = validations.one(rng)        # the last one counts
                    c.opts.append(t)
                c.style.dv = dv
            if rng.random() < 0.25:
                o, t = options.gen(rng, 1)
                c.style.apply(o)
                for x in t:
                    c.opts.insert(rng.randint(0, len(c.opts)), x)
            row.cells.append(c)
        rows.append(row)
    p = Program(rows)
    if rng.random() < 0.12:
        recs = [[prog.cell_value(rng, c, r if k == 0 else None).strip() for k, c in enumerate(r.cells)] for r in rows]
        y = rng.randrange(len(recs))
        x = rng.randrange(len(recs[y]))
        bad = rng.choice(BAD)
        recs[y][x] = ("!" if x == 0 and rng.random() < .5 else "") + "[[" + rng.choice(["", "t=b "]) + rng.choice(["dv", "validate"]) + "=" + bad + "]]" + rng.choice(["", "x"])
        src = prog.csv_text(rng, recs)
        must_fail(compile_csv(ctx, src, out="out.xlsx"), f"a cell with validate={bad}")
        return Case(src, True, {"bad validation rejected": 1}, {"source": src[:300]})
    src = prog.source(rng, p)
    must_compile(compile_csv(ctx, src, out="out.xlsx"))
    grid = p.expected()
    sheet = judge_excel(ctx, p, grid=grid)["prog"]
    want = {xlsx.a1(x, y): c.style.dv for y, line in enumerate(grid) for x, (_, c) in enumerate(line) if c.style.dv}
    m = validations.judge(want, sheet.validations)
    if m:
        raise Violation(m)
    for y, line in enumerate(grid):
        for x, (_, c) in enumerate(line):
            m = options.mismatch(c.style, sheet.styles[xlsx.a1(x, y)])
            if m:
                raise Violation(f"cell {xlsx.a1(x, y)}: {m}")
    for dv in want.values():
        seen["validation " + dv[0]] = seen.get("validation " + dv[0], 0) + 1
    if any(r.fill for r in rows if any(c.style.dv for c in r.cells)):
        seen["filled row"] = 1
    seen["rules compared"] = len(want)
    return Case(src, bool(want), seen, {"source": src[:500]})


def date_epoch(ctx):
    must_compile(compile_csv(ctx, "[[dv=date_eq(2024-01-31)]]x\n", out="out.xlsx"))
    f = read_xlsx(ctx)["prog"].validations[0]["f1"]
    if f != "45322":
        raise Violation(f"2024-01-31 is written as {f}, Excel counts 45322")


def embedded_quotes(ctx):
    must_compile(compile_csv(ctx, '"[[dv=text_contains(\'say ""hi""\')]]x"\n', out="out.xlsx"))
    m = validations.judge({"A1": ("contains", None, ('say "hi"',))}, read_xlsx(ctx)["prog"].validations)
    if m:
        raise Violation(m)


def list_comma(ctx):
    run = compile_csv(ctx, "\"[[dv=in_list('a,b' 'c')]]x\"\n", out="out.xlsx")
    if run["ok"]:
        f = read_xlsx(ctx)["prog"].validations[0]["f1"]
        if [s.strip() for s in f.strip('"').split(",")] != ["a", "b", "c"]:
            return
        raise Violation(f"in_list('a,b' 'c') is written as {f}, a list of three items")


def long_list(ctx):
    run = compile_csv(ctx, '"[[dv=in_list(' + " ".join(f"'item {i}'" for i in range(60)) + ')]]x"\n', out="out.xlsx")
    if run["ok"]:
        f = read_xlsx(ctx)["prog"].validations[0]["f1"]
        if len(f) > 257:
            raise Violation(f"a list of {len(f)} characters is written, Excel takes 255")


FIXED = {"list-comma": list_comma, "long-list": long_list, "date-epoch": date_epoch, "embedded-quotes": embedded_quotes}
