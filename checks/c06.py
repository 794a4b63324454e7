"""Fills repeat a row exactly as often as asked and shift what follows"""
import defs, lang, options, prog, sheets, xlsx
from common import *
from options import Style
from prog import Cell, Names, Program, Row

ID = "C06"
CASES = {"quick": 2500, "thorough": 60000}
TIME = {"quick": 32, "thorough": 900}
RULE = ("A case is a sheet of up to 8 rows with any number of fills of 0 to 400 lines and at most one without an amount, at any place, with bound cells and rows, "
        "formulas, texts, styles and notes; the number of lines, and every cell, style and note of every line of the output, is compared with what is computed "
        "from the amounts. One case in twelve has a bad fill and has to be an error. Non-trivial: at least one fill.")
ASSUMPTIONS = ["variables bound in a row that is filled 0 times are not used"]
MUST_SEE = ["csv", "xlsx", "amount 0", "amount 1", "large amount", "without an amount", "rows after it", "no room left", "two fills", "bad fill rejected", "notes compared"]

BAD = ["![[fill=-1]]", "![[fill=x]]", "![[fill=]]", "![[f=1.5]]", "![[f=99999999999999999999999]]", "[[fill=2]]", "![[fill=1e3]]", "![[fill=0x10]]"]


def case(ctx, rng, i):
    seen = {}
    excel = rng.random() < 0.4
    for _ in range(20):
        pool = defs.pick_names(rng, rng.randint(0, 8))
        shp = sheets.shape(rng, rng.choice([1, 2, 3, 5, 8]), 4, fills=0.6, inf=0.06 if excel else 0.13, zero=0.1, big=0.12)
        if rng.random() < 0.03 and not excel:
            shp.insert(0, (rng.choice([998, 999, 1000, 1200]), 1))
        rows = sheets.with_vars(rng, shp, list(pool), 0.25, 0.2)
        vs = sheets.bound(rows)
        functions, variables = defs.gen_defs(rng, rng.choice([0, 0, 1]), rng.choice([0, 0, 1]), 1, refs=vs, avoid=set(pool))
        sheets.put_contents(rng, rows, Names(vs * 2 + list(variables), [(n, len(f[0])) for n, f in functions.items()]), 1)
        for r in rows:
            st = Style()
            if rng.random() < 0.25:
                o, r.opts = options.gen(rng, rng.choice([1, 2]), options.STYLES + ["note"])
                st.apply(o)
            for c in r.cells:
                c.style = st.copy()
                if rng.random() < 0.25:
                    o, c.opts = options.gen(rng, rng.choice([1, 2]), options.STYLES + ["note"])
                    c.style.apply(o)
        p = Program(rows, functions, variables)
        try:
            grid = p.expected()
        except lang.TooBig:
            continue
        if any(r.fill is not None for r in rows):
            break
    if rng.random() < 0.08:
        recs = [[prog.cell_value(rng, c, r if k == 0 else None).strip() for k, c in enumerate(r.cells)] for r in rows]
        r = rng.random()
        if r < 0.6:
            bad = rng.choice(BAD)
            recs[rng.randrange(len(recs))][0] = bad + "x"
        elif r < 0.8:
            bad = "![[f=2]]"
            rng.choice(recs).append(bad + "x")
        else:
            bad = "two fills without an amount"
            recs.append(["![[fill]]x"])
            recs.insert(0, ["![[f]]y"])
        src = prog.source(rng, Program([], functions, variables), code=True) + prog.csv_text(rng, recs)
        must_fail(compile_csv(ctx, src), bad)
        return Case(src, True, {"bad fill rejected": 1}, {"source": src[:300]})
    src = prog.source(rng, p)
    run = compile_csv(ctx, src, out="out.xlsx" if excel else "out.csv")
    must_compile(run)
    if excel:
        sheet = judge_excel(ctx, p, grid=grid)["prog"]
        want = []
        for y, line in enumerate(grid):
            for x, (_, c) in enumerate(line):
                a = xlsx.a1(x, y)
                m = options.mismatch(c.style, sheet.styles.get(a)) if a in sheet.styles else "is missing"
                if m:
                    raise Violation(f"cell {a}: {m}")
                if c.style.note is not None:
                    want.append((a, c.style.note))
        if sorted(want) != sorted(sheet.comments):
            raise Violation(f"notes are {sorted(sheet.comments)[:8]}, expected {sorted(want)[:8]}")
        seen["notes compared"] = len(want)
    else:
        judge_csv(ctx, p, grid=grid)
    seen["xlsx" if excel else "csv"] = 1
    fills = [r.fill for r in rows if r.fill is not None]
    for k, r in enumerate(rows):
        if r.fill == 0:
            seen["amount 0"] = 1
        elif r.fill == 1:
            seen["amount 1"] = 1
        elif r.fill == "inf":
            seen["without an amount"] = 1
            if sum(1 if q.fill is None else q.fill for q in rows if q is not r) >= 1000:
                seen["no room left"] = 1
        elif r.fill and r.fill >= 20:
            seen["large amount"] = 1
        if r.fill is not None and k + 1 < len(rows):
            seen["rows after it"] = 1
    if len(fills) >= 2:
        seen["two fills"] = 1
    seen["lines compared"] = len(grid)
    return Case(src, bool(fills), seen, {"source": src[:500], "lines": len(grid)})
