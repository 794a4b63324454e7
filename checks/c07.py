"""Cell and row options become exactly the styles they name in Excel"""
import options, prog, xlsx
from common import *
from options import Style
from prog import Cell, Names, Program, Row

ID = "C07"
CASES = {"quick": 4000, "thorough": 100000}
TIME = {"quick": 32, "thorough": 900}
RULE = ("A case is a sheet of up to 5x5 cells (some rows filled) where rows and cells have up to 6 options each, in long and short spellings, any letter case of the "
        "values, separated by blanks or slashes, with repeated and conflicting options; the style of every cell of the Excel output is read back and compared. One case in ten has "
        "a bad option and has to be an error. Non-trivial: at least one option.")
ASSUMPTIONS = ["either order of the color channels is accepted (known finding), and the defaults of unset attributes are those of the current tree"]
MUST_SEE = ["row option", "cell option", "inherited", "overridden", "filled row", "styled empty cell", "bad option rejected"] + \
           ["option " + k for k in ("border", "bstyle", "bcolor", "fill", "fcolor", "font", "size", "halign", "valign", "wrap", "text", "numfmt", "lock")]

BAD = ["[[bold]]", "[[text=bolder]]", "[[t]]", "[[t=]]", "[[color=red]]", "[[c=#ff]]", "[[c=#ggg]]", "[[c=#ff00ff0]]", "[[fs=256]]", "[[fs=x]]", "[[fs=-1]]",
       "[[ha=middle]]", "[[va=left]]", "[[ha=top]]", "[[b=middle]]", "[[bs=4]]", "[[nf=money]]", "[[wrap=yes]]", "[[t=b", "[[t=b]", "[[t=b,i]]", "[[]]", "[[ ]]",
       "[[t=b]][[t=i]]", "[[Text=bold]]", "[[FS=12]]", "[[n='unclosed]]", "[[fill=2]]", "[[f]]", "[[t=b i]]", "[[=b]]", "[[t==b]]", "[[ff=]]", "[[c=#1234]]", "[[bc]]"]


def case(ctx, rng, i):
    rows, styles = [], []
    seen = {}
    for _ in range(rng.choice([1, 2, 3, 5])):
        rst = Style()
        row = Row([])
        if rng.random() < 0.45:
            o, t = options.gen(rng, rng.choice([1, 1, 2, 3, 5]))
            row.opts = t
            rst.apply(o)
            seen["row option"] = 1
        if rng.random() < 0.2:
            row.fill = rng.choice([1, 2, 3, 10])
            seen["filled row"] = 1
        for _ in range(rng.choice([1, 2, 3, 5])):
            r = rng.random()
            c = Cell(None if r < 0.15 else ("text", prog.simple_word(rng)) if r < 0.8 else ("formula", prog.gen_expr(rng, 1, Names())))
            c.style = rst.copy()
            if rng.random() < 0.6:
                o, t = options.gen(rng, rng.choice([1, 1, 2, 3, 4, 6]))
                c.opts = t
                before = c.style.copy()
                c.style.apply(o)
                seen["cell option"] = 1
                if row.opts:
                    seen["inherited"] = 1
                    if any(k not in ("border", "text", "lock") and getattr(rst, k) != getattr(Style(), k) and getattr(rst, k) != m for k, m in o):
                        seen["overridden"] = 1
                for k, _ in o:
                    seen["option " + k] = seen.get("option " + k, 0) + 1
                if c.content is None:
                    seen["styled empty cell"] = 1
            row.cells.append(c)
        rows.append(row)
    p = Program(rows)
    if rng.random() < 0.1:
        recs = [[prog.cell_value(rng, c, r if k == 0 else None).strip() for k, c in enumerate(r.cells)] for r in rows]
        y = rng.randrange(len(recs))
        x = rng.randrange(len(recs[y]))
        r = rng.random()
        bad = rng.choice(BAD) if r < .35 else "![[t=b]]" if r < .4 else bad_group(rng, x == 0)
        if bad == "![[t=b]]" and x == 0:
            recs[y].insert(0, "a")
            x = 1
        recs[y][x] = bad + rng.choice(["", "x"])
        src = prog.csv_text(rng, recs)
        must_fail(compile_csv(ctx, src, out="out.xlsx"), f"a cell with {bad}")
        return Case(src, True, {"bad option rejected": 1}, {"source": src[:300]})
    src = prog.source(rng, p)
    must_compile(compile_csv(ctx, src, out="out.xlsx"))
    grid = p.expected()
    sheet = judge_excel(ctx, p, grid=grid)["prog"]
    inside = set()
    for y, line in enumerate(grid):
        for x, (_, c) in enumerate(line):
            a = xlsx.a1(x, y)
            inside.add(a)
            got = sheet.styles.get(a)
            if got is None:
                raise Violation(f"cell {a} is missing and has no style")
            m = options.mismatch(c.style, got)
            if m:
                raise Violation(f"cell {a} ({' '.join(rowopts(p, y) + ['|'] + c.opts)}): {m}")
            seen["styles compared"] = seen.get("styles compared", 0) + 1
    plain = Style()
    for a in set(sheet.styles) - inside:
        if sheet.styles[a] and any(sheet.styles[a][k] for k in ("bold", "italic", "strike", "fill", "borders")):
            raise Violation(f"cell {a} is not in the program but styled: {sheet.styles[a]}")
    return Case(src, "row option" in seen or "cell option" in seen, seen, {"source": src[:500]})


def bad_group(rng, first):
    opts = options.gen(rng, rng.choice([0, 0, 1, 2]))[1]
    opts.insert(rng.randint(0, len(opts)), options.bad(rng))
    return ("!" if first and rng.random() < .5 else "") + "[[" + rng.choice([" ", "/", " / "]).join(opts) + "]]"


def rowopts(p, y):
    for row, at, n in p.layout():
        if at <= y < at + n:
            return row.opts
    return []


def color_order(ctx):
    must_compile(compile_csv(ctx, "[[c=#ff0000]]x\n", out="out.xlsx"))
    got = read_xlsx(ctx)["prog"].styles["A1"]["fill"]
    if not options.color_ok(got, "FF0000", exact=True):
        raise Violation(f"the color #ff0000 is written as {got} (AARRGGBB)")


FIXED = {"color-order": color_order}
