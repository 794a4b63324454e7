"""CSV and Excel output agree cell for cell"""
import lang, prog, whole, xlsx
from checks import c10
from common import *

ID = "C19"
CASES = {"quick": 6000, "thorough": 200000}
TIME = {"quick": 45, "thorough": 900}
RULE = ("A case is a whole program (definitions, modules, bound cells and rows, fills of any kind, options, notes, validations, command line values, texts of all sorts, up to 800 columns or a thousand rows), compiled to CSV and to Excel in either order, from the source or from object code, one in ten by the real program. Every "
        "cell of the two outputs is compared with the other (text with text, formula with formula, literal with typed value) and with a reference interpreter. Non-trivial: at least one formula and one text or fill.")
ASSUMPTIONS = ["numbers are compared as numbers"]
MUST_SEE = ["text", "formula", "number", "boolean", "string", "empty", "fill", "unbounded fill", "module", "modules", "key/value", "from object code", "excel first", "csv first", "real program", "wide", "three-letter column", "number-like text", "multi-line text", "xlsm", "xltx", "upper case"]


def disagree(text, cell):
    """None if the text of a CSV field and a cell of a workbook hold the same"""
    if text == "":
        return None if cell is None or cell["value"] == "" else "only Excel has something"
    if not text.startswith("="):
        return None if cell is not None and cell["kind"] == "s" and cell["value"] == text else "not the same text"
    if cell is None:
        # (an empty string is a string)
        return None if lang.parse(text[1:]) == ("str", "") else "nothing in Excel"
    e = lang.parse(text[1:])
    if cell["kind"] == "f":
        return None if lang.canon(e) == lang.canon(lang.parse(cell["value"].lstrip("="))) else "not the same formula"
    if cell["kind"] == "n":
        return None if e[0] == "num" and not e[1] and not e[3] and float(e[2]) == cell["value"] else "not the same number"
    if cell["kind"] == "b":
        return None if e == ("bool", cell["value"]) else "not the same boolean"
    return None if e == ("str", cell["value"]) else "not the same string"


def case(ctx, rng, i):
    seen = {}

    def see(*names):
        for n in names:
            seen[n] = seen.get(n, 0) + 1
    if rng.random() < .3:
        g = c10.program(rng)
        if g is None:
            return Case(i, False)
        mods, order, main, _, _, p, *_ = g
        files, args, grid = {m.name + ".csvpp": c10.text(rng, m) for m in order + [main]}, [], p.expected()
        see("modules")
    else:
        big = rng.random()
        vast = .09 < big < .095
        w = whole.generate(rng, 1 if vast else rng.choice([1, 3, 6]) if big > .06 else 3, 760 if vast else rng.choice([1, 3, 6]) if big > .1 else rng.choice([30, 60]) if big > .06 else 2,
                           min_cols=700 if vast else 1, fills=.05 if vast else .35, module=.3, kv=.3, notes=True, dvs=.05, inf=.6 if big < .03 else 0.0,
                           texts=prog.word if rng.random() < .6 else None)
        p, files, args, grid = w.program, w.files, w.args, w.grid
        if big <= .1 and big > .06:
            see("wide")
        if len(files) > 1:
            see("module")
        if args:
            see("key/value")
    xl = rng.choice(["out.xlsx", "out.xlsx", "out.xlsx", "out.xlsm", "out.xltx", "out.xltm", "out.XLSX", "out.XlsX"])
    cs = rng.choice(["out.csv", "out.csv", "out.csv", "out.CSV", "out.Csv"])
    if xl[4:6] == "XL" or cs[4:6] == "CS":
        see("upper case")
    if xl in ("out.xlsm", "out.xltx"):
        see(xl[4:])
    ctx.fresh(files)
    cache = [] if rng.random() < .4 else ["--no-cache"]
    outs = [cs, xl]
    if rng.random() < .5:
        outs.reverse()
    see("csv first" if outs[0] == cs else "excel first")
    for k, o in enumerate(outs):
        argv = ["prog.csvpp", "-o", o, "-n", "s", *cache, *args]
        if rng.random() < .1:
            run = ctx.cli(*argv)
            see("real program")
        else:
            run = ctx.run(*argv)
        must_compile(run, f"the program (to {o})")
    if not cache and not args:
        see("from object code")
    data = read_csv(ctx, cs)
    rows = prog.csv_rows(data)
    book = read_xlsx(ctx, xl)
    if list(book) != ["s"]:
        raise Violation(f"sheets of the workbook: {list(book)}")
    sheet = book["s"]
    shown = dict(files={k: str(v)[:1500] for k, v in files.items()}, args=args)
    inside = set()
    for y, line in enumerate(rows):
        for x, t in enumerate(line):
            a = xlsx.a1(x, y)
            inside.add(a)
            try:
                m = disagree(t, sheet.cells.get(a))
            except lang.BadFormula as e:
                m = f"not a formula ({e})"
            if m:
                raise Violation(f"cell {a}: {m}: CSV has {t!r}, Excel has {sheet.cells.get(a)}", **shown)
    extra = {a for a, c in sheet.cells.items() if c["value"] != ""} - inside
    if extra:
        raise Violation(f"only Excel has {sorted(extra)[:6]}", **shown)
    m = prog.compare_csv(grid, data) or prog.compare_excel(grid, sheet)
    if m:
        raise Violation(m, **shown)
    if any(x > 701 and v is not None for line in grid for x, (v, _) in enumerate(line)):
        see("three-letter column")
    for line in grid:
        for v, _ in line:
            if v is None:
                see("empty")
            elif v[0] == "text":
                see("multi-line text" if "\n" in v[1] else "number-like text" if v[1].replace(".", "").replace("-", "").isdigit() else "text")
            else:
                see({"num": "number", "bool": "boolean", "str": "string"}.get(v[1][0], "formula"))
    if any(r.fill is not None for r in p.rows):
        see("fill")
    if any(r.fill == "inf" for r in p.rows):
        see("unbounded fill")
    return Case((sorted(files.items(), key=str), args, outs), ("formula" in seen or "number" in seen) and bool({"text", "fill", "string", "modules"} & set(seen)), seen, {"files": {k: str(v)[:300] for k, v in files.items()}, "outputs": outs}, executions=2)
