"""Cell, row and command line variables resolve relative to their use"""
import defs, lang, prog, sheets
from common import *
from prog import Names, Program

ID = "C05"
CASES = {"quick": 3600, "thorough": 90000}
TIME = {"quick": 32, "thorough": 900}
RULE = ("A case is a sheet of up to 5 rows, some filled 1 to 130 times or to the end, with variables bound to cells and rows, used in formulas before, after, "
        "inside and outside of the fills, directly and through functions and variables of the code section, together with -k values and definitions that compete "
        "for the same names; every output formula is compared with the tree a reference interpreter computes for its line. Non-trivial: a bound variable is used.")
ASSUMPTIONS = ["every name is bound to at most one cell or row", "at most one fill without an amount"]
MUST_SEE = ["csv", "xlsx", "used in its own fill", "used outside of its fill", "cell variable", "row variable", "-k used",
            "code section wins over cell", "cell wins over -k", "code section wins over -k", "through a definition"]


def case(ctx, rng, i):
    seen = {}
    for _ in range(20):
        pool = defs.pick_names(rng, rng.randint(4, 12))
        kvn = [n for n in pool if rng.random() < 0.35]
        shp = sheets.shape(rng, zero=0)
        rows = sheets.with_vars(rng, shp, list(pool))
        vs = sheets.bound(rows)
        kv = {n: prog.gen_expr(rng, rng.choice([0, 0, 0, 1]), Names(undefined=False)) for n in kvn}
        kv = {n: e for n, e in kv.items() if "," not in lang.show(e)}
        for n in vs:
            if n not in kv and rng.random() < 0.15:
                kv[n] = prog.gen_num(rng)
        refs = vs + list(kv)
        functions, variables = defs.gen_defs(rng, rng.choice([0, 0, 1, 3]), rng.choice([0, 0, 1, 3]), 2, refs=refs, avoid=set(refs))
        # competition for names: a definition of the code section that hides a cell or -k
        for n in refs:
            if rng.random() < 0.12:
                variables[n] = prog.gen_num(rng)
        if not defs.acyclic(functions, variables):
            continue
        names = Names(refs * 2 + list(variables) + [n.upper() for n in refs[:1]], [(n, len(f[0])) for n, f in functions.items()])
        sheets.put_contents(rng, rows, names)
        p = Program(rows, functions, variables, kv=kv)
        try:
            grid = p.expected()
            break
        except lang.TooBig:
            continue
    else:
        return Case(i, False)
    src = prog.source(rng, p)
    excel = rng.random() < 0.15
    sp = lang.Speller(rng, plain=True)
    run = compile_csv(ctx, src, extra=kv_args(rng, kv, sp), out="out.xlsx" if excel else "out.csv")
    must_compile(run)
    (judge_excel if excel else judge_csv)(ctx, p, grid=grid)

    seen["xlsx" if excel else "csv"] = 1
    used = 0
    home = {}
    for r in rows:
        for n, kind in [(r.var, "row variable")] + [(c.var, "cell variable") for c in r.cells]:
            if n:
                home[n] = (r, kind)
    direct = set()
    for r in rows:
        for c in r.cells:
            if c.content and c.content[0] == "formula":
                for n in lang.refs(c.content[1]):
                    direct.add(n)
                    if n in variables and n in home:
                        seen["code section wins over cell"] = 1
                    elif n in variables and n in kv:
                        seen["code section wins over -k"] = 1
                    elif n in home:
                        used += 1
                        seen[home[n][1]] = 1
                        if n in kv:
                            seen["cell wins over -k"] = 1
                        if home[n][0].fill is not None:
                            seen["used in its own fill" if home[n][0] is r else "used outside of its fill"] = 1
                    elif n in kv:
                        seen["-k used"] = 1
                    elif n in variables and lang.refs(variables[n]) & set(home):
                        seen["through a definition"] = 1
    seen["output cells compared"] = sum(map(len, grid))
    return Case((src, sorted(kv)), used > 0, seen, {"source": src[:500], "key_values": {k: lang.show(e) for k, e in kv.items()}})
