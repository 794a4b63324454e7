"""Formulas keep their meaning"""
import prog, lang
from common import *
from prog import Cell, Names, Program, Row

ID = "C03"
CASES = {"quick": 5000, "thorough": 120000}
TIME = {"quick": 45, "thorough": 900}
RULE = ("A case is a sheet of generated formulas (all operators, nested calls, omitted arguments, references of all shapes, signed and percent "
        "numbers, strings, booleans; depth up to 6; one in five sheets of chains of up to 8 operators of any levels without parentheses), each spelled with random parentheses, spacing and number forms; the formula of every output "
        "cell is read back with an independent parser and its tree compared with the one generated. Non-trivial: has an operator or a call.")
ASSUMPTIONS = ["regrouping of chains of + and -, * and /, & counts as the same formula",
               "operators of one level in a chain without parentheses may group from the right (known finding), nothing else", "strings do not contain double quotes (known finding)"]
MUST_SEE = ["csv", "xlsx", "operator", "call", "percent", "omitted argument", "chain", "chain of several levels", "chain of comparisons"]


def features(e, out):
    if e[0] == "bin":
        out["operator"] = out.get("operator", 0) + 1
        features(e[2], out)
        features(e[3], out)
    elif e[0] == "call":
        out["call"] = out.get("call", 0) + 1
        for a in e[2]:
            features(a, out)
    elif e[0] == "num" and e[3]:
        out["percent"] = out.get("percent", 0) + 1
    elif e[0] == "omit":
        out["omitted argument"] = out.get("omitted argument", 0) + 1
    return out


LEVELS = {15: ["^"], 14: ["*", "/"], 13: ["+", "-"], 12: ["&"], 11: ["=", "<", ">", "<=", ">=", "<>"]}


def grouped(atoms, ops, right):
    """The tree of a flat chain; operators of the levels in `right` group from the right"""
    pos = 0

    def level(minp):
        nonlocal pos
        e = atoms[pos]
        while pos < len(ops) and lang.PREC[ops[pos]] > minp:
            op = ops[pos]
            p = lang.PREC[op]
            pos += 1
            e = ("bin", op, e, level(p - 1 if p in right else p))
        return e
    return level(0)


def chain(rng):
    """(text, trees): a formula without parentheses.  Operators of one level have to group from the
    left; from the right is a known finding, so that is accepted as well, and nothing else is."""
    n = rng.choice([2, 2, 3, 3, 4, 5, 8])
    some = rng.sample(list(LEVELS), rng.choice([1, 1, 2, 3, 5]))
    ops = [rng.choice(LEVELS[rng.choice(some)]) for _ in range(n)]
    atoms = []
    for _ in range(n + 1):
        r = rng.random()
        atoms.append(prog.gen_expr(rng, 0, Names()) if r < .7 else ("call", rng.choice(["SUM", "foo"]), (prog.gen_expr(rng, 1, Names()),)) if r < .8
                     else ("ref", f"{rng.choice('ABCXYZ')}{rng.randint(1, 99)}"))
    sp = lang.Speller(rng, plain=rng.random() < .5)
    wrap = lambda e: "(" + sp.expr(e) + ")" if rng.random() < .08 else sp.expr(e)
    gap = lambda: rng.choice([" ", " ", "  ", ""])
    text = "".join(wrap(a) + gap() + o + (gap() if atoms[k + 1][0] not in ("num",) or not atoms[k + 1][1] else " ") for k, (a, o) in enumerate(zip(atoms, ops))) + wrap(atoms[-1])
    used = sorted({lang.PREC[o] for o in ops})
    return text, [grouped(atoms, ops, {l for k, l in enumerate(used) if m >> k & 1}) for m in range(1 << len(used))], ops


def chains(ctx, rng):
    cells = [chain(rng) for _ in range(rng.choice([1, 4, 12]))]
    excel = rng.random() < .25
    # one to a line, so no cell is followed by another
    src = prog.csv_text(rng, [["=" + t] for t, _, _ in cells], False)
    must_compile(compile_csv(ctx, src, out="out.xlsx" if excel else "out.csv"))
    got = [r[0] for r in prog.csv_rows(read_csv(ctx))] if not excel else None
    sheet = read_xlsx(ctx)["prog"].cells if excel else None
    if got is not None and len(got) != len(cells):
        raise Violation(f"{len(cells)} formulas became {len(got)} rows")
    seen = {"xlsx" if excel else "csv": 1, "chain": len(cells)}
    for k, (t, trees, ops) in enumerate(cells):
        if excel:
            ms = [prog.excel_mismatch(("formula", e), sheet.get(f"A{k + 1}")) for e in trees]
        else:
            ms = [prog.text_mismatch(("formula", e), got[k]) for e in trees]
        if all(ms):
            raise Violation(f"the formula {t!r}, in row {k + 1}: {ms[0]}")
        if len({lang.PREC[o] for o in ops}) > 1:
            seen["chain of several levels"] = seen.get("chain of several levels", 0) + 1
        if len({o for o in ops if lang.PREC[o] == 11}) > 1:
            seen["chain of comparisons"] = seen.get("chain of comparisons", 0) + 1
    return Case(src, True, seen, {"source": src[:400]})


def case(ctx, rng, i):
    if rng.random() < .2:
        return chains(ctx, rng)
    rows = []
    for _ in range(rng.choice([1, 2, 4])):
        cells = []
        for _ in range(rng.choice([1, 2, 4])):
            r = rng.random()
            cells.append(Cell(("text", prog.simple_word(rng)) if r < 0.1 else None if r < 0.15 else
                              ("formula", prog.gen_expr(rng, rng.choice([0, 1, 2, 3, 4, 6]), Names()))))
        rows.append(Row(cells))
    p = Program(rows)
    code = rng.random() < 0.2
    src = prog.source(rng, p, code=code)
    excel = rng.random() < 0.25
    must_compile(compile_csv(ctx, src, out="out.xlsx" if excel else "out.csv"))
    (judge_excel if excel else judge_csv)(ctx, p)
    seen = {"xlsx" if excel else "csv": 1}
    for row in rows:
        for c in row.cells:
            if c.content and c.content[0] == "formula":
                features(c.content[1], seen)
                seen["formulas compared"] = seen.get("formulas compared", 0) + 1
    return Case(src, "operator" in seen or "call" in seen, seen, {"source": src[:400]})


def one(src, e):
    def f(ctx):
        must_compile(compile_csv(ctx, src))
        m = prog.compare_csv([[(("formula", e), None)]], read_csv(ctx))
        if m:
            raise Violation(f"{src!r}: {m}")
    return f


def hash_in_formula(ctx):
    r = compile_csv(ctx, "=A1#B1\n")
    if r.get("ok"):
        raise Violation(f"'=A1#B1' compiles to {read_csv(ctx)!r}")


FIXED = {"subtraction-chain": one("=1 - 2 - 3\n", ("bin", "-", ("bin", "-", prog.num("1"), prog.num("2")), prog.num("3"))),
         "quote-in-string": one('"=""say """"hi"""""""\n', ("str", 'say "hi"')),
         "hash-in-formula": hash_in_formula}
