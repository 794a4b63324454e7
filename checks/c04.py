"""Functions and variables are expanded completely and hygienically"""
import defs, lang, prog
from common import *
from prog import Cell, Names, Program, Row

ID = "C04"
CASES = {"quick": 5000, "thorough": 120000}
TIME = {"quick": 30, "thorough": 900}
RULE = ("A case is a program of up to 7 variables and 7 functions (names that are prefixes of each other, parameters named like variables, functions and the "
        "parameters of other functions, one name for a variable and a function, chains of up to 60 definitions) in any order and spelling, and a sheet of formulas "
        "using them; every output formula is parsed and compared with the tree which a reference interpreter computes. One case in eight has a call with a wrong "
        "number of arguments or definitions in a circle, and has to be an error. Non-trivial: at least one formula uses a definition.")
ASSUMPTIONS = ["definitions which refer directly to themselves are not generated (they are expanded once)"]
MUST_SEE = ["csv", "xlsx", "wrong arity rejected", "circle rejected", "parameter shadows a variable", "nested call", "chain", "undefined name kept", "permuted arguments"]


def wrap(rng, e):
    """Somewhere within a bigger expression"""
    for _ in range(rng.choice([0, 0, 1, 2])):
        r = rng.random()
        if r < .4:
            e = ("bin", rng.choice(["+", "*", "&", ">="]), prog.gen_num(rng, False), e) if rng.random() < .5 else ("bin", rng.choice(["+", "*", "&", "="]), e, prog.gen_num(rng, False))
        else:
            a = [prog.gen_num(rng) for _ in range(rng.randint(0, 2))]
            a.insert(rng.randint(0, len(a)), e)
            e = ("call", rng.choice(prog.BUILTINS), tuple(a))
    return e


def chain(rng):
    """A tower of definitions"""
    n = rng.choice([5, 12, 30, 60])
    functions, variables = {}, {}
    prev = None
    for k in range(n):
        name = f"t{k}_"
        if prev is None:
            e = ("num", "", "1", False)
        elif prev[0] == "v":
            e = ("bin", "+", ("ref", prev[1]), prog.num(str(k)))
        else:
            e = ("call", prev[1], (prog.num(str(k)),))
        if rng.random() < 0.5:
            variables[name] = e
            prev = ("v", name)
        else:
            functions[name] = (["p"], ("bin", "*", e, ("ref", "p")))
            prev = ("f", name)
    use = ("ref", prev[1]) if prev[0] == "v" else ("call", prev[1], (prog.num("9"),))
    return functions, variables, use


def circle(rng, functions, variables):
    """Adds definitions which refer to each other in a circle; an expression that uses it"""
    n = rng.randint(2, 5)
    names = [f"{rng.choice(['ring', 'loop', 'x'])}_{k}_" for k in range(n)]
    kinds = [rng.choice("vf") for _ in names]
    for k, name in enumerate(names):
        nn, nk = names[(k + 1) % n], kinds[(k + 1) % n]
        e = wrap(rng, ("ref", nn) if nk == "v" else ("call", nn, (prog.gen_num(rng),)))
        if kinds[k] == "v":
            variables[name] = e
        else:
            functions[name] = (["p"], e)
    k = rng.randrange(n)
    return ("ref", names[k]) if kinds[k] == "v" else ("call", names[k], (prog.gen_num(rng),))


def case(ctx, rng, i):
    seen = {}
    for _ in range(20):
        functions, variables = defs.gen_defs(rng, rng.choice([0, 1, 2, 4, 7]), rng.choice([0, 1, 2, 4, 7]))
        use = None
        if rng.random() < 0.06:
            f2, v2, use = chain(rng)
            functions.update(f2)
            variables.update(v2)
        if not functions and not variables:
            continue
        calls = [(n, len(f[0])) for n, f in functions.items() if not n.endswith("_") or n in prog.NAMES]
        names = Names([v for v in variables if v in prog.NAMES] * 2, calls)
        rows = []
        for _ in range(rng.choice([1, 2, 3])):
            cells = []
            for _ in range(rng.choice([1, 2, 3])):
                r = rng.random()
                if r < 0.1:
                    cells.append(Cell(("text", prog.simple_word(rng))))
                elif use is not None and r < 0.4:
                    cells.append(Cell(("formula", wrap(rng, use))))
                else:
                    cells.append(Cell(("formula", prog.gen_expr(rng, rng.choice([0, 1, 2, 3]), names, 0.7))))
            rows.append(Row(cells))
        if use is not None:
            rows.append(Row([Cell(("formula", use))]))
            seen["chain"] = 1
        p = Program(rows, functions, variables)
        if not defs.acyclic(functions, variables):
            continue
        try:
            p.expected()
            break
        except lang.TooBig:
            continue
    else:
        return Case(i, False)

    bad = None
    r = rng.random()
    if r < 0.06:
        # a call with a wrong number of arguments, here or within a definition that is used
        if not functions:
            functions["only_"] = (["p", "q"], ("ref", "p"))
        n = rng.choice(list(functions))
        k = len(functions[n][0])
        w = rng.choice([j for j in (0, 1, 2, 3, k - 1, k + 1, k + 2) if j >= 0 and j != k])
        e = wrap(rng, ("call", n, tuple(prog.gen_num(rng) for _ in range(w))))
        if rng.random() < 0.3:
            variables["via_"] = e
            e = wrap(rng, ("ref", "via_"))
        elif rng.random() < 0.3:
            functions["via_"] = (["p"], e)
            e = wrap(rng, ("call", "via_", (prog.gen_num(rng),)))
        bad = "wrong arity rejected"
    elif r < 0.12:
        e = circle(rng, functions, variables)
        bad = "circle rejected"
    if bad:
        row = rng.choice(rows)
        row.cells.insert(rng.randint(0, len(row.cells)), Cell(("formula", e)))

    src = prog.source(rng, p)
    excel = rng.random() < 0.2
    run = compile_csv(ctx, src, out="out.xlsx" if excel else "out.csv")
    if bad:
        must_fail(run, f"a program with {bad[:-9]}")
        return Case(src, True, {bad: 1}, {"source": src[:400], "error": run["error"][:200]})
    must_compile(run)
    (judge_excel if excel else judge_csv)(ctx, p)

    seen["xlsx" if excel else "csv"] = 1
    used = 0
    for row in rows:
        for c in row.cells:
            if c.content and c.content[0] == "formula":
                e = c.content[1]
                used += any(x in functions for x in lang.calls(e)) or any(x in variables for x in lang.refs(e))
                seen["formulas compared"] = seen.get("formulas compared", 0) + 1
                if any(x in prog.FREE for x in lang.refs(e)):
                    seen["undefined name kept"] = 1
    for n, (ps, e) in functions.items():
        if any(x in variables and x in lang.refs(e) for x in ps):
            seen["parameter shadows a variable"] = 1
        if any(x in functions for x in lang.calls(e)):
            seen["nested call"] = 1
        if permutes(e, functions, set(ps)):
            seen["permuted arguments"] = 1
    seen["definitions"] = len(functions) + len(variables)
    return Case(src, used > 0, seen, {"source": src[:500]})


def permutes(e, functions, ps):
    """Does it pass one of its parameters as an argument for a parameter of another name, both being its own?"""
    if e[0] == "call":
        f = functions.get(e[1])
        if f and any(p != a[1] and a[1] in ps and p in ps for p, a in zip(f[0], e[2]) if a[0] == "ref"):
            return True
        return any(permutes(a, functions, ps) for a in e[2])
    if e[0] == "bin":
        return permutes(e[2], functions, ps) or permutes(e[3], functions, ps)
    return False
