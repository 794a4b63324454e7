"""Modules export their definitions to those who use them and to nobody else"""
import re

import defs, lang, prog, xlsx
from common import *
from prog import Cell, Names, Program, Row

ID = "C10"
CASES = {"quick": 5000, "thorough": 150000}
TIME = {"quick": 34, "thorough": 900}
RULE = ("A case is a main program and 1 to 8 modules which use each other in any acyclic way (chains, trees, diamonds, the same module twice, use statements anywhere, names with dots) and at times in "
        "circles, with private, colliding and shadowed names, sheets of their own that bind variables, and references to what they must not see; every formula of the output is compared with "
        "what a reference linker computes. One case in eight has a missing or broken module, or a wrong call in a module, and has to be an error which names the module. Non-trivial: at "
        "least one formula uses something that is imported.")
ASSUMPTIONS = ["modules of a circle only use definitions of each other that need nothing else (known finding)",
               "names which a module does not see are not defined by those that use it, where they would be found at the place of the call",
               "no module uses two modules that define the same name, unless it defines that name itself or the name is not used"]
MUST_SEE = ["diamond", "transitive", "own definition wins", "private name kept", "used twice", "circle", "missing module named", "broken module named", "sheet of a module ignored",
            "in a directory", "hidden definition behind an import", "wrong call in a module", "no code section", "two levels of calls", "a dot in its name"]
MODS = ["m", "mod", "mod1", "mod_2", "lib", "lib_a", "use_me", "used", "fnlib", "taxes", "Taxes", "total", "foo", "food", "Foo", "util_ity", "truelib", "x", "größen", "日本", "_m", "a", "ab", "m.v2", "lib.a.b", "taxes.2024"]


class Mod:
    def __init__(self, name):
        self.name, self.uses, self.functions, self.variables = name, [], {}, {}
        self.rows = []
        self.back = []          # uses which close a circle


def visible(mods, m):
    """What the module sees: lang.Scope of closed definitions, and names with several meanings"""
    f, v, amb = {}, {}, set()
    for u in dict.fromkeys(m.uses + m.back):
        ef, ev = mods[u].closed
        for n, d in ef.items():
            if n not in m.functions and n in f and f[n] != d:
                amb.add(("f", n))
            f.setdefault(n, d)
        for n, d in ev.items():
            if n not in m.variables and n in v and v[n] != d:
                amb.add(("v", n))
            v.setdefault(n, d)
    return f, v, amb


def close(mods, m):
    """Definitions of the module with everything it sees put in"""
    f, v, amb = visible(mods, m)
    f.update(m.functions)
    v.update(m.variables)
    sc = lang.Scope(f, v)
    m.scope, m.ambiguous = sc, amb
    ev = {n: sc.expand(e) for n, e in m.variables.items()}
    ef = {}
    for n, (ps, e) in m.functions.items():
        sc.left = 4000
        ef[n] = (ps, sc._x(e, {p: ("ref", p) for p in ps}, None))
    m.closed = (ef, ev)


def free(m):
    """Names that the exports leave unresolved"""
    out = set()
    ef, ev = m.closed
    for e in ev.values():
        out |= {("v", n) for n in lang.refs(e)} | {("f", n) for n in lang.calls(e)}
    for ps, e in ef.values():
        out |= {("v", n) for n in lang.refs(e) if n not in ps} | {("f", n) for n in lang.calls(e)}
    return out


def mentions(e):
    return {("v", n) for n in lang.refs(e)} | {("f", n) for n in lang.calls(e)}


def generate(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 8]) if rng.random() > .04 else rng.choice([8, 10, 12])
    names = rng.sample(MODS, n)
    order, mods = [], {}
    shared = rng.sample(prog.NAMES, 6)
    for k, name in enumerate(names):
        m = Mod(name)
        if order:
            r = rng.random()
            m.uses = rng.sample([o.name for o in order], rng.choice([0, 1, 1, 2, 3]) % (len(order) + 1)) if r < 0.7 else [order[-1].name]
        f, v, _ = visible(mods, m)
        hidden = [x for o in order for x in o.variables if x not in v]
        hcalls = [(x, len(d[0])) for o in order for x, d in o.functions.items() if x not in f]
        p = 0.25
        refs = list(v) * 3 + (hidden if rng.random() < p else [])
        calls = [(x, len(d[0])) for x, d in f.items()] * 3 + (hcalls if rng.random() < p else [])
        calls = [c for c in calls if c[0] not in defs.KEYWORDS]
        avoid = set(prog.NAMES) - set(shared) if rng.random() < 0.4 else ()
        m.functions, m.variables = defs.gen_defs(rng, rng.choice([0, 1, 2, 3]), rng.choice([0, 1, 2, 3]), 2, refs=refs, calls=calls, avoid=avoid)
        if not defs.acyclic(m.functions, m.variables):
            return None
        close(mods, m)
        mods[name] = m
        order.append(m)
    # circles: what the modules on it need of each other must need nothing else
    circle = False
    if n >= 2 and rng.random() < 0.25:
        lo, hi = sorted(rng.sample(range(n), 2))
        a, b = order[lo], order[hi]
        reach = closure(mods, b)
        if a.name in reach:
            on = {x for x in reach if a.name in closure(mods, mods[x])} | {a.name, b.name}
            fine = True
            for x in on:
                m = mods[x]
                own = m.functions.keys() | m.variables.keys()
                for y in on:
                    if y == x:
                        continue
                    used = set()
                    for e in list(m.variables.values()) + [d[1] for d in m.functions.values()]:
                        used |= mentions(e)
                    o = mods[y]
                    for k, nme in used:
                        d = o.variables.get(nme) if k == "v" else (o.functions.get(nme) or (None, None))[1]
                        if d is not None and nme not in own:
                            inner = {q for q in mentions(d) if q[1] not in (o.functions[nme][0] if k == "f" else ())}
                            # (addresses are fine)
                            if any(q[1] in prog.NAMES for q in inner):
                                fine = False
                    # names of the module which uses must not be others' as well
                    if (o.functions.keys() | o.variables.keys()) & own:
                        fine = False
            if fine and not any(set(mods[x].functions) & set(mods[y].functions) or set(mods[x].variables) & set(mods[y].variables) for x in on for y in on if x != y):
                a.back = [b.name]
                circle = True
                for x in on:
                    m = mods[x]
                    was = m.closed
                    close(mods, m)
                    if m.closed != was:
                        return None
    main = Mod("prog")
    main.uses = rng.sample(names, min(n, rng.choice([1, 1, 2, 3]) if rng.random() > (.05 if n < 8 else .4) else n))
    if names[-1] not in main.uses and rng.random() < 0.7:
        main.uses.append(names[-1])
    f, v, _ = visible(mods, main)
    calls = [(x, len(d[0])) for x, d in f.items() if x not in defs.KEYWORDS]
    avoid = set(prog.NAMES) - set(shared) if rng.random() < 0.5 else ()
    main.functions, main.variables = defs.gen_defs(rng, rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1, 2]), 2, refs=list(v), calls=calls, avoid=avoid)
    if not defs.acyclic(main.functions, main.variables):
        return None
    if n and rng.random() < 0.12:
        mods[rng.choice(names)].back.append("prog")
        main_circle = True
    else:
        main_circle = False
    mods["prog"] = main
    for m in order:
        if "prog" in m.back:
            m.back.remove("prog")
            close(mods, m)
            used = {q[1] for e in list(m.variables.values()) + [d[1] for d in m.functions.values()] for q in mentions(e)}
            taken = set(main.functions) | set(main.variables)
            if used & taken or taken & (set(m.functions) | set(m.variables)) or any(taken & (set(mods[x].functions) | set(mods[x].variables)) for x in closure(mods, m)):
                main_circle = False
            # its other imports are on the circle now as well
            elif any(q[1] in prog.NAMES for d in m.functions.values() for q in mentions(d[1]) if q[1] not in d[0]) or any(q[1] in prog.NAMES for e in m.variables.values() for q in mentions(e)):
                main_circle = False
            else:
                m.back.append("prog")
    close(mods, main)
    if (circle or main_circle) and not plain_circles(mods):
        return None
    return mods, order, main, circle, main_circle


def plain_circles(mods):
    """Known finding circular-imports: modules that import each other see each other's definitions
    before those are complete.  Programs whose circles give every name one meaning, and whose
    definitions on a circle use nothing but what needs nothing else, do not depend on that."""
    reach = {x: closure(mods, mods[x]) for x in mods}
    for x in mods:
        if x not in reach[x]:
            continue
        on = [y for y in mods if y in reach[x] and x in reach[y]]
        names = [n for y in on for n in list(mods[y].functions) + list(mods[y].variables)]
        if len(set(names)) != len(names):
            return False
        around = {n for y in on for z in reach[y] if z not in on for n in list(mods[z].functions) + list(mods[z].variables)}
        if around & set(names):
            return False
        for y in on:
            m = mods[y]
            for ps, e in [((), e) for e in m.variables.values()] + list(m.functions.values()):
                if any(q[1] in prog.NAMES and q[1] not in ps for q in mentions(e)):
                    return False
    return True


def closure(mods, m):
    out, todo = set(), list(m.uses + m.back)
    while todo:
        x = todo.pop()
        if x not in out and x in mods:
            out.add(x)
            todo += mods[x].uses + mods[x].back
    return out


def sound(mods, order, main, formulas):
    """Is every name of one meaning only, wherever it is used?"""
    for m in order + [main]:
        used = set()
        for e in list(m.variables.values()) + [d[1] for d in m.functions.values()] + (formulas if m is main else []):
            used |= mentions(e)
        if used & m.ambiguous:
            return False
    for m in order:
        fr = free(m)
        for d in order + [main]:
            if m.name in closure(mods, d) or d is m:
                if any(n in (d.scope.variables if k == "v" else d.scope.functions) for k, n in fr):
                    return False
    # a name that is imported by a module while it defines the other kind of it is fine, but ambiguous
    # ones must not be seen through it
    return True


def text(rng, m, fancy=True):
    """Source of a module"""
    uses = m.uses + m.back
    if uses and rng.random() < 0.1:
        uses = uses + [rng.choice(uses)]
    p = Program(m.rows, m.functions, m.variables, uses=uses)
    return prog.source(rng, p, fancy, code=True)


def program(rng):
    """A main program with modules: (mods, order, main, circles, Program, ...) or None"""
    for _ in range(60):
        try:
            g = generate(rng)
        except (lang.TooBig, lang.Arity, RecursionError):
            continue
        if g is None:
            continue
        mods, order, main, circle, main_circle = g
        vis = list(main.scope.variables)
        calls = [(n, len(d[0])) for n, d in main.scope.functions.items() if n not in defs.KEYWORDS]
        hidden = [x for o in order for x in o.variables if x not in main.scope.variables]
        hcalls = [(x, len(d[0])) for o in order for x, d in o.functions.items() if x not in main.scope.functions]
        rows = []
        cell_vars = []
        for _ in range(rng.choice([1, 2, 3])):
            cells = []
            for _ in range(rng.choice([1, 2, 3, 4])):
                r = rng.random()
                if r < 0.2 and (hidden or hcalls):
                    e = prog.gen_expr(rng, rng.choice([0, 1]), Names(hidden, hcalls), 0.9)
                else:
                    e = prog.gen_expr(rng, rng.choice([0, 1, 1, 2]), Names(vis, calls), 0.8)
                c = Cell(("formula", e))
                if rng.random() < 0.1:
                    v = rng.choice(prog.NAMES)
                    if v not in defs.KEYWORDS and v not in cell_vars and all(("v", v) not in free(m) for m in order):
                        c.var = v
                        cell_vars.append(v)
                cells.append(c)
            rows.append(Row(cells))
        formulas = [c.content[1] for r in rows for c in r.cells]
        for m in order:
            m.rows = []
            if rng.random() < 0.4:
                # what a module's sheet binds is nobody else's
                m.rows = [Row([Cell(("text", prog.simple_word(rng)), var=rng.choice([x for x in prog.NAMES if x not in defs.KEYWORDS])),
                               Cell(("formula", prog.gen_expr(rng, 1, Names())))])]
        main.rows = rows
        if not sound(mods, order, main, formulas):
            continue
        p = Program(rows, main.functions, main.variables, imported=lang.Scope(*visible(mods, main)[:2]))
        try:
            p.expected()
        except (lang.TooBig, lang.Arity, RecursionError):
            continue
        return mods, order, main, circle, main_circle, p, rows, cell_vars, hidden, hcalls
    return None


def case(ctx, rng, i):
    seen = {}
    g = program(rng)
    if g is None:
        return Case(i, False)
    mods, order, main, circle, main_circle, p, rows, cell_vars, hidden, hcalls = g
    bad = None
    r = rng.random()
    reach = sorted(closure(mods, main) - {"prog"})
    files = {}
    if r < 0.12:
        victim = mods[rng.choice(reach)]
        if r < 0.05:
            bad = "missing module named"
        elif r < 0.09:
            bad = "broken module named"
        else:
            fs = {n: len(d[0]) for n, d in victim.functions.items()}
            if not fs:
                victim.functions["only_"] = (["p"], ("ref", "p"))
                fs = {"only_": 1}
            n = rng.choice(list(fs))
            wrong = rng.choice([k for k in (0, 1, 2, 3, 4) if k != fs[n]])
            victim.variables["bad_"] = ("call", n, tuple(prog.gen_num(rng) for _ in range(wrong)))
            bad = "wrong call in a module"
    sub = rng.choice(["", "", "", "sub/", "a/b/", "Ünder score/"])
    for m in order + [main]:
        files[sub + m.name + ".csvpp"] = text(rng, m)
    if rng.random() < 0.05:
        blank = [m for m in order if not (m.functions or m.variables or m.uses or m.back)]
        if blank:
            files[sub + blank[0].name + ".csvpp"] = rng.choice(["", "---\n", "a,b,c\n", "\n"])
            if blank[0].name in reach:
                seen["no code section"] = 1
    if bad == "missing module named":
        del files[sub + victim.name + ".csvpp"]
    elif bad == "broken module named":
        src = files[sub + victim.name + ".csvpp"]
        if not re.search(r"(?m)^[ \t]*---[ \t]*$", src):
            src = "---\n" + src           # it was only cells
        files[sub + victim.name + ".csvpp"] = rng.choice(["x := \n", "fn (\n", "x := )\n", ":= 1\n", "use\n"]) + ("---\n" + rng.choice(["", "a,b\n"]) if rng.random() < .5 else src)
        if rng.random() < 0.15:
            files[sub + victim.name + ".csvpp"] = b"x := 1\n---\n\xff\xfe,\xc3\x28\n"
    ctx.fresh(files)
    excel = rng.random() < 0.1
    arg = sub + "prog.csvpp"
    if rng.random() < 0.1:
        arg = ctx.dir + "/" + arg
    elif rng.random() < 0.1:
        arg = "./" + arg
    cache = [] if rng.random() < 0.3 else ["--no-cache"]
    run = ctx.run("-o", "out.xlsx" if excel else "out.csv", *cache, arg)
    if bad:
        must_fail(run, f"a program with: {bad} ({victim.name})")
        if bad != "wrong call in a module" and not re.search(r"(?<!\w)" + re.escape(victim.name) + r"(?!\w)", run["error"]):
            raise Violation(f"the error does not name the module {victim.name!r}: {run['error'][:500]!r}")
        return Case(repr(files), True, {bad: 1}, {"files": {k: repr(v)[:200] for k, v in files.items()}, "error": run["error"][:200]})
    must_compile(run)
    (judge_excel if excel else judge_csv)(ctx, p)

    own = set(main.functions) | set(main.variables)
    imported = 0
    for c in [c for r in rows for c in r.cells]:
        ms = mentions(c.content[1])
        f, v, _ = visible(mods, main)
        k = [q for q in ms if (q[1] in v if q[0] == "v" else q[1] in f)]
        imported += bool(k)
        if any(q[1] in hidden and q[0] == "v" and q[1] not in cell_vars or q[1] in dict(hcalls) and q[0] == "f" for q in ms):
            seen["private name kept"] = 1
        if any(q[1] in (main.variables if q[0] == "v" else main.functions) for q in k):
            seen["own definition wins"] = 1
        seen["formulas compared"] = seen.get("formulas compared", 0) + 1
    direct = set(main.uses)
    for m in order:
        if m.name in reach and m.name not in direct:
            seen["transitive"] = 1
        if m.name in reach and sum(m.name in mods[x].uses for x in reach + ["prog"]) >= 2:
            seen["diamond"] = 1
        if m.rows and m.name in reach:
            seen["sheet of a module ignored"] = 1
        if any(c in m.scope.functions for d in m.functions.values() for c in lang.calls(d[1])) and m.name in reach:
            seen["two levels of calls"] = 1
        # defines one kind of a name and imports the other
        if m.name in direct:
            f, v, _ = visible(mods, m)
            if set(m.functions) & (set(v) - set(m.variables)) or set(m.variables) & (set(f) - set(m.functions)):
                seen["hidden definition behind an import"] = 1
    if any(len(re.findall(r"\buse\s+" + re.escape(u) + r"(?!\w)", s)) > 1 for s in files.values() if isinstance(s, str) for u in mods):
        seen["used twice"] = 1
    if circle or main_circle:
        seen["circle"] = 1
    if sub:
        seen["in a directory"] = 1
    if any("." in x for x in reach):
        seen["a dot in its name"] = 1
    seen["modules loaded"] = len(reach)
    return Case(repr(files), imported > 0, seen, {"files": {k: repr(v)[:200] for k, v in files.items()}})


def circular_imports(ctx):
    ctx.fresh({"prog.csvpp": "use b\nuse c\n---\n=g(1),=f(2),=g2(3),=f2(4)\n", "b.csvpp": "use c\nuse e\nfn g(x) m(x) + 1\nfn g2(x) f(x) * 5\n---\n",
               "e.csvpp": "fn m(x) x * 100\n---\n", "c.csvpp": "use b\nuse d\nfn f(x) k(x) * 9\nfn f2(x) g(x) * 6\n---\n", "d.csvpp": "fn k(x) x * 3\n---\n"})
    must_compile(ctx.run("-o", "out.csv", "--no-cache", "prog.csvpp"))
    got = prog.csv_rows(read_csv(ctx))[0]
    for g, w in zip(got, ["1*100+1", "2*3*9", "((3*3)*9)*5", "(4*100+1)*6"]):
        if not g.startswith("=") or not prog.same_formula(lang.parse(w), g[1:]):
            raise Violation(f"expected ={w}, got {g}")


FIXED = {"circular-imports": circular_imports}
