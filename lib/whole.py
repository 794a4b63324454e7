"""Generates whole programs: definitions, a module, bound cells, fills, options and command line values together."""
import defs, lang, options, prog, sheets, validations
from options import Style
from prog import Cell, Names, Program, Row


class Whole:
    def __init__(self, program, files, args):
        self.program, self.files, self.args = program, files, args


def generate(rng, max_rows=4, max_cols=4, module=0.3, kv=0.2, opts=0.25, notes=False, inf=0.0, fills=0.35, depth=2, fancy=None, texts=None, dvs=0.0, min_cols=1):
    """A program with a known meaning, its files, and what the command line needs"""
    kinds = options.STYLES + (["note"] if notes else [])
    for _ in range(30):
        pool = defs.pick_names(rng, rng.randint(0, 5))
        rows = sheets.with_vars(rng, sheets.shape(rng, max_rows, max_cols, fills=fills, inf=inf, big=0.03, min_cols=min_cols), list(pool), 0.25, 0.15)
        refs, calls, uses, files, imported = sheets.bound(rows), [], [], {}, None
        if rng.random() < module:
            mf, mv = {"mod_f": (["p", "q"][:rng.choice([1, 2])], ("bin", "+", ("ref", "p"), prog.gen_num(rng, False)))}, {"mod_v": prog.gen_num(rng), "mod_w": ("bin", "*", ("ref", "mod_v"), prog.gen_num(rng, False))}
            imported = lang.Scope({"mod_f": mf["mod_f"]}, {"mod_v": mv["mod_v"], "mod_w": lang.Scope({}, {"mod_v": mv["mod_v"]}).expand(mv["mod_w"], (0, 0))})
            files["m.csvpp"] = prog.source(rng, Program([], mf, mv), code=True) + "\n"
            uses, refs, calls = ["m"], refs + ["mod_v", "mod_w"], [("mod_f", len(mf["mod_f"][0]))]
        kvs, args = {}, []
        if rng.random() < kv:
            kvs = {f"key{k}_": prog.gen_expr(rng, 1, Names()) for k in range(rng.choice([1, 2]))}
            sp = lang.Speller(rng)
            for k, e in kvs.items():
                args += [rng.choice(["-k", "--key-values"]), f"{k}={sp.expr(e)}"]
            refs = refs + list(kvs)
        functions, variables = defs.gen_defs(rng, rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1, 2]), 1, refs=refs, calls=calls, avoid=set(pool) | set(refs) | {"mod_f", "p", "q"})
        if not defs.acyclic(functions, variables):
            continue
        sheets.put_contents(rng, rows, Names(refs * 2 + list(variables), calls + [(n, len(f[0])) for n, f in functions.items()]), depth)
        for r in rows:
            st = Style()
            if rng.random() < opts * .6:
                o, r.opts = options.gen(rng, rng.choice([1, 2]), kinds)
                st.apply(o)
            for c in r.cells:
                c.style = st.copy()
                if texts is not None and c.content and c.content[0] == "text":
                    c.content = ("text", texts(rng))
                if rng.random() < opts:
                    o, c.opts = options.gen(rng, rng.choice([1, 2]), kinds)
                    c.style.apply(o)
                if dvs and rng.random() < dvs:
                    c.style.dv, t = validations.one(rng)
                    c.opts = c.opts + [t]
        p = Program(rows, functions, variables, uses=uses, kv=kvs, imported=imported)
        try:
            grid = p.expected()
        except lang.TooBig:
            continue
        if not grid:
            continue
        files["prog.csvpp"] = prog.source(rng, p, fancy=rng.random() < .6 if fancy is None else fancy)
        w = Whole(p, files, args)
        w.grid = grid
        return w
    p = Program([Row([Cell(("text", "x"), style=Style())])])
    w = Whole(p, {"prog.csvpp": "x\n"}, [])
    w.grid = p.expected()
    return w
