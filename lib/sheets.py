"""Generates sheets with fills and bound variables."""
import prog
from prog import Cell, Names, Row, gen_expr


def shape(rng, max_rows=5, max_cols=4, fills=0.4, inf=0.15, big=0.1, zero=0.08, min_cols=1):
    """Rows without contents: [(fill, width)]"""
    out, have_inf = [], False
    for _ in range(rng.randint(1, max_rows)):
        fill = None
        if rng.random() < fills:
            r = rng.random()
            if r < inf and not have_inf:
                fill, have_inf = "inf", True
            elif r < inf + zero:
                fill = 0
            elif r < inf + zero + big:
                fill = rng.choice([20, 99, 100, 130])
            else:
                fill = rng.choice([1, 1, 2, 2, 3, 4, 5, 10])
        out.append((fill, rng.randint(min_cols, max_cols)))
    return out


def with_vars(rng, shp, names, p_cell=0.35, p_row=0.25):
    """Empty rows of that shape, some bound to variables from `names` (used up)"""
    rows = []
    for fill, w in shp:
        r = Row([Cell() for _ in range(w)], fill=fill)
        if names and rng.random() < p_row:
            r.var = names.pop()
        for c in r.cells:
            if names and rng.random() < p_cell:
                c.var = names.pop()
        rows.append(r)
    return rows


def bound(rows):
    """Variables bound by rows that exist in the output"""
    out = []
    for r in rows:
        if r.fill == 0:
            continue
        out += ([r.var] if r.var else []) + [c.var for c in r.cells if c.var]
    return out


def put_contents(rng, rows, names, depth=2, p_formula=0.6, p_name=0.75):
    for r in rows:
        for c in r.cells:
            x = rng.random()
            if x < p_formula:
                c.content = ("formula", gen_expr(rng, rng.choice([0, 0, 1, depth]), names, p_name))
            elif x < p_formula + 0.2:
                c.content = ("text", prog.simple_word(rng))
