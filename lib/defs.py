"""Generates definitions (variables and functions) whose dependencies form a DAG."""
import lang, prog
from prog import Names, gen_expr

KEYWORDS = {"fn", "use", "true", "false"}


def pick_names(rng, n, avoid=()):
    """Distinct names, often ones that are prefixes of each other"""
    pool = [x for x in prog.NAMES if x not in avoid and x not in KEYWORDS]
    if rng.random() < 0.5 and n < len(pool):
        at = rng.randrange(len(pool))
        near = (pool + pool)[at:at + n + 3]
        near = list(dict.fromkeys(near))
        if len(near) >= n:
            return rng.sample(near, n)
    return rng.sample(pool, min(n, len(pool)))


def gen_params(rng, others):
    k = rng.choice([0, 1, 1, 2, 2, 3, 5]) if rng.random() > .05 else rng.choice([8, 9, 10, 12, 17])
    out = []
    while len(out) < k:
        p = rng.choice(others) if others and rng.random() < 0.5 else rng.choice(prog.NAMES)
        if p not in out and p not in KEYWORDS:
            out.append(p)
    return out


def gen_defs(rng, nf, nv, depth=3, refs=(), calls=(), avoid=(), undefined=True):
    """(functions, variables); `refs`/`calls`: names from elsewhere that bodies may use"""
    names = pick_names(rng, nf + nv, avoid)
    vn, fn = names[:nv], names[nv:]
    if vn and fn and rng.random() < 0.15:
        fn[0] = vn[0]             # a variable and a function of the same name
    todo = [("v", n) for n in vn] + [("f", n) for n in dict.fromkeys(fn)]
    rng.shuffle(todo)
    functions, variables = {}, {}
    refs, calls = list(refs), list(calls)
    for kind, n in todo:
        r, c = list(refs), [x for x in calls if x[0] != n or kind == "v"]
        # a name of which the meaning changes later in the list would be a different program
        if kind == "v":
            e = gen_expr(rng, rng.choice([0, 1, 2, depth]), Names([x for x in r if x != n], c, undefined), 0.6)
            if n in lang.refs(e):
                e = prog.gen_num(rng)
            variables[n] = e
        else:
            ps = gen_params(rng, vn + fn)
            e = gen_expr(rng, rng.choice([0, 1, 2, depth]), Names(r + ps * 3, c, undefined), 0.75)
            functions[n] = (ps, e)
        if kind == "v":
            refs.append(n)
        else:
            calls.append((n, len(functions[n][0])))
    return functions, variables


def depends(functions, variables):
    """name -> names that its definition uses: ("v", n) or ("f", n)"""
    d = {}
    for n, e in variables.items():
        d["v", n] = {("v", r) for r in lang.refs(e) if r in variables} | {("f", c) for c in lang.calls(e) if c in functions}
    for n, (ps, e) in functions.items():
        d["f", n] = {("v", r) for r in lang.refs(e) if r in variables and r not in ps} | {("f", c) for c in lang.calls(e) if c in functions}
    return d


def acyclic(functions, variables):
    d = depends(functions, variables)
    state = {}

    def go(k):
        if state.get(k) == 1:
            return False
        if state.get(k) == 2:
            return True
        state[k] = 1
        ok = all(go(x) for x in d[k])
        state[k] = 2
        return ok
    return all(go(k) for k in d)
