"""Cached object code never changes the result"""
import os, re, shutil, time

import defs, lang, options, prog, validations, xlsx
from common import *
from prog import Cell, Names, Program, Row

ID = "C11"
CASES = {"quick": 900, "thorough": 20000}
TIME = {"quick": 36, "thorough": 900}
RULE = ("A case is a history of 6 to 16 steps over a directory with a main program, at times a second one, and up to 4 modules: edits of any of them (also ones that break it), new and deleted files, compilations with "
        "caching of any of them as the main one, in different spellings of the path, with key/values, to CSV and Excel, compilations without caching, touched, renamed, truncated, corrupt, exchanged and "
        "outdated object files. After every compilation its output, or that it fails, is compared with a compilation from scratch of a copy of the sources without object "
        "code. Non-trivial: at least one compilation reused object code and one followed an edit.")
ASSUMPTIONS = ["a file is not replaced by one with an older time than it had (staleness is a matter of file times)",
               "single flipped bits within object code that stay readable are only required not to end in a crash: there is no checksum",
               "object code is not exchanged for that of a file of the same path"]
MUST_SEE = ["object code reused", "edit of a module which only another one uses", "module reused", "edit of a module behind another", "compiled after an edit", "failed compilation", "recovered", "truncated object", "garbage object", "flipped bit", "object older than source",
            "object of another version", "same time", "exchanged objects", "module compiled as main", "key/values", "not cached", "excel", "second main program", "deleted module", "notes", "validations", "fill in the main program"]


class World:
    """Programs over a fixed order of modules; each may use those before it."""

    def __init__(self, rng):
        self.rng = rng
        self.mods = rng.sample(["base", "lib", "util", "more", "x", "m1", "m2"], rng.choice([0, 1, 2, 2, 3, 4]))
        self.mains = ["prog"] + (["other"] if rng.random() < 0.3 else [])
        self.uses, self.defs = {}, {}
        self.exists = set()
        # everything the main programs use comes by way of the last module
        self.deep = len(self.mods) >= 3 and rng.random() < 0.5

    def visible(self, name):
        """A few of what it sees"""
        v, f = [], []
        for u in self.uses.get(name, []):
            if u in self.defs:
                f += [(n, len(d[0])) for n, d in self.defs[u][0].items()]
                v += list(self.defs[u][1])
        return v, f

    def write(self, name):
        """A new version of a file"""
        rng = self.rng
        before = self.mods[:self.mods.index(name)] if name in self.mods else self.mods
        if name not in self.uses or rng.random() < 0.35:
            self.uses[name] = rng.sample(before, rng.randint(min(1, len(before)), len(before))) if before else []
        if self.deep and name in self.mains + self.mods[-1:]:
            self.uses[name] = self.mods[-1:] if name in self.mains else rng.sample(before, len(before))
        v, f = self.visible(name)
        tag = name if name in self.mods else ""
        functions, variables = {}, {}
        for k in range(rng.choice([1, 1, 2])):
            variables[f"{tag}v{k}_"] = prog.gen_expr(rng, rng.choice([0, 1]), Names(v, f, False), 0.8)
        for k in range(rng.choice([0, 1, 1])):
            functions[f"{tag}f{k}_"] = (["p"], prog.gen_expr(rng, 1, Names(v + ["p", "p"], f, False), 0.8))
        if self.deep and name in self.mods[-1:]:
            for k, u in enumerate(self.uses[name]):
                variables[f"{tag}of{k}_"] = ("call", "SUM", tuple(("ref", x) for x in self.defs[u][1])) if u in self.defs else ("bool", True)
        self.defs[name] = (functions, variables)
        v += list(variables)
        f += [(n, 1) for n in functions]
        if rng.random() < 0.5:
            v.append("key_")
        rows = []
        for _ in range(rng.choice([1, 2])):
            rows.append(Row([Cell(("formula", prog.gen_expr(rng, rng.choice([0, 1]), Names(v, f, False), 0.9)) if rng.random() < .8 else ("text", prog.simple_word(rng)),
                                  var=f"{tag}cell{k}_" if rng.random() < .1 else None) for k in range(rng.choice([1, 2]))],
                            fill=rng.choice([2, 3]) if rng.random() < .15 else None))
        if self.deep and name in self.mains and self.mods[-1] in self.defs:
            rows.append(Row([Cell(("formula", ("ref", x))) for x in self.defs[self.mods[-1]][1]]))
        self.styled = rng.random() < .3
        if self.styled:
            for row in rows:
                if rng.random() < .4:
                    row.opts = options.gen(rng, rng.choice([1, 2]), options.STYLES + ["note"])[1]
                for c in row.cells:
                    if rng.random() < .6:
                        c.opts = options.gen(rng, rng.choice([1, 1, 2, 3]), options.STYLES + ["note", "note", "note"])[1]
                    if rng.random() < .35:
                        c.opts = c.opts + [validations.one(rng)[1]]
        self.filled = any(r.fill for r in rows)
        src = prog.source(rng, Program(rows, functions, variables, uses=self.uses[name]), fancy=rng.random() < .3, code=True)
        if rng.random() < 0.05:
            src = rng.choice(["broken := \n", "fn \n", ")\n", f"use {rng.choice(['nowhere', 'prog_'])}\n", f"wrong_ := {tag}v0_(1)\nfn only_(a) a\nworse_ := only_()\n"]) + src
        self.exists.add(name)
        return src


VERSION = []


def version(ctx):
    if not VERSION:
        r = ctx.cli("--version")
        VERSION.append(r["stdout"].split()[-1].encode() if r["stdout"].split() else b"")
    return VERSION[0]


def snapshot(ctx):
    return {n: (os.stat(os.path.join(ctx.dir, n)).st_mtime_ns, ctx.get(n)) for n in ctx.ls() if not os.path.isdir(os.path.join(ctx.dir, n))}


def clean(ctx, argv, out):
    """The same compilation of the sources alone, in another directory"""
    d = os.path.join(ctx.root, "clean")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n in ctx.ls():
        if n.endswith(".csvpp"):
            shutil.copy(os.path.join(ctx.dir, n), os.path.join(d, n))
    a = [x.replace(ctx.dir, d) for x in argv]
    r = ctx.run(*a, "--no-cache", cwd=d)
    p = os.path.join(d, out)
    data = None
    if os.path.exists(p):
        with open(p, "rb") as f:
            data = f.read()
    extra = [n for n in os.listdir(d) if not n.endswith(".csvpp") and n != out]
    if extra:
        raise Violation(f"a compilation without caching left {extra}")
    return r, data


def gist(error):
    """Lines of an error, however it says that a file cannot be read"""
    return sorted("(unreadable)" if re.match("Error reading source code .*: |Unable to stat source code: ", l) else l for l in error.splitlines())


def book(data):
    b = xlsx.read(data)
    return {n: {k: sorted(v, key=repr) if isinstance(v, list) else v for k, v in s.__dict__.items()} for n, s in b.items()}


def case(ctx, rng, i):
    seen = {}

    def see(*names):
        for n in names:
            seen[n] = seen.get(n, 0) + 1
    w = World(rng)
    files = {n + ".csvpp": w.write(n) for n in w.mods}
    for n in w.mains:
        files[n + ".csvpp"] = w.write(n)
        if w.filled:
            see("fill in the main program")
    ctx.fresh(files)
    todo = w.mods + w.mains
    edited, failed_before = False, False
    steps = rng.randint(6, 16)
    reused = after_edit = False
    log = []
    damaged = set()
    away = {}
    again = None

    def path(n):
        return os.path.join(ctx.dir, n)
    for step in range(steps):
        r = rng.random() if not again or rng.random() < 0.6 else 1
        objects = [n for n in ctx.ls() if n.endswith(".csvpo")]
        if r < 0.27 and step:
            n = rng.choice(todo if not w.deep or rng.random() < 0.3 else w.mods[:-1])
            src = w.write(n)
            ctx.put({n + ".csvpp": src})
            away.pop(n, None)
            log.append(f"edit {n}")
            if rng.random() < 0.15 and n + ".csvpo" in objects:
                t = os.stat(path(n + ".csvpo")).st_mtime_ns
                if t >= os.stat(path(n + ".csvpp")).st_mtime_ns - 10 ** 9:
                    # within the same tick of the clock
                    os.utime(path(n + ".csvpp"), ns=(t, t))
                    # (other object code that it is part of must not be newer than that)
                    for o in objects:
                        if os.stat(path(o)).st_mtime_ns > t:
                            os.utime(path(o), ns=(t, t))
                    see("same time")
            edited = True
            if w.deep and n in w.mods[:-1]:
                see("edit of a module which only another one uses")
            if n in w.mods and any(n in w.uses.get(m, []) and any(m in w.uses.get(k, []) for k in w.mains) for m in w.mods):
                see("edit of a module behind another")
            continue
        if r < 0.31 and step:
            n = rng.choice(todo)
            if os.path.exists(path(n + ".csvpp")):
                if rng.random() < 0.5 or n in away:
                    t = time.time_ns()
                    os.utime(path(n + ".csvpp"), ns=(t, t))
                    log.append(f"touch {n}")
                elif n in w.mods:
                    away[n] = ctx.get(n + ".csvpp")
                    os.remove(path(n + ".csvpp"))
                    log.append(f"delete {n}")
                    see("deleted module")
                    edited = True
            continue
        if r < 0.34 and away:
            n = rng.choice(sorted(away))
            ctx.put({n + ".csvpp": away.pop(n)})
            log.append(f"restore {n}")
            edited = True
            continue
        if r < 0.5 and objects:
            o = rng.choice(objects)
            d = ctx.get(o)
            k = rng.choice(["truncate", "garbage", "flip", "old", "swap", "delete", "empty", "version", "version"])
            log.append(f"{k} {o}")
            if k == "truncate":
                ctx.put({o: d[:rng.randrange(len(d))] if d else b""})
                see("truncated object")
            elif k == "garbage":
                ctx.put({o: rng.choice([b"not an object file", b"\xff" * 100, b"\0" * rng.randint(1, 500), rng.randbytes(rng.randint(1, 300)), b"\x05\0\0\0\0\0\0\x000.0.0" + d[13:],
                                        ctx.get(o[:-1] + "p") or b"", b"\x0b\0\0\0\0\0\0\0not a number" + d[13:]])})
                see("garbage object")
            elif k == "flip" and d:
                b = bytearray(d)
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
                ctx.put({o: bytes(b)})
                damaged.add(o)
                see("flipped bit")
            elif k == "old" and os.path.exists(path(o[:-1] + "p")):
                t = os.stat(path(o[:-1] + "p")).st_mtime_ns - rng.choice([0, 1, 10 ** 6, 10 ** 9, 3600 * 10 ** 9])
                os.utime(path(o), ns=(t, t))
                see("object older than source")
            elif k == "swap" and len(objects) > 1:
                p = rng.choice([x for x in objects if x != o])
                if not damaged & {o, p}:
                    # (as if renamed: each keeps its time)
                    ts = [os.stat(path(n)).st_mtime_ns for n in (o, p)]
                    ctx.put({o: ctx.get(p), p: d})
                    for n, t in zip((p, o), ts):
                        os.utime(path(n), ns=(t, t))
                    see("exchanged objects")
            elif k == "version":
                # as another version of the compiler would have written it, which understood the program in another way
                v = version(ctx)
                if v and v in d and o not in damaged:
                    d = d.replace(v, v[:-1] + (b"1" if v[-1:] != b"1" else b"2"))
                    words = set(re.findall(rb"[a-z]{4,}", ctx.get(o[:-1] + "p") or b"")) - set(re.findall(rb"[a-z]+", (" ".join(w.mods + w.mains) + path(o)).encode()))
                    for word in rng.sample(sorted(words), min(len(words), 6)):
                        d = d.replace(word, word[::-1] if word[::-1] != word else b"q" + word[1:])
                    t = os.stat(path(o)).st_mtime_ns
                    ctx.put({o: d})
                    os.utime(path(o), ns=(t, t))
                    see("object of another version")
            elif k == "delete":
                os.remove(path(o))
                damaged.discard(o)
            elif k == "empty":
                ctx.put({o: b""})
            continue
        # compile
        if not again or rng.random() < 0.3 and r < 1:
            again = rng.choice(w.mains) if rng.random() < 0.8 or not w.mods else rng.choice(w.mods)
        main = again
        if not os.path.exists(path(main + ".csvpp")):
            continue
        excel = rng.random() < (0.5 if w.styled else 0.12)
        out = "out.xlsx" if excel else "out.csv"
        argv = ["-o", out]
        kv = []
        if rng.random() < 0.13:
            kv = ["-k", f"key_={rng.choice(['1', 'A1', '2 + 3'])}"]
            see("key/values")
        if excel and rng.random() < 0.3:
            argv += ["-n", rng.choice(["S", "prog", "two words"])]
        argv.append(rng.choice(["", "", "", "./", ctx.dir + "/"]) + main + ".csvpp")
        argv += kv
        cached = rng.random() < 0.85
        if os.path.exists(path(out)):
            os.remove(path(out))
        before = snapshot(ctx)
        run = ctx.run(*argv, *([] if cached else ["--no-cache"]))
        after = snapshot(ctx)
        log.append(f"compile {' '.join(argv[1:])} {'cached' if cached else 'uncached'}: {run.get('ok')}")
        objs = sorted(o for o in before if o.endswith(".csvpo"))
        if damaged and cached:
            # what such object code says is unknown, but it has to be an orderly end
            if run.get("panic"):
                raise Violation(f"object code with a flipped bit: {failed(run)}")
            for o in sorted(damaged):
                if os.path.exists(path(o)):
                    os.remove(path(o))
            # what was compiled with it is as well
            for o in [o for o in ctx.ls() if o.endswith(".csvpo")]:
                os.remove(path(o))
            damaged.clear()
            continue
        want, data = clean(ctx, argv, out)
        # the copy of a path is as long as the path, but not the same
        if bool(run.get("ok")) != bool(want.get("ok")):
            raise Violation(f"with object code {objs}: {'succeeds' if run.get('ok') else failed(run)}, from scratch: {'succeeds' if want.get('ok') else failed(want)}", log=log)
        if run.get("panic"):
            raise Violation(failed(run), log=log)
        if not run.get("ok"):
            failed_before = True
            see("failed compilation")
            mine, theirs = run["error"].replace(ctx.dir, ""), want["error"].replace(os.path.join(ctx.root, "clean"), "")
            if gist(mine) != gist(theirs):
                raise Violation(f"the error with object code is {mine[:500]!r}, from scratch {theirs[:500]!r}", log=log)
        else:
            got = after.get(out, (0, None))[1]
            if got is None:
                raise Violation(f"no {out} was written", log=log)
            if excel:
                same = book(got) == book(data)
                see("excel")
                if any(s.comments for s in xlsx.read(got).values()):
                    see("notes")
                if any(s.validations for s in xlsx.read(got).values()):
                    see("validations")
            else:
                same = got == data
            if not same:
                raise Violation(f"with object code {objs} the output is {got[:600]!r}, from scratch {data[:600]!r}" if not excel else "the workbook differs from one compiled from scratch", log=log)
            if failed_before:
                see("recovered")
                failed_before = False
        new = {n for n in after if before.get(n) != after[n]} | (set(before) - set(after))
        if cached:
            bad = {n for n in new if n != out and not n.endswith(".csvpo")}
            if bad:
                raise Violation(f"a compilation changed {sorted(bad)}", log=log)
            stray = {n for n in new if n.endswith(".csvpo") and n[:-1] + "p" not in after}
            if stray:
                raise Violation(f"object code without a source was written: {sorted(stray)}", log=log)
            if run.get("ok") and main + ".csvpo" in before and before[main + ".csvpo"] == after.get(main + ".csvpo") and "-k" not in argv:
                see("object code reused")
                reused = True
            if run.get("ok") and any(o in before and before[o] == after.get(o) for o in (m + ".csvpo" for m in w.uses.get(main, []))):
                see("module reused")
        else:
            see("not cached")
            if new - {out}:
                raise Violation(f"a compilation without caching changed {sorted(new - {out})}", log=log)
        see("compilations compared")
        if edited:
            see("compiled after an edit")
            after_edit, edited = True, False
        if main in w.mods:
            see("module compiled as main")
        if main == "other":
            see("second main program")
    return Case(repr(log) + str(i), reused and after_edit, seen, {"history": log}, executions=len(log))
