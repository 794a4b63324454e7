"""Compilation is deterministic and unaffected by parallelism"""
import os, re, threading, time

import lang, prog, whole, xlsx
from checks import c10
from common import *
from prog import Cell, Names, Program, Row

ID = "C18"
CASES = {"quick": 1000, "thorough": 60000}
TIME = {"quick": 50, "thorough": 900}
RULE = ("A case is a program (definitions, up to 8 modules using each other, fills, options, up to 400 rows), or one with several mistakes in different rows, definitions and modules, which is compiled many times: in one process, by the real program with 1, 2, 3 and 8 threads, in fresh "
        "processes (other hash seeds), with modules that arrive late and in any order (fed through named pipes), and by up to 6 compilations at the same time (threads of one process, and processes) that share modules and object code, with caching on and off, "
        "also while others are failing. All outputs have to be the same: bytes (CSV), contents of the workbook, or error message; the first one is compared with what the program means. Non-trivial: several rows or modules.")
ASSUMPTIONS = ["modules and sources are not edited while they are compiled"]
MUST_SEE = ["csv", "xlsx", "error", "several mistakes", "mistakes in rows", "mistakes in modules", "mistakes in definitions", "modules", "threads 1", "threads 8", "fed in order", "at the same time", "processes at the same time", "sharing object code", "different programs sharing modules", "many rows", "circle",
            "object code ready"]


def content(data):
    """What of an output has to be the same"""
    if data is None or data[:2] != b"PK":
        return data
    out = {}
    for n, s in xlsx.read(data).items():
        out[n] = (s.cells, s.styles, s.validations, sorted(s.comments), s.merged, s.cols, s.rows)
    return out


def result(ctx, run, out):
    if run.get("panic"):
        raise Violation(failed(run))
    if not run["ok"]:
        return ("error", (run.get("stderr") if "stderr" in run else run.get("error") or "").strip())
    d = ctx.get(out)
    if d is None:
        raise Violation(f"succeeded but did not write {out}")
    return ("ok", content(d))


def words(r):
    """An error of the program and of the library, to be compared"""
    return r if r[0] == "ok" else ("error", " ".join(r[1].split()))


def describe(a, b):
    if a[0] != b[0] or a[0] == "error" or not isinstance(a[1], dict):
        return f"{str(a[1])[:1200]!r}\n--- and ---\n{str(b[1])[:1200]!r}"
    for n in a[1]:
        for x, y in zip(a[1][n], b[1].get(n, ())):
            if x != y:
                return f"sheet {n!r}: {str(x)[:600]} and {str(y)[:600]}"
    return f"sheets {list(a[1])} and {list(b[1])}"


def feed(ctx, files, order, stop, log):
    """Write the modules, which are named pipes, to whoever opens them: those that come first in `order` as long as there is somebody waiting"""
    def work():
        waiting, quiet = {}, 0
        while len(log) < len(order) and not stop.is_set():
            new = False
            for n in order:
                if n not in waiting and n not in log:
                    try:
                        waiting[n] = os.open(os.path.join(ctx.dir, n), os.O_WRONLY | os.O_NONBLOCK)
                        new = True
                    except OSError:
                        pass            # nobody reads it yet
            quiet = 0 if new else quiet + 1
            if not waiting or quiet < 3:
                time.sleep(.0004)
                continue
            n = min(waiting, key=order.index)
            fd = waiting.pop(n)
            os.set_blocking(fd, True)
            data = files[n].encode() if isinstance(files[n], str) else files[n]
            try:
                while data:
                    data = data[os.write(fd, data):]
            except OSError:
                pass
            os.close(fd)
            log.append(n)
            quiet = 0
        for fd in waiting.values():
            os.close(fd)
    t = threading.Thread(target=work)
    t.start()
    return t


def split(src):
    """Code and cells"""
    m = re.search(r"(?m)^[ \t]*---[ \t]*\r?(\n|\Z)", src)
    return (src[:m.start()], src[m.end():]) if m else ("", src)


def mistakes(rng, files, main, seen):
    """Several mistakes in the program"""
    kinds = rng.sample(["rows", "modules", "definitions"], rng.choice([1, 1, 2]))
    src = files[main]
    head, tail = split(src)
    sep = "---\n"
    n = 0
    if "rows" in kinds:
        head = "fn two_args_(a_, b_) a_ + b_\n" + head
        lines = [f'"=two_args_({", ".join("1" * k)})"\n' for k in rng.sample([1, 3, 4, 5, 6, 7, 8, 9], rng.choice([2, 5, 8]))]
        for _ in range(rng.choice([0, 3])):
            lines.insert(rng.randrange(len(lines)), f"a,{rng.random()}\n")
        tail = (tail if tail.endswith("\n") or not tail else tail + "\n") + "".join(lines)
        n += 2
        seen.append("mistakes in rows")
    if "definitions" in kinds:
        mods = []
        for k in range(rng.choice([1, 2, 3])):
            m = f"wrong_{k}_"
            t = f"fn one_{k}(a_) a_\n" + "".join(f"bad_{k}_{j} := one_{k}({', '.join('12345'[:j])})\n" for j in rng.sample([0, 2, 3, 4, 5], rng.choice([1, 2, 4])))
            t += "".join(f"fn badf_{k}_{j}(x_) one_{k}({', '.join('x_' for _ in range(j))})\n" for j in rng.sample([0, 2, 3], rng.choice([0, 1, 2])))
            files[os.path.join(os.path.dirname(main), m + ".csvpp")] = t + "---\n"
            mods.append(m)
        if rng.random() < .5:
            # not used by the program itself
            mids = [f"middle_{k}_" for k in range(rng.choice([1, 1, 2]))]
            of = {m: rng.choice(mids) for m in mods}
            for m in mids:
                files[os.path.join(os.path.dirname(main), m + ".csvpp")] = "".join(f"use {w}\n" for w in mods if of[w] == m) + "---\n"
            mods = mids
            seen.append("mistakes in indirect modules")
        head = "".join(f"use {m}\n" for m in mods) + head
        n += 2
        seen.append("mistakes in definitions")
    if "modules" in kinds:
        mods = []
        for k in range(rng.choice([2, 3, 5])):
            m = f"broken_{k}_"
            if rng.random() < .7:
                files[os.path.join(os.path.dirname(main), m + ".csvpp")] = rng.choice(["x :=\n---\n", "fn (\n---\n", ")\n---\n", "use\n---\n", "x := 1\n---\n=(\n", "use gone_too_\n---\n"])
            mods.append(m)
        head = "".join(f"use {m}\n" for m in mods) + head
        n += len(mods)
        seen.append("mistakes in modules")
    files[main] = head + sep + tail
    seen += ["error"] + (["several mistakes"] if n > 1 else [])


def case(ctx, rng, i):
    seen = []
    args, p, mods = [], None, []
    if rng.random() < .5:
        g = c10.program(rng)
        if g is None:
            return Case(i, False)
        ms, order, main, circle, main_circle, p, *_ = g
        files = {m.name + ".csvpp": c10.text(rng, m) for m in order + [main]}
        reach = c10.closure(ms, main) - {"prog"}
        mods = [m + ".csvpp" for m in reach]
        if circle or main_circle:
            seen.append("circle")
    else:
        w = whole.generate(rng, rng.choice([2, 5, 9]), rng.choice([2, 5]), module=.4, kv=.15, notes=True, dvs=.05)
        if rng.random() < .12:
            many = [Row([Cell(("formula", prog.gen_expr(rng, 1, Names()))) for _ in range(3)]) for _ in range(rng.choice([100, 400]))]
            w.program = Program(w.program.rows + many, w.program.functions, w.program.variables, uses=w.program.uses, kv=w.program.kv, imported=w.program.imported)
            for r in many:
                for c in r.cells:
                    c.style = whole.Style()
            w.files["prog.csvpp"] = prog.source(rng, w.program, fancy=False)
            seen.append("many rows")
        p, files, args = w.program, w.files, w.args
        mods = [f for f in files if f != "prog.csvpp"]
    if mods:
        seen.append("modules")
    wrong = rng.random() < .3
    if wrong:
        mistakes(rng, files, "prog.csvpp", seen)
        mods = []
    ctx.fresh(files)
    ext = rng.choice(["csv", "csv", "xlsx"])
    n = 0

    def check(r, where):
        nonlocal n
        n += 1
        if words(r) != words(first):
            raise Violation(f"{where}: differs from the first compilation: {describe(first, r)}", files={k: str(v)[:1500] for k, v in files.items()}, args=args)

    run = ctx.run("prog.csvpp", "-o", "first." + ext, "--no-cache", "-n", "prog", *args)
    first = result(ctx, run, "first." + ext)
    n += 1
    if wrong:
        if first[0] == "ok":
            raise Violation("compiled although there are mistakes")
    else:
        if first[0] != "ok":
            raise Violation(f"has to compile: {failed(run)}")
        seen.append(ext)
        if ext == "csv":
            m = prog.compare_csv(p.expected(), first[1])
        else:
            m = prog.compare_excel(p.expected(), read_xlsx(ctx, "first.xlsx")["prog"])
        if m:
            raise Violation(m)
    for k in range(rng.choice([1, 2, 4])):
        check(result(ctx, ctx.run("prog.csvpp", "-o", f"again{k}.{ext}", "--no-cache", "-n", "prog", *args), f"again{k}.{ext}"), f"compilation {k + 2} in the same process")
    for t in rng.sample([1, 2, 3, 8], rng.choice([1, 1, 2])):
        check(result(ctx, ctx.cli("prog.csvpp", "-o", f"threads{t}.{ext}", "--no-cache", "-n", "prog", *args, threads=t), f"threads{t}.{ext}"), f"the program with {t} threads")
        seen.append(f"threads {t}")

    # modules that arrive in any order
    if mods and rng.random() < .5:
        order = list(mods)
        rng.shuffle(order)
        d = ctx.dir
        for m in mods:
            os.remove(os.path.join(d, m))
            os.mkfifo(os.path.join(d, m))
        for k in range(rng.choice([1, 2])):
            stop, log = threading.Event(), []
            t = feed(ctx, files, order, stop, log)
            try:
                r = ctx.run("prog.csvpp", "-o", f"fed.{ext}", "--no-cache", "-n", "prog", *args)
            finally:
                stop.set()
                t.join(5)
            check(result(ctx, r, f"fed.{ext}"), f"with modules that are read in the order {log}")
            rng.shuffle(order)
        seen += ["fed in order", "order " + str(len(log)) + ":" + ",".join(str(mods.index(x)) for x in log)] if len(log) < 4 else ["fed in order"]
        for m in mods:
            os.remove(os.path.join(d, m))
        ctx.put({m: files[m] for m in mods})

    # others at the same time
    if rng.random() < .7:
        cache = rng.random() < .7
        others = []
        if rng.random() < .5:
            # another program which uses the same modules
            heads = split(files["prog.csvpp"])[0]
            ctx.put({"other.csvpp": heads + "---\nanother\n" if heads.strip() and not wrong else "other,cells\n"})
            others.append("other.csvpp")
            seen.append("different programs sharing modules")
        if rng.random() < .25:
            ctx.put({"failing.csvpp": "".join(f"use {os.path.splitext(m)[0]}\n" for m in mods) + "x := (\n---\ny\n"})
            others.append("failing.csvpp")
        for rnd in range(rng.choice([1, 2, 3])):
            k = rng.choice([2, 3, 4, 6])
            runs = [["prog.csvpp", "-o", f"par{j}.{ext}", "-n", "prog"] + ([] if cache else ["--no-cache"]) + args for j in range(k)]
            extra = [[o, "-o", f"o{j}_{rnd}.csv"] for j, o in enumerate(others)]
            both = runs + extra
            idx = list(range(len(both)))
            rng.shuffle(idx)
            processes = rng.random() < .3
            if processes:
                ps = [(j, ctx.start_cli(both[j], threads=rng.choice([1, 2, 4]))) for j in idx]
                rs = {j: ctx.wait_cli(q) for j, q in ps}
                seen.append("processes at the same time")
            else:
                rs = dict(zip(idx, ctx.par([both[j] for j in idx])))
                seen.append("at the same time")
            if cache:
                seen.append("sharing object code" if rnd == 0 else "object code ready")
            for j in range(len(runs)):
                check(result(ctx, rs[j], f"par{j}.{ext}"), f"round {rnd + 1}, compilation {j + 1} of {len(both)} at the same time{' (processes)' if processes else ''}")
            for j in range(len(runs), len(both)):
                if rs[j].get("panic"):
                    raise Violation(f"{both[j]}: {failed(rs[j])}")
            if rng.random() < .5:
                for m in ["prog.csvpp"] + mods:
                    if rng.random() < .5:
                        os.utime(os.path.join(ctx.dir, m))
    return Case((sorted(files.items(), key=str), args, ext), bool(mods) or wrong or len(p.rows) > 1, seen, {"files": {k: str(v)[:200] for k, v in files.items()}}, executions=n)
