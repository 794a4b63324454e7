"""What most of the checks do: compile a program with a known meaning and compare the output."""
import json

import prog, xlsx
from runner import Case, Violation


def failed(r):
    """A short description of a run that did not succeed."""
    if r.get("panic"):
        return f"panic: {'; '.join(r.get('panics', []))[:500]}"
    return f"error while {r.get('stage')}: {(r.get('error') or '')[:600]}"


def must_compile(r, what="the program"):
    if not r.get("ok"):
        raise Violation(f"{what} has to compile but: {failed(r)}")


def must_fail(r, what):
    """An orderly error: not a panic"""
    if r.get("ok"):
        raise Violation(f"{what} compiled without an error")
    if r.get("panic"):
        raise Violation(f"{what}: {failed(r)}")
    if not (r.get("error") or "").strip():
        raise Violation(f"{what}: an error without a message")


def kv_args(rng, kv, sp):
    """-k arguments for the variables"""
    out = []
    for k, e in kv.items():
        out += [rng.choice(["-k", "--key-values"]), f"{k}={sp.expr(e)}"]
    return out


def compile_csv(ctx, src, extra=(), name="prog.csvpp", cache=False, out="out.csv", files=None):
    ctx.fresh({name: src, **(files or {})})
    argv = list(extra) + ["-o", out] + ([] if cache else ["--no-cache"]) + [name]
    return ctx.run(*argv)


def read_csv(ctx, name="out.csv"):
    d = ctx.get(name)
    if d is None:
        raise Violation(f"succeeded but did not write {name}")
    try:
        d.decode("utf-8")
    except UnicodeDecodeError as e:
        raise Violation(f"{name} is not UTF-8: {e}")
    return d


def read_xlsx(ctx, name="out.xlsx"):
    d = ctx.get(name)
    if d is None:
        raise Violation(f"succeeded but did not write {name}")
    try:
        return xlsx.read(d)
    except xlsx.NotAWorkbook as e:
        raise Violation(f"{name} is not a workbook: {e}")


def judge_csv(ctx, p, grid=None):
    m = prog.compare_csv(p.expected() if grid is None else grid, read_csv(ctx))
    if m:
        raise Violation(m)


def judge_excel(ctx, p, sheet="prog", grid=None):
    book = read_xlsx(ctx)
    if sheet not in book:
        raise Violation(f"no sheet named {sheet!r} in {list(book)}")
    m = prog.compare_excel(p.expected() if grid is None else grid, book[sheet])
    if m:
        raise Violation(m)
    return book
