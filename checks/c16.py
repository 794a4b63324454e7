"""Writing to an existing workbook keeps what is not overwritten"""
import html
import io
import zipfile

import lang, options, prog, validations, whole, xlsx
from common import *

ID = "C16"
CASES = {"quick": 3500, "thorough": 80000}
TIME = {"quick": 45, "thorough": 900}
RULE = ("A case is a workbook of one to four sheets (values of all types, formulas, styles, notes, validations of cells and ranges, merged cells, column widths, row heights, hidden sheets), or none, and a history of 1 to 4 compilations of up to 3 programs (with definitions, "
        "modules, fills, styles, notes, validations) into one of its sheets or a new one, with and without the safe mode, one in ten by the real program. After every step every cell, style, note, validation, merged range, width and height of every sheet is read back "
        "and compared with a model of the merge. Non-trivial: the sheet had content that the program does not cover, or that the safe mode kept.")
ASSUMPTIONS = ["an empty cell of the program may clear or keep the existing value", "notes and validations of a cell that is overwritten by one without any may stay or go"]
MUST_SEE = ["kept cell", "kept note", "kept validation", "kept range validation", "kept merged", "kept sheet", "kept hidden sheet", "overwritten", "overwritten formula", "safe kept", "safe filled", "note replaced", "validation replaced", "same again", "no file before",
            "sheet created", "real program", "kept in safe mode with a note", "kept in safe mode with a validation", "new note", "new validation", "fill", "absent row filled"]
NAMES = ["prog", "Sheet1", "my sheet", "Übersicht", "日本", "a-b", "Q1 & Q2", "it's", "2024", "A1"]
DEFAULT = {"bold": False, "italic": False, "strike": False, "underline": None, "size": 11.0, "font": "Calibri", "color": None, "fill": None, "borders": {}, "numfmt": "General",
           "halign": None, "valign": None, "wrap": False}


def existing(rng, names):
    book = {}
    for n in names:
        s = {"cells": {}, "validations": [], "comments": [], "merged": []}
        w, h = rng.choice([1, 2, 3, 6]), rng.choice([1, 2, 4, 9])
        dense = rng.choice([.3, .7, 1])
        addresses = [xlsx.a1(x, y) for y in range(h) for x in range(w)]
        if rng.random() < .1:
            addresses += [xlsx.a1(rng.choice([30, 60, 701]), rng.choice([0, 50, 999])) for _ in range(3)]
        for a in dict.fromkeys(addresses):
            if rng.random() > dense:
                continue
            r = rng.random()
            c = (("s", rng.choice([prog.simple_word(rng), prog.word(rng), "  padded ", "a\nb", "=not a formula", "5", "<b>&"])) if r < .35 else ("n", rng.choice([0, 1, -2.5, 42, 1e9, 0.1])) if r < .55 else ("b", rng.random() < .5) if r < .62
                 else ("f", lang.Speller(rng).expr(prog.gen_expr(rng, 1, prog.Names()))) if r < .85 else (None, None))
            if c[0] == "f" and rng.random() < .4:
                c = ("f", (c[1], rng.choice(["none", "none", "empty", "text", "bool", "error"])))
            elif c[0] == "s" and c[1].isalpha() and c[1].lower() not in ("true", "false", "nan", "inf", "infinity") and rng.random() < .2:
                c = ("inline", c[1])
            s["cells"][a] = c + (rng.choice([0, 0, 1, 2, 3]),)
            if rng.random() < .15:
                s["comments"].append((a, rng.choice(["a note", "x", "two\nlines", "é <&>", "csvpp"])))
        cells = lambda: rng.choice(addresses)
        used = set()
        for _ in range(rng.choice([0, 0, 1, 3])):
            a = cells()
            if a not in used:
                used.add(a)
                s["validations"].append((a, "decimal", rng.choice(["greaterThan", "lessThan", "equal"]), str(rng.randrange(100))))
        if rng.random() < .2:
            y = rng.randrange(h)
            ref = f"{xlsx.a1(0, y)}:{xlsx.a1(w, y + rng.choice([0, 2]))}"
            if rng.random() < .3:
                ref = f"{xlsx.a1(0, y)} {xlsx.a1(w, y + 1)}"
            if not used & {xlsx.a1(x, k) for x in range(w + 1) for k in range(y, y + 3)}:
                s["validations"].append((ref, "list", "between", '"p,q"'))
        if rng.random() < .2:
            s["merged"] = [f"{xlsx.a1(w + 1, 0)}:{xlsx.a1(w + 2, 1)}"]
        if rng.random() < .2:
            s["cols"] = [(1, 2, 25)]
        if rng.random() < .15:
            s["heights"] = {sorted({xlsx.xy(a)[1] for a in s["cells"]})[0] if s["cells"] else 0: 33}
        if book and rng.random() < .2:
            s["hidden"] = True
        book[n] = s
    return book


def expand(sqref):
    for r in sqref:
        a, _, b = r.partition(":")
        (x, y), (v, w) = xlsx.xy(a), xlsx.xy(b or a)
        for j in range(y, w + 1):
            for i in range(x, v + 1):
                yield xlsx.a1(i, j)


def rules(sheet):
    """address -> the rules it has"""
    out = {}
    for r in sheet.validations:
        for a in expand(r["sqref"]):
            out.setdefault(a, []).append((len(r["sqref"]) == 1 and ":" not in r["sqref"][0], {**{k: v for k, v in r.items() if k != "sqref"}, "prompt": unescape(r["prompt"])}))
    return out


def notes(sheet, where):
    out = {}
    for a, t in sheet.comments:
        if a in out:
            raise Violation(f"{where}: cell {a} has two notes: {out[a]!r} and {t!r}")
        out[a] = t
    return out


def look(sheet):
    """All of a sheet, to be compared"""
    return (sheet.cells, {a: norm(s) for a, s in sheet.styles.items() if not plain(s) or a in sheet.cells}, sorted(sheet.comments), sorted(repr({**v, "prompt": unescape(v["prompt"])}) for v in sheet.validations), sheet.merged, widths(sheet), {k: float(v) for k, v in sheet.rows.items()}, sheet.state)


def unescape(s):
    """The library which reads and writes the workbooks escapes these once more every time"""
    while s and html.unescape(s) != s:
        s = html.unescape(s)
    return s


def differ(a, b):
    for x, y in zip(a, b):
        if x != y:
            if isinstance(x, dict):
                k = next(k for k in list(x) + list(y) if x.get(k) != y.get(k))
                return f"{k} was {x.get(k)}, is {y.get(k)}"
            return f"was {[e for e in x if e not in y][:3]}, is {[e for e in y if e not in x][:3]}" if isinstance(x, list) else f"was {x}, is {y}"


def widths(sheet):
    """column -> width, if it's not the one that the library writes for all others"""
    return {k: float(w) for a, b, w in sheet.cols for k in range(int(a), int(b) + 1) if w and float(w) != 8.38}


def plain(s):
    return s is None or norm(s) == DEFAULT


def norm(s):
    s = dict(DEFAULT if s is None else s)
    s["color"] = None if s["color"] == "theme 1" else s["color"]
    s["size"] = s["size"] or 11.0
    s["font"] = unescape(s["font"]) or "Calibri"
    return s


def same_style(a, b):
    return norm(a) == norm(b)


def judge(grid, old, new, safe, see):
    """Has `new` become of the Sheet `old` what the merge with `grid` should make of it?"""
    covered = {xlsx.a1(x, y): v for y, line in enumerate(grid) for x, v in enumerate(line)}
    on, nn = notes(old, "before"), notes(new, "after")
    orl, nrl = rules(old), rules(new)
    kept_any = False
    for a in set(covered) | set(old.styles) | set(new.styles) | set(on) | set(nn) | set(orl) | set(nrl):
        was, now = old.cells.get(a), new.cells.get(a)
        filled = was is not None and was["value"] != ""
        kept = lambda: (None if was == now else f"was {was}, is {now}") or (None if same_style(old.styles.get(a), new.styles.get(a)) else f"style was {old.styles.get(a)}, is {new.styles.get(a)}") \
            or (None if on.get(a) == nn.get(a) else f"note was {on.get(a)!r}, is {nn.get(a)!r}") or (None if [r for _, r in orl.get(a, [])] == [r for _, r in nrl.get(a, [])] else f"validations were {orl.get(a)}, are {nrl.get(a)}")

        def written(v, st):
            m = prog.excel_mismatch(v, now)
            if m and v is None and now == was:
                m = None
            if m:
                return m
            m = options.mismatch(st, new.styles.get(a) or DEFAULT)
            if m and not (v is None and same_style(old.styles.get(a), new.styles.get(a))):
                return m
            n = nn.get(a)
            if n != st.note and not (st.note is None and n == on.get(a)):
                return f"note is {n!r}, expected {st.note!r}"
            got = nrl.get(a, [])
            others = [r for _, r in orl.get(a, [])]
            if st.dv:
                mine = [r for _, r in got if validations.mismatch(st.dv, a, r) is None]
                if not mine:
                    return f"validations are {[r for _, r in got]}, expected {st.dv}"
                if len(got) > 1 and all(s for s, _ in orl.get(a, [])):
                    return f"has two validations: {got}"
            elif any(r not in others for _, r in got):
                return f"validations are {[r for _, r in got]}, expected none"
            return None
        if a not in covered:
            m = kept()
            if not m:
                if filled:
                    kept_any = True
                    see("kept cell")
                if a in on:
                    see("kept note")
                if a in orl:
                    see("kept validation" if orl[a][0][0] else "kept range validation")
        else:
            v, cell = covered[a]
            if safe and filled:
                m = kept()
                kept_any = kept_any or not m
                if not m:
                    see("safe kept")
                    if cell.style.note:
                        see("kept in safe mode with a note")
                    if cell.style.dv:
                        see("kept in safe mode with a validation")
            elif safe and was is not None and not kept():
                m = None            # an empty string: kept as a value or not
            else:
                m = written(v, cell.style)
                if not m:
                    if filled and v is not None:
                        see("overwritten", "overwritten " + {"f": "formula"}.get(was["kind"], "value"))
                    if safe and v is not None:
                        see("safe filled")
                    if cell.style.note:
                        see("note replaced" if a in on else "new note")
                    if cell.style.dv:
                        see("validation replaced" if a in orl else "new validation")
        if m:
            return f"cell {a}: {m}", kept_any
    if old.merged != new.merged:
        return f"merged cells were {old.merged}, are {new.merged}", kept_any
    if old.merged:
        see("kept merged")
    if widths(old) != widths(new):
        return f"column widths were {old.cols}, are {new.cols}", kept_any
    for k, v in old.rows.items():
        if k not in new.rows or float(new.rows[k]) != float(v):
            return f"height of row {k} was {v}, is {new.rows.get(k)}", kept_any
    return None, kept_any


def case(ctx, rng, i):
    seen = {}

    def see(*names):
        for n in names:
            seen[n] = seen.get(n, 0) + 1
    ws = []
    for k in range(rng.choice([1, 1, 1, 2, 3])):
        ws.append(whole.generate(rng, rng.choice([1, 3, 5]), rng.choice([1, 3, 5]), module=.1, kv=.1, opts=.25, notes=True, dvs=.08, texts=prog.word if rng.random() < .3 else None))
    ctx.fresh()
    names = rng.sample(NAMES, rng.choice([1, 1, 2, 3, 4]))
    before = {}
    if rng.random() < .93:
        ctx.put({"out.xlsx": xlsx.write(existing(rng, names))})
        before = read_xlsx(ctx)
    else:
        see("no file before")
    start = {n: look(s) for n, s in before.items()}
    log, again, interesting = [], None, False
    for step in range(rng.choice([1, 1, 2, 3, 4])):
        if again is not None and rng.random() < .35:
            k, safe, name = again
            see("same again")
        else:
            k, safe, name = rng.randrange(len(ws)), rng.random() < .45, rng.choice(names) if rng.random() < .85 else rng.choice(NAMES)
        w = ws[k]
        ctx.put(w.files)
        argv = ["prog.csvpp", rng.choice(["-o", "--output-filename"]), "out.xlsx", "--no-cache"] + ([rng.choice(["-s", "--safe"])] if safe else []) + (["-n", name] if name != "prog" or rng.random() < .3 else []) + w.args
        log.append((k, safe, name))
        where = f"step {step} (program {k}{' safe' if safe else ''} into {name!r})"
        if rng.random() < .1:
            run = ctx.cli(*argv)
            see("real program")
        else:
            run = ctx.run(*argv)
        must_compile(run)
        after = read_xlsx(ctx)
        data = dict(log=log, source=w.files)
        want = list(before) + ([name] if name not in before else [])
        if list(after) != want:
            raise Violation(f"{where}: the sheets are {list(after)}, expected {want}", **data)
        for n in before:
            if n != name:
                a, b = look(before[n]), look(after[n])
                if step == 0:
                    m, _ = judge([], before[n], after[n], False, lambda *x: None)
                else:
                    m = None if a == b else differ(a, b)
                m = m or (None if before[n].state == after[n].state else f"state was {before[n].state}, is {after[n].state}")
                if m:
                    raise Violation(f"{where}: sheet {n!r} has changed: {m}"[:3000], **data)
                see("kept sheet")
                if before[n].state == "hidden":
                    see("kept hidden sheet")
        if name not in before:
            see("sheet created")
        m, kept = judge(w.grid, before.get(name) or empty(), after[name], safe, see)
        if m:
            raise Violation(f"{where}: {m}"[:3000], **data)
        interesting = interesting or kept
        if again == (k, safe, name) and log[-1] == (log[-2] if len(log) > 1 else None):
            for n in after:
                a, b = look(before[n]), look(after[n])
                if a != b:
                    raise Violation(f"{where}: the same compilation again changes sheet {n!r}: " + differ(a, b)[:2500], **data)
        if any(r.fill is not None for r in w.program.rows):
            see("fill")
        if name in before and len(w.grid) > max([xlsx.xy(a)[1] + 1 for a in before[name].styles] or [0]):
            see("absent row filled")
        before = after
        again = (k, safe, name)
    return Case((log, [w.files for w in ws], start), interesting, seen, {"log": log, "source": ws[0].files.get("prog.csvpp", "")[:300]}, executions=len(log))


def empty():
    s = xlsx.Sheet()
    s.state = "visible"
    return s


def error_value(ctx):
    """The program writes to A1, B2 of the workbook has to stay"""
    ctx.fresh({"prog.csvpp": "x\n", "out.xlsx": xlsx.write({"prog": {"cells": {"B2": ("e", "#N/A", 0)}}})})
    must_compile(ctx.run("-o", "out.xlsx", "--no-cache", "prog.csvpp"))
    now = read_xlsx(ctx)["prog"].cells.get("B2")
    if now != {"kind": "e", "value": "#N/A"}:
        raise Violation(f"the error #N/A has become {now}")


def validation_error(ctx):
    dv = '<dataValidation error="only p or q" errorStyle="warning" '
    ctx.fresh({"prog.csvpp": "x\n", "out.xlsx": xlsx.write({"prog": {"cells": {"B2": ("s", "x", 0)}, "validations": [("B2", "list", "between", '"p,q"')]}}, patch=lambda d: d.replace("<dataValidation ", dv))})
    must_compile(ctx.run("-o", "out.xlsx", "--no-cache", "prog.csvpp"))
    with zipfile.ZipFile(io.BytesIO(ctx.get("out.xlsx"))) as z:
        xml = z.read("xl/worksheets/sheet1.xml").decode()
    if "only p or q" not in xml:
        raise Violation("the error text of a data validation is lost")


FIXED = {"error-value": error_value, "validation-error": validation_error}
