"""Errors name the line and the cell of the mistake"""
import re

import defs, lang, options, prog, xlsx
from common import *
from prog import Names, Program

ID = "C14"
CASES = {"quick": 12000, "thorough": 150000}
TIME = {"quick": 40, "thorough": 900}
RULE = ("A case is a valid program of random layout (definitions over several lines, comments, blank lines, fields over several lines, continued lines, padding, doubled quotes, multi-byte characters, LF or CRLF) with one mistake at a known "
        "place: a token that does not belong there, or an end too early, in a formula, in an option, in the code section, in the CSV, all of them also in a module, or a wrong call in a cell below fills. The file, line, address, the line "
        "shown as an excerpt and the column pointed at are compared with where the mistake was put. Non-trivial: it is not on the first line.")
ASSUMPTIONS = ["blank lines and comments right before the first record are left out where they change how rows are counted (see C01)", "the address of a syntax error counts the rows as written, before fills are expanded"]
MUST_SEE = ["cell token", "cell end", "option", "row option", "code", "csv trailing", "csv open quote", "call", "call below a fill", "module", "after a field of several lines", "after a continued line", "multi-byte before", "CRLF", "quoted formula", "several lines in the formula", "escaped quote before", "caret checked",
            "code before the cells", "comment before", "options before the formula", "multi-byte characters and options", "main module fine, module wrong"]

# a mistake between « and »
TOKENS = ["=%s + «~»", "=%s «)»", "=«)»", "=«*»2", "=foo(%s«~»)", "=%s «1»", "=«~»%s", "=%s & «`x`»", "=(%s «]»)", "=foo(%s) «foo»", "=%s + «* 3»", "=foo(%s, «~»)", "=%s «\"x\"»", "=1 < «)» + %s"]
ENDS = ["=(%s", "=foo(%s", "=%s +", "=foo(%s,", "=((%s)", "=%s *", "=-"]
OPTIONS = ["«nosuch»", "«nosuch=1»", "text«=nope»", "border«=nowhere»", "halign«=up»", "fs«=abc»", "fc«=zzz»", "dv«=no_such(1)»", "dv«=date_after('zz')»", "dv«=number_between(1)»", "nf«=roman»", "bs«=wavy»", "wrap«=maybe»", "«=»", "«7»", "dv«=in_list()»", "text« bold»", "border« all»", "fs« 12»", "note«'x'»", "fc« #f00»", "var« x_»", "halign« /»left"]
CODE = ["bad_ := «~»", "bad_ «=» 3", "bad_ := «)»", "bad_ := 1 + «* 2»", "«)» := 3", "fn bad_(«1») 2", "fn bad_(a «b_; c») 2", "bad_ := foo(1, «~»)", "bad_ := 1 «2»", "bad_ := (1 + 2 «]»", "fn bad_(a)\n  a + «~»", "fn bad_(a,\n   b)\n  foo(a,\n b «~»)", "bad_ :=\n\n «)»", "«7» := 3", "bad_ := 'x«»'"]
CODE = CODE[:-1] + ["bad_ := «'x'»"]
CALLS = ["two_args_(1)", "two_args_()", "two_args_(1, 2, 3)", "1 + two_args_(two_args_(1, 2))", "SUM(1, two_args_(A1))"]


def marked(t):
    """The text without the marks, and where they were"""
    b = t.index("«")
    e = t.index("»") - 1
    return t.replace("«", "").replace("»", ""), b, e


class Text:
    def __init__(self):
        self.t = ""

    def add(self, s):
        self.t += s
        return self

    def line(self, at):
        return self.t.count("\n", 0, at) + 1

    def column(self, at):
        return at - (self.t.rfind("\n", 0, at) + 1)


def word(rng):
    w = prog.word(rng) if rng.random() < .6 else prog.simple_word(rng)
    return w if w.strip(" \t") else "w"


def records(rng, n):
    out = []
    for _ in range(n):
        out.append([word(rng) if rng.random() < .85 else "" for _ in range(rng.choice([1, 1, 2, 3]))])
        if not any(out[-1]):
            out[-1][0] = "x"
    return out


def spell_field(rng, c, crlf, whole):
    """A spelling of the field `c` (keeping what is between the indices `whole` on one line), and where each of its characters (and its end) is in it"""
    must = any(x in c for x in ',\n"') or c.startswith("#") or c.endswith("\\") or "---" in c
    out, at = "", []
    if rng.random() < .3:
        out += rng.choice([" ", "   ", "\t"])
    if must or rng.random() < .4:
        out += '"'
        if rng.random() < .15:
            out += rng.choice([" ", "  "])
        for ch in c:
            at.append(len(out))
            out += '""' if ch == '"' else ch
        at.append(len(out))
        out += '"'
    else:
        cont = rng.randrange(1, len(c)) if len(c) > 1 and not crlf and rng.random() < .2 else None
        if cont and whole[0] - 1 <= cont <= whole[1] + 1:
            cont = None
        for k, ch in enumerate(c):
            if k == cont and c[k - 1] != "\\":
                out += "\\\n"
            at.append(len(out))
            out += ch
        at.append(at[-1] + 1)
    if rng.random() < .25:
        out += rng.choice([" ", "  "])
    return out, at


def code(rng, n):
    """Valid definitions"""
    functions, variables = defs.gen_defs(rng, rng.randint(0, n), rng.randint(0, n), 1)
    if not defs.acyclic(functions, variables):
        functions, variables = {}, {}
    p = Program([], {k + "_d": v for k, v in functions.items()}, {k + "_d": v for k, v in variables.items()})
    return prog.code_text(rng, p)


def expr(rng, newlines):
    sp = lang.Speller(rng, newlines=newlines)
    return sp.expr(prog.gen_expr(rng, rng.choice([0, 1, 1, 2]), Names()))


def generate(rng):
    """(kind, text, what to expect, observed)"""
    t = Text()
    seen = []
    kind = rng.choice(["cell token"] * 4 + ["cell end"] * 2 + ["option"] * 4 + ["row option"] + ["code"] * 4 + ["csv trailing", "csv open quote", "call", "call"])
    crlf = rng.random() < .12
    eol = "\r\n" if crlf else "\n"
    want = {"kind": kind}
    head = ""
    if kind == "call":
        head = "fn two_args_(a, b) a + b\n"
    if kind in ("code", "call") or rng.random() < .5:
        before = code(rng, 3)
        before = head + (before + "\n" if before else "")
        if crlf:
            before = before.replace("\n", eol)
        if "#" in before:
            seen.append("comment before")
        if kind == "code":
            bad, b, e = marked(rng.choice(CODE))
            lead = rng.choice(["", "", " ", "\n", "# a comment\n", "  \n\n"])
            t.add(before + lead)
            at = len(t.t)
            t.add(bad)
            want.update(begin=at + b, end=at + e, at=at + b)
            t.add(rng.choice(["", "", " # why"]) + "\n")
            # (what comes next must not make sense of it)
            after = code(rng, 2)
            t.add(after + ("\n" if after else ""))
            if "\n" in before + lead:
                seen.append("comment before" if "#" in before + lead else "definitions before")
        else:
            t.add(before)
        t.add("---" + eol)
        if kind != "code":
            seen.append("code before the cells")
    elif rng.random() < .25 and kind != "code":
        t.add("\n" * rng.randint(1, 3))
    pre_cells = t.t
    row = 0
    if kind == "call":
        # a sheet of its own: rows with fills before the wrong call
        y = 0
        for _ in range(rng.choice([0, 1, 2, 4])):
            n = rng.choice([None, None, 1, 2, 3, 7])
            if n is None:
                y += 1
                t.add('x,"y' + rng.choice(["", "\n"]) + '"' + eol)
            else:
                y += n
                t.add(f"![[fill={n}]]x,=1 + 2" + eol)
                seen.append("call below a fill")
        x = rng.choice([0, 1, 2, 5, 26, 27])
        n = rng.choice([None, None, 2, 3])
        fill, call = f"![[fill={n}]]" if n else "", "=" + rng.choice(CALLS)
        t.add((f'{fill}{"," * x}"{call}"' if x else f'"{fill}{call}"') + ",z" + eol + "a,b" + eol)
        want.update(addresses=[xlsx.a1(x, y + k) for k in range(n or 1)])
        return kind, t, want, seen
    n_before = rng.choice([0, 0, 1, 2, 4, 9])
    if n_before:
        s = prog.csv_text(rng, records(rng, n_before), comments=True, crlf=crlf)
        if not s.endswith("\n"):
            s += eol
        # blank lines or comments at the very top change the numbers of the rows: see C01
        if s.startswith("#"):
            s = "top" + eol + s
            row += 1
        t.add(s)
        row += n_before
    if kind == "code":
        t.add("last,line" + eol)
        return kind, t, want, seen
    if "#" in t.t[len(pre_cells):]:
        seen.append("comment before")
    col = 0 if kind == "row option" else rng.choice([0, 1, 1, 2, 3, 28])
    for k in range(col):
        f = word(rng) if rng.random() < .7 else ""
        if k > 3:
            f = ""
        if k == 0 and not f:
            f = "x"
        t.add(prog.field(rng, f, k == 0, False, crlf) + ",")
    if kind == "cell token":
        c, b, e = marked(rng.choice(TOKENS).replace("%s", expr(rng, rng.random() < .3)))
    elif kind == "cell end":
        c = rng.choice(ENDS).replace("%s", expr(rng, rng.random() < .3))
        c, b, e = c, len(c), len(c)
    if kind.startswith("cell"):
        if rng.random() < .25:
            m = '"' + rng.choice(["é", "漢字", "naïve ☕", "ß, 𝔘", "ẍ"]) + '" & '
            c, b, e = "=" + m + c[1:], b + len(m), e + len(m)
        if rng.random() < .3:
            o = "[[" + "".join(g + rng.choice([" ", "  ", "/"]) for g in options.gen(rng, rng.choice([1, 2]), options.STYLES + ["note", "note"])[1]) + "b=a]]"
            if col == 0 and rng.random() < .3:
                o = "![[text=bold]]" + rng.choice(["", o])
            c, b, e = o + c, b + len(o), e + len(o)
            seen.append("options before the formula")
            if not c[len(o):b].isascii():
                seen.append("multi-byte characters and options")
    elif kind in ("option", "row option"):
        good = options.gen(rng, rng.choice([0, 1, 2]), options.STYLES + ["note", "note"])[1]
        pre = ("!" if kind == "row option" else "") + "[[" + "".join(g + rng.choice([" ", "  ", "/"]) for g in good)
        m, b, e = marked(rng.choice(OPTIONS))
        c, b, e = pre + m + rng.choice(["]]", "]]x", " b=a]]y"]), b + len(pre), e + len(pre)
        if kind == "option" and col == 0 and rng.random() < .3:
            r = "![[text=bold]]"
            c, b, e = r + c, b + len(r), e + len(r)
    if kind.startswith("csv"):
        if rng.random() < .4:
            t.add(rng.choice([" ", "  "]))
        at = len(t.t)
        body = word(rng).replace('"', '""')
        if kind == "csv trailing":
            t.add('"' + body + '"' + rng.choice(["", " "]))
            want.update(begin=len(t.t) - 2, end=len(t.t) + 1, at=len(t.t))
            t.add(rng.choice(["x", "é", "7", "'"]) + ",more" + eol)
        else:
            t.add('"' + body + "\nmore,lines\n" * rng.randint(0, 3) + "end")
            want.update(begin=at, end=len(t.t), at=None)
            return kind, t, want, seen
    else:
        c0 = c
        s, at = spell_field(rng, c, crlf, (len(c[:b].rstrip()) if kind != 'cell end' else len(c.rstrip()), e))
        base = len(t.t)
        if kind == "cell end":
            # after the last token, or wherever the field ends
            last = len(c.rstrip()) - 1
            want.update(begin=base + at[last], end=base + len(s) + 1, at=None)
        else:
            # blanks before it may belong to it
            k = b
            while k > 0 and c[k - 1] in " \t\n":
                k -= 1
            want.update(begin=base + at[k], end=base + max(at[e], at[b]), at=base + at[b])
        if s.lstrip().startswith('"') and c.startswith("="):
            seen.append("quoted formula")
            if "\n" in c:
                seen.append("several lines in the formula")
            if '"' in c[:b]:
                seen.append("escaped quote before")
        t.add(s)
    for _ in range(rng.choice([0, 0, 1, 3])):
        t.add("," + prog.field(rng, prog.simple_word(rng), False, False, crlf))
    t.add(eol)
    for _ in range(rng.choice([0, 1, 5])):
        t.add(rng.choice(["a,b", '"multi\nline",x', "=1 + 1", "# c"]) + eol)
    want.update(address=xlsx.a1(col, row))
    return kind, t, want, seen


def case(ctx, rng, i):
    kind, t, want, seen = generate(rng)
    seen.append(kind)
    text = t.t
    name = "prog.csvpp"
    files = {name: text}
    if rng.random() < .25 and kind != "call":
        name = rng.choice(["m", "mod_1", "other"]) + ".csvpp"
        files = {name: text, "prog.csvpp": "use " + name[:-6] + "\nx := 1\n---\n" + "a,=x\n" * rng.randint(0, 3)}
        if rng.random() < .4:
            files["fine.csvpp"] = "ok_ := 1\n---\n"
            files["prog.csvpp"] = "use fine\n" + files["prog.csvpp"]
        seen += ["module", "main module fine, module wrong"]
    ctx.fresh(files)
    r = ctx.run("-o", "out.csv", "--no-cache", "prog.csvpp")
    must_fail(r, f"a mistake in the {kind}")
    e = r["error"]
    shown = dict(source=text, error=e, want=want)

    def bad(msg):
        raise Violation(msg + f"\n{e}", **shown)
    lines = text.split("\n")
    if f'"{name}"' not in e:
        bad(f"the error does not name {name}")
    if name != "prog.csvpp":
        if '"prog.csvpp' in e or '"fine' in e or "module fine" in e:
            bad("the error names a file that is not at fault")
        if not re.search(rf"module {name[:-6]}\b", e):
            bad(f"the error does not name the module {name[:-6]}")
    if kind == "call":
        m = re.search(r"in cell ([A-Z]+\d+)\b", e)
        if not m or m[1] not in want["addresses"]:
            bad(f"the mistake is in {want['addresses']}")
        if "two_args_" not in e:
            bad("the function is not named")
        return Case(text, True, seen, {"source": text[-300:], "error": e[:300], "kind": kind})
    if kind.startswith("cell") or kind.endswith("option"):
        m = re.search(r"in cell ([A-Z]+\d+) of", e)
        if not m or m[1] != want["address"]:
            bad(f"the mistake is in cell {want['address']}")
    elif kind == "code":
        if "code section" not in e:
            bad("the mistake is in the code section")
    elif "CSV section" not in e:
        bad("the mistake is in the CSV section")
    m = re.search(r"On line (\d+) ", e)
    if not m:
        bad("the error names no line")
    n = int(m[1])
    if want["at"] is not None:
        if n != t.line(want["at"]):
            bad(f"the mistake is on line {t.line(want['at'])}")
    elif not t.line(want["begin"]) <= n <= t.line(want["end"] - 1):
        bad(f"the mistake is on lines {t.line(want['begin'])} to {t.line(want['end'])}")
    # the excerpt
    ls = e.split("\n")
    carets = [k for k, l in enumerate(ls) if re.fullmatch(r" +: -*\^", l)]
    if not carets:
        if kind == "csv open quote" and n > len(text.splitlines()):
            return Case(text, True, seen, None)
        bad("there is no excerpt of the source")
    k = carets[-1]
    shown_lines = {}
    for step in (-1, 1):
        j = k + step
        while 0 <= j < len(ls) and (m := re.match(r" *(\d+) *: (.*)$", ls[j], re.S)):
            shown_lines[int(m[1])] = (m[2], j)
            j += step
    if not shown_lines or shown_lines.get(n, (0, 0))[1] != k - 1:
        bad(f"the line pointed at is not line {n}")
    for no, (l, _) in shown_lines.items():
        if no > len(lines) or l != lines[no - 1].removesuffix("\r"):
            bad(f"line {no} of the excerpt is not line {no} of the source")
    column = ls[k].index("^") - (ls[k].index(":") + 2)
    at = sum(len(l) + 1 for l in lines[:n - 1]) + column
    begin = want["begin"]
    if kind.endswith("option"):
        # (that an option is missing is noticed by what is before)
        begin -= 1
    # the blanks before belong to a token that is not known
    while begin > 0 and text[begin - 1] in " \t\r\n/":
        begin -= 1
    if not begin <= at <= want["end"]:
        bad(f"column {column} of line {n} is pointed at, the mistake is at {t.column(want['begin'])} (line {t.line(want['begin'])}) to {t.column(want['end'])}")
    seen.append("caret checked")
    pre = text[:want["begin"]]
    if "\\\n" in pre:
        seen.append("after a continued line")
    if re.search(r'"[^"]*\n[^"]*",', pre):
        seen.append("after a field of several lines")
    if not pre.split("\n")[-1].isascii():
        seen.append("multi-byte before")
    if "\r" in text:
        seen.append("CRLF")
    return Case(text, n > 1, seen, {"source": text[-300:], "error": e[:300], "kind": kind})
