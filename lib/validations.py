"""Data validations: generating, spelling, and judging the rules of a workbook."""
import datetime, re

import lang, options, prog

# name -> (spellings, arguments, type, operator)
OPS = {}
for names, kind, op in [
        (("date_gt", "date_after"), "date", "greaterThan"), (("date_lt", "date_before"), "date", "lessThan"),
        (("date_eq", "date_equal_to"), "date", "equal"), (("date_gte", "date_on_or_after"), "date", "greaterThanOrEqual"),
        (("date_lte", "date_on_or_before"), "date", "lessThanOrEqual"), (("date_btwn", "date_between"), "date2", "between"),
        (("date_nbtwn", "date_not_between"), "date2", "notBetween"),
        (("num_eq", "number_equal_to"), "num", "equal"), (("num_gt", "number_greater_than"), "num", "greaterThan"),
        (("num_gte", "number_greater_than_or_equal_to"), "num", "greaterThanOrEqual"), (("num_lt", "number_less_than"), "num", "lessThan"),
        (("num_lte", "number_less_than_or_equal_to"), "num", "lessThanOrEqual"), (("num_neq", "number_not_equal_to"), "num", "notEqual"),
        (("num_btwn", "number_between"), "num2", "between"), (("num_nbtwn", "number_not_between"), "num2", "notBetween"),
        (("c", "custom"), "custom", None), (("in_list",), "list", None), (("in_range",), "range", None),
        (("is_date", "date_is_valid"), "is_date", None), (("is_email", "is_valid_email"), "email", None), (("is_url", "is_valid_url"), "url", None),
        (("text_contains",), "contains", None), (("text_does_not_contain",), "lacks", None), (("text_eq", "text_equal_to"), "text_eq", None)]:
    for n in names:
        OPS[n] = (kind, op)

TEXTS = ["foo", "a b", "x1", "it's", "é 日本", "a, b", "<b>&", "100%", 'say "hi"', "]]", "a(b)", "#x", "'", "\\", "*", "very long " * 8 + "text"]
CUSTOM = ["A1 > 3", "=B2 <> \"x\"", "foo", "AND(A1 > 0, A1 < 10)", "=ISNUMBER(C1)", "LEN(A1) <= 5", "A1=\"it's\"", "$A$1 & \"<b>\""]
RANGES = ["A1:B2", "A1", "$A$1:$A$9", "Sheet1!A1:A9", "A:A", "B2:ZZ99", "2:5", "Data!$B$2"]


def reference(rng):
    d = lambda: rng.choice(["", "", "$"])
    c = lambda: d() + rng.choice(["A", "Z", "AA", "AZ", "ZZ", "AAA", "XFD", rng.choice("BCDEFGH")])
    r = lambda: d() + rng.choice(["1", "9", "10", "20", "100", "1048576", str(rng.randrange(1, 5000))])
    a = c() + r()
    sheet = rng.choice([None, None, "Data", "Q1", "x2", "É", "Sheet_1", "2024", "my sheet", "it's", "a-b", "x!y", "a:b", "R1C1", "日本", "(old)", "100% $"])
    q = "'" + (sheet or "").replace("'", "''") + "'"
    plain = sheet and sheet.replace("_", "").isalnum()
    return ("" if sheet is None else (sheet if plain and rng.random() < .6 else q) + "!") + rng.choice([a, f"{a}:{c()}{r()}", f"{a}:{c()}{r()}", f"{c()}:{c()}", f"{r()}:{r()}"])


ITEMS = ["foo", "bar1", "a_b", "x", "été", "日本"]


def date(rng):
    d = datetime.date(rng.choice([1950, 1970, 1999, 2000, 2024, 2068, 2100]), rng.randint(1, 12), rng.randint(1, 28))
    if rng.random() < .1:
        d = datetime.date(2024, 2, 29)
    f = [f"{d.year:04}-{d.month:02}-{d.day:02}", f"{d.month}/{d.day}/{d.year}", f"{d.month:02}/{d.day:02}/{d.year}"]
    if 1970 <= d.year < 2069:
        f.append(f"{d.month}/{d.day}/{d.year % 100:02}")
    return d, rng.choice(f)


def number(rng):
    n = rng.choice([0, 1, 2, 5, 10, 100, -1, -5, 1000000, 2 ** 31, -2 ** 40, 2 ** 63 - 1, rng.randrange(-1000, 1000)])
    return n, str(n)


def one(rng):
    """((kind, operator, arguments), spelling)"""
    name = rng.choice(list(OPS))
    kind, op = OPS[name]
    sp = lambda p=.1: rng.choice([" ", "  "]) if rng.random() < p else ""
    t = options.case_of(rng, name)
    if kind in ("is_date", "email", "url"):
        args, text = (), None
    elif kind in ("date", "num"):
        a, text = (date if kind == "date" else number)(rng)
        args = (a,)
    elif kind in ("date2", "num2"):
        (a, s), (b, u) = [(date if kind == "date2" else number)(rng) for _ in "12"]
        args, text = (a, b), s + rng.choice([" ", "  "]) + u
    elif kind == "custom":
        a = rng.choice(CUSTOM)
        args, text = (a,), options.string(rng, a)
    elif kind in ("contains", "lacks", "text_eq"):
        a = rng.choice(TEXTS) if rng.random() < .6 else prog.word(rng)
        args, text = (a,), options.string(rng, a)
    elif kind == "range":
        a = rng.choice(RANGES) if rng.random() < .3 else reference(rng)
        args, text = (a,), a
    else:
        items, texts = [], []
        for _ in range(rng.choice([1, 2, 3, 6])):
            r = rng.random()
            if r < .3:
                a = str(rng.choice([0, 1, 2, -3, 42, 10 ** 9]))
                s = a
            elif r < .4:
                a = s = rng.choice(["2.5", "-0.25", "10.125"])
            elif r < .7:
                a = s = rng.choice(ITEMS)
            elif r < .8:
                d, s = date(rng)
                a = d.isoformat()
            else:
                a = rng.choice(["a b", "foo", "x y z", "100%", "<b>", "é", "Sep 1", 'say "hi"', '"', "it's", "1.50", "TRUE", "=A1"]) if rng.random() < .6 else prog.word(rng)
                a = " ".join(a.replace(",", "").split())[:30].strip() or "a"
                s = options.quoted(rng, a)
            items.append(a)
            texts.append(s)
        args, text = tuple(items), " ".join(texts)
    t = rng.choice(["dv", "validate"]) + options.eq(rng) + t
    if text is not None:
        t += sp() + "(" + sp() + text + sp() + ")"
    return (kind, op, args), t


def same_reference(got, want):
    """Quotes around the name of a sheet may be there if they aren't needed"""
    def split(a):
        name, bang, r = a.rpartition("!")
        if name[:1] == "'" == name[-1:] and len(name) > 1:
            name = name[1:-1].replace("''", "'")
        elif re.fullmatch(r"(?i)[a-z]{1,3}[0-9]+|r[0-9]*c?[0-9]*|c[0-9]*|[0-9].*|.*[^\w].*", name):
            name = "needs quotes: " + name
        return name, bang, r
    w = split(want)
    return split(got) == (w[0].removeprefix("needs quotes: "),) + w[1:]


def serials(d):
    """What may be written for a date: the serial of Excel, or days since 1900-01-01 (known finding)"""
    return {str((d - datetime.date(1899, 12, 30)).days), str((d - datetime.date(1900, 1, 1)).days)}


def _formula(text, want):
    text = (text or "").strip()
    try:
        return lang.parse(text[1:] if text.startswith("=") else text) == lang.parse(want)
    except lang.BadFormula:
        return False


def mismatch(dv, address, rule):
    """None if the rule of a workbook is what `dv` demands for the cell at `address`"""
    kind, op, args = dv
    q = lambda s: '"' + s.replace('"', '""') + '"'
    if not rule["error"]:
        return "is not enforced"
    if kind in ("date", "date2", "num", "num2"):
        if rule["type"] != ("date" if kind.startswith("date") else "decimal") and not (kind.startswith("num") and rule["type"] == "whole"):
            return f"is of type {rule['type']}"
        if rule["op"] != op:
            return f"has the operator {rule['op']}, expected {op}"
        got = [rule["f1"], rule["f2"]][:len(args)]
        for a, g in zip(args, got):
            ok = serials(a) if kind.startswith("date") else {str(a)}
            if g not in ok:
                return f"has the operand {g}, expected {a}"
        if len(args) == 1 and rule["f2"] not in (None, ""):
            return f"has a second operand {rule['f2']}"
        if kind == "date2" and int(got[1]) - int(got[0]) != (args[1] - args[0]).days:
            return f"has the operands {got}, expected {args}"
        return None
    if kind == "list":
        if rule["type"] != "list":
            return f"is of type {rule['type']}"
        f = rule["f1"] or ""
        items = [s.strip() for s in f[1:-1].replace('""', '"').split(",")] if f[:1] == '"' == f[-1:] else None
        return None if items == list(args) else f"has the list {f!r}, expected {args}"
    if kind == "range":
        return None if rule["type"] == "list" and same_reference((rule["f1"] or "").lstrip("="), args[0]) else f"is {rule}, expected the range {args[0]}"
    if rule["type"] != "custom":
        return f"is of type {rule['type']}"
    if kind == "custom":
        return None if (rule["f1"] or "") == args[0] else f"has the formula {rule['f1']!r}, expected {args[0]!r}"
    want = {"is_date": lambda: f"ISNUMBER(DAY({address}))",
            "email": lambda: f'ISNUMBER(MATCH("*@*.?*", {address}, 0))',
            "url": lambda: f'RegExpMatch({address}, "^http")',
            "contains": lambda: f"ISNUMBER(SEARCH({q(args[0])}, {address}))",
            "lacks": lambda: f"NOT(ISNUMBER(SEARCH({q(args[0])}, {address})))",
            "text_eq": lambda: f"{address} = {q(args[0])}"}[kind]()
    return None if _formula(rule["f1"], want) else f"has the formula {rule['f1']!r}, expected {want!r}"


def judge(want, rules):
    """`want`: address -> dv; `rules`: of the sheet.  None or what is wrong."""
    got = {}
    for r in rules:
        for a in r["sqref"]:
            if ":" in a:
                return f"a rule for the range {a}: {r}"
            if a in got:
                return f"two rules for cell {a}: {got[a]} and {r}"
            got[a] = r
    if set(got) != set(want):
        return f"missing rules for {sorted(set(want) - set(got))[:6]}, unexpected ones for {sorted(set(got) - set(want))[:6]}"
    for a, dv in want.items():
        m = mismatch(dv, a, got[a])
        if m:
            return f"the rule of cell {a} {m} ({dv})"
    return None
