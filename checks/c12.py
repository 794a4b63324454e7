"""Every input ends in an output or a described error, promptly"""
import os, re, subprocess

import defs, lang, options, prog, sheets, validations, xlsx
from common import *
from options import Style
from prog import Cell, Names, Program, Row

ID = "C12"
CASES = {"quick": 8000, "thorough": 200000}
TIME = {"quick": 40, "thorough": 900}
RULE = ("A case is a hostile input: a valid program (with every kind of definition, option, validation and fill) after up to 12 mutations of its characters, tokens or bytes, one value at or beyond the limits of what an option, validation, formula or definition takes, a program cut short, a soup of tokens, random "
        "bytes or Unicode, long (up to 300 kB) or deeply nested (up to 300 levels) text, as the main source, as a module, as the existing output or as the values of the command line, with a target of either kind, or a random command line. The "
        "compiler has to end within 25 s with an output that can be read or with a message, and must not panic, abort or overflow the stack. Non-trivial: it is not a mere syntax error on the first token.")
ASSUMPTIONS = ["no fill of more than 5000 lines (known finding), no tower of definitions that doubles its size at each level",
               "no control characters which XML cannot hold in the name of an Excel sheet"]
MUST_SEE = ["compiled", "syntax error", "mutated", "limits", "cut", "soup", "random bytes", "unicode", "long", "nested", "module", "existing output", "command line", "real program", "excel", "not UTF-8"]

TOKENS = ["(", ")", ",", ":=", "fn", "use", "---", "[[", "]]", "![[", "=", "+", "-", "*", "/", "^", "&", "<", ">", "<=", ">=", "<>", "%", '"', "'", "\\", "\n", "\r\n", "#", " ", "\t", "a", "foo", "x", "A1", "B2:C3",
          "$A$1", "Sheet1!A1", "1", "0", "-5", "3.14", "99999999999999999999999999", "1e400", "true", "false", "TRUE", '"str"', '""', "fill=3", "f", "var=a", "v=a", "bold", "b", "t=b", "text=bold", "border=all", "b=a", "bc=red", "fc=#fff", "fontcolor=#12345",
          "halign=left", "ha=c", "nf=currency", "numberformat=x", "note=hi", "n='hi'", "n=''", "validate=date_after('1/1/2020')", "dv=in_list(1,2)", "dv=custom('=a')", "lock", "l", "ff=Arial", "fs=12", "fs=999999999999", "c=#", "é", "日本", "🎉", "\u200b",
          "\ufeff", "\u2028", "\0", "\x01", "\x7f", "\x85", "İ", "ﬁ", "e\u0301", "{", "}", "[", "]", "!", "?", "@", "~", "`", "|", ";", ":", ".", "_", "1:5", "A:A", "#REF!", "if", "sum(", "foo(1, 2)", "fn f(a, b) a + b\n", "x := 1\n", "use m\n", "a" * 50]
UNI = "\u00e9\u0301\u200d\u200b\ufeff\u2028\u2029\u0085\u00a0\u3000\u202e\U0001f468\U0001f3fd\U000e0001\ud7ff\ue000\uffff\U0010ffffİıßﬁΣςǅ\u1e9e\u0e33"


def base(rng):
    """A valid program that has a bit of everything"""
    pool = defs.pick_names(rng, rng.randint(0, 4))
    rows = sheets.with_vars(rng, sheets.shape(rng, 3, 3, inf=0.02, big=0.0), list(pool))
    functions, variables = defs.gen_defs(rng, rng.choice([0, 1, 2]), rng.choice([0, 1, 2]), 2, avoid=set(pool))
    if not defs.acyclic(functions, variables):
        functions, variables = {}, {}
    sheets.put_contents(rng, rows, Names(pool + list(variables), [(n, len(f[0])) for n, f in functions.items()]), 2)
    for r in rows:
        if rng.random() < 0.3:
            r.opts = options.gen(rng, rng.choice([1, 2]))[1]
        for c in r.cells:
            if rng.random() < 0.3:
                c.opts = options.gen(rng, rng.choice([1, 2, 3]))[1]
            if rng.random() < 0.15:
                c.opts = c.opts + [validations.one(rng)[1]]
    return prog.source(rng, Program(rows, functions, variables, uses=["m"] if rng.random() < .2 else []), code=rng.random() < .5)


def mutate(rng, s):
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 5, 12])):
        if not s:
            s = rng.choice(TOKENS)
        i = rng.randrange(len(s))
        j = min(len(s), i + rng.choice([1, 1, 1, 2, 3, 8, 30]))
        k = rng.random()
        if k < 0.2:
            s = s[:i] + s[j:]
        elif k < 0.5:
            s = s[:i] + rng.choice(TOKENS) + s[i:]
        elif k < 0.65:
            s = s[:i] + rng.choice(TOKENS) + s[j:]
        elif k < 0.75:
            s = s[:i] + s[i:j] * 2 + s[j:]
        elif k < 0.85:
            s = s[:i] + rng.choice(UNI + '"\'\\[](),=:#%!\n\r\t ') + s[j:]
        elif k < 0.9:
            s = s[:i]
        elif k < 0.95:
            a = rng.randrange(len(s))
            s = s[:i] + s[a:a + 20] + s[j:]
        else:
            s = s[i:]
    return s


def soup(rng):
    sep = rng.choice(["", " ", ""])
    t = sep.join(rng.choice(TOKENS) for _ in range(rng.choice([1, 2, 3, 5, 10, 30, 100])))
    if rng.random() < 0.4:
        t = sep.join(rng.choice(TOKENS) for _ in range(rng.randint(0, 8))) + "\n---\n" + t
    if rng.random() < 0.4:
        t = rng.choice(["=", "[[", "![[", "---\n=", "x := ", "fn f(", '"=']) + t
    return t


def nested(rng, module=False):
    # modules are read by threads with less stack (2 MB): see the finding on deep nesting
    n = rng.choice([10, 50, 100] if module else [10, 50, 100, 200, 300])
    e = rng.choice(["(" * n + "1" + ")" * n, "f(" * n + "1" + ")" * n, "1+" * n + "1", "1-(" * n + "1" + ")" * n, "(" * n, ")" * n, "-" * n + "1", "1" + "%" * n, "\"\"" * n, "f(" * n, "1^" * n + "1",
                    "f(1," * n + "1" + ")" * n, '"a"&' * n + '"b"', "," * n, "[[" * n, "]]" * n])
    w = rng.choice(["=%s", '"=%s"', "x := %s\n---\n=x", "fn f(a) %s\n---\n=f(1)", "[[n='%s']]x", "[[dv=custom('%s')]]x", "%s", "x := %s\n---\n=x+x", "---\n%s"])
    return w.replace("%s", e if '"' not in w else e.replace('"', '""'))


def long_text(rng):
    n = rng.choice([1000, 10000, 30000])
    k = rng.randrange(14)
    return [lambda: "a" * n * 5, lambda: "a," * n, lambda: "a\n" * (n // 4), lambda: '"' + "x\n" * n + '"', lambda: '"' + '""' * n + '"', lambda: "\\\n" * (n // 10) + "a", lambda: "x" + "\\\n" * (n // 20) + "y",
            lambda: "# c\n" * n + "a", lambda: "=" + "a" * n, lambda: '="' + "b" * n + '"', lambda: "[[n='" + "c" * n + "']]x", lambda: "".join(f"v{i} := {i}\n" for i in range(n // 40)) + "---\n=v1",
            lambda: "\n" * n + "a", lambda: "=" + "9" * n][k]()


def rand_bytes(rng):
    k = rng.random()
    n = rng.choice([1, 5, 20, 200, 3000])
    if k < 0.4:
        return rng.randbytes(n)
    if k < 0.6:
        b = bytearray(base(rng).encode())
        for _ in range(rng.choice([1, 3])):
            b[rng.randrange(len(b))] = rng.choice([0xff, 0xc0, 0x80, 0xed, 0xf4, 0, rng.randrange(256)])
        return bytes(b)
    if k < 0.8:
        return bytes(rng.choice(b'"\\,\n\r[]=#! ()a') for _ in range(n))
    return rng.choice([b"\xef\xbb\xbfa,b\n", "a,b\n".encode("utf-16"), b"\xff\xfea", b"a\0b", b"\xf0\x9f\x8e", b"\r\n\r\n", b"\r\r\r", b"\x1b[31m"])


def unicode(rng):
    n = rng.choice([1, 3, 10, 40])
    t = "".join(rng.choice(UNI) if rng.random() < .5 else rng.choice(["=", "(", ")", "\"", ",", "[[", "]]", "a", " ", "\n", "1", "+", ":="]) for _ in range(n))
    return rng.choice(["", "=", "[[", "[[var=", "[[n='", "x := ", "fn ", "![[fill=", "use ", "[[fc=", "[[dv=", "=\"", "\"=", "# "]) + t


def too_big(s):
    """Things that are known, or meant, to take long"""
    if isinstance(s, bytes):
        s = s.decode("utf-8", "replace")
    s = s.replace("\\\n", "")
    return any(len(m) > 4 or int(m) > 5000 for m in re.findall(r"(?i)[fl]\s*=\s*\+?0*(\d{4,})", s))


def odd_xml(s):
    if isinstance(s, bytes):
        s = s.decode("utf-8", "replace")
    return bool(re.search("[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]", s))


FLAGS = ["-o", "--output-filename", "-k", "--key-values", "-n", "--sheet-name", "-b", "--backup", "-s", "--safe", "-v", "--verbose", "--no-cache", "-x", "--x-offset", "-y", "--y-offset", "-g", "--google-sheet-id", "-V", "--version", "-h", "--help",
         "--nonsense", "-z", "--", "-", "", "-o=out.csv", "--output-filename=o.csv", "-vvv", "-bs", "-so", "-n=", "--sheet-name="]
VALUES = ["out.csv", "out.xlsx", "out.ods", "out.txt", "out", ".csv", "", ".", "..", "/", "nodir/out.csv", "dir", "in.csvpp", "prog.csvpp", "a=1", "a==", "=1", "a", "a=", "a=b=c", "é=1", "a=(", "1", "-1", "99999999999999999999", "0", "x y", "🎉", "a" * 300, "[]:*?/\\", "out.CSV", "out.csv.bak", "'", "\n"]


def cmdline(rng):
    a = []
    plain = rng.random() < 0.5
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8]) if not plain else rng.choice([0, 1, 2])):
        a.append(rng.choice(FLAGS if not plain else ["-b", "-s", "-v", "-vv", "--backup", "--safe", "--no-cache"]) if rng.random() < .5 else rng.choice(VALUES) if not plain else rng.choice(["-s", "--sheet-name=" + rng.choice(VALUES)]))
    if rng.random() < 0.6:
        at = rng.randint(0, len(a))
        a[at:at] = ["-o", rng.choice(["out.csv", "out.xlsx"]), "--no-cache"]
    if rng.random() < 0.7:
        a.insert(rng.randint(0, len(a)), "prog.csvpp")
    # nothing that talks to Google
    return [x for x in a if x not in ("-g", "--google-sheet-id")]


NUMBERS = ["0", "1", "-1", "+1", "9", "10", "99", "100", "127", "128", "254", "255", "256", "257", "300", "511", "512", "999", "1000", "1001", "4096", "32767", "32768", "65535", "65536", "70000", "999999", "2147483647", "2147483648", "4294967295", "4294967296",
           "9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999", "340282366920938463463374607431768211456", "1" + "0" * 60, "1" + "0" * 400,
           "0.1", "1.", "1.5", ".5", "-.5", "1..5", "1.5.5", "--1", "-", ".", "00", "007", "-0", "1e5", "1e400", "0x10", "1_000", "1,000", "\u0661", "\u00b2", "1\u00e9", "", " ", "1 2", "NaN", "inf"]
DATES = ["2020-01-01", "2020-02-29", "2021-02-29", "2020-13-01", "2020-00-00", "0000-00-00", "0000-01-01", "0001-01-01", "9999-12-31", "9999-99-99", "99999-01-01", "1899-12-31", "1900-01-01", "1/1/2020", "1/1/20", "12/31/9999", "13/13/2020", "2/30/2020", "1/1/202", "01/01/0000",
         "1/1/1", "0/0/00", "111/1/2020", "2020-1-1", "20-01-01", "2020/01/01", "2020-01-01 10:00", "10:00", "10:00:00", "25:61", "1-1-2020", "\u0661\u0660/1/2020", "2020-01-0\u0661", "", "today"]
COLOURS = ["#" + "a" * k for k in range(9)] + ["a" * k for k in range(1, 9)] + ["#fff", "FFFFFF", "##fff", "#ff#", "#ggg", "zzz", "gg0000", "#\u00e9\u00e9\u00e9", "\u00e9a", "\u00e91", "a\u00e9", "ab\u00e9", "\u00e9abcd", "abcd\u00e9", "\u65e5", "\u65e5\u672c", "\u65e5abc", "#\u65e5", "#a\u00e9b", "\u0661\u0661\u0661",
                                                                              "+11", "-11", "+1+1+1", "f f f", "'fff'"]
CELLS = ["A1", "A0", "a1", "A", "1", "A1:B2", "B2:A1", "A1:", ":A1", ":", "A:A", "1:1", "A:1", "1:A", "A1:B", "A1:2", "A:B2", "$A$1", "$A", "$$A1", "A$", "A1$", "XFD1048576", "XFE1", "ZZZ1", "AAAA1", "A99999999", "A99999999999999999999999", "ZZZZZZZZZZZZZZZ1", "Sheet!A1", "!A1", "Sheet!", "'a b'!A1", "'a'b'!A1",
         "'a'!A1", "'\u00e9'!A1", "'\u00e9 b'!A1:B2", "\u00e9!A1", "''!A1", "'!A1", "'a!A1", "A1!A1", "a!b!A1", "A1:B2:C3", "\u0661\u0661", "\u00c91", "A\u0661", "A1:\u00c92", ""]
TEXTS = ["'a'", "''", "'", ", '", "'a", "a'", "'\\''", "'\\", "'\\'", "'a''b'", "a b", "'a\\\\'", "'\u00e9'", "'\u00e9", "'a\\\u00e9'", "\u00e9", "'\n'", "'a]]b'", "]]", "'" + "x" * 300 + "'", "'" + "x" * 40000 + "'", "(", ")", "')'", "1", ""]
SIZES = [n for n in NUMBERS if len(n) < 5 or not n.isdigit() or int(n) > 10 ** 25]


def limits(rng):
    """A value at, or beyond, the limits of what an option, a validation, a formula or a definition takes"""
    n, d, c, a, t = (rng.choice(x) for x in (NUMBERS, DATES, COLOURS, CELLS, TEXTS))
    m, e = rng.choice(NUMBERS), rng.choice(DATES)
    nums = ["num_btwn", "num_eq", "num_gt", "num_gte", "num_lt", "num_lte", "num_nbtwn", "num_neq", "number_between", "number_equal_to", "number_not_between"]
    dates = ["date_gt", "date_lt", "date_btwn", "date_eq", "date_nbtwn", "date_gte", "date_lte", "date_after", "date_between"]
    texts = ["custom", "c", "text_contains", "text_does_not_contain", "text_eq"]
    k = rng.randrange(12)
    inner = [f"fs={n}", f"{rng.choice(['c', 'bc', 'fc'])}={c}", f"{rng.choice(['n', 'ff'])}={t}", f"{rng.choice(['v', 'var'])}={rng.choice(NUMBERS + CELLS + TEXTS)}",
             f"dv={rng.choice(nums)}({rng.choice([n, n + ' ' + m])})", f"dv={rng.choice(dates)}({rng.choice([d, d + ' ' + e])})", f"dv={rng.choice(texts)}({t})", f"dv=in_range({a})",
             "dv=in_list(" + " ".join(rng.choice(rng.choice([NUMBERS, DATES, TEXTS, CELLS])) for _ in range(rng.choice([0, 1, 2, 2, 3]))) + ")", f"dv={rng.choice(['is_date', 'is_email', 'is_url', 'c', 'date_is_valid'])}{rng.choice(['', '()', '(', '(1)'])}"][min(k, 9)]
    if k < 9 and rng.random() < 0.1:
        inner = inner[:rng.randrange(1, len(inner))]
    s = "[[" + inner + rng.choice(["]]", "]]", "]]", " t=b]]", "", "]"]) + rng.choice(["", "x", "=1"])
    if k >= 10:
        n = rng.choice([n, "-" + n, n + "%", n + "%%", a, f'"{t}', n + m, n + " " + m, n + ":" + m, n + "(", a + "(" + n + ")", "-" + a, a + "%", f"{n}*{m}", f"f({n},{m})"])
        s = rng.choice(["=%s", "=%s + 1", "=f(%s)", "=f(1, %s)"]) % n
    if rng.random() < 0.1:
        s = f"![[{rng.choice(['f', 'fill'])}={rng.choice(SIZES)}]]" + s
    elif rng.random() < 0.2:
        s = "!" + s
    if rng.random() < 0.3 or ("," in s and rng.random() < 0.7):
        s = '"' + s.replace('"', '""') + rng.choice(['"', '"', '"', "", "\n\n\"", "\n\n"])
    s = rng.choice(["", "", "a\n", "x := 1\n---\n", "\n\n"]) + s + rng.choice(["", "\n", ",b\n", "\n\n", "\r\n"])
    if k >= 10 and rng.random() < 0.5:
        s = rng.choice([f"x := {n}", f"fn f({a}) {n}", f"fn f(a) {n}", f"x := 1 + {n}\ny := 2", f"use {rng.choice(CELLS + NUMBERS)}"]) + rng.choice(["\n---\n", "\n---", "\n---\n=x,=f(1)", "", "\n", "\n\n\n---\na"])
    return s


def cut(rng):
    """A valid program which ends early, with a few line ends"""
    s = base(rng)
    if rng.random() < 0.5 and "[[" in s:
        i = s.index("[[", rng.randrange(s.rindex("[[") + 1)) + rng.randrange(30)
    else:
        i = rng.randrange(len(s) + 1)
    return s[:i] + rng.choice(["", "\n", "\n\n", "\n\n\n\n", '"', '"\n\n', "\r\n", '\n\n"', "(", '("', "\n---", "\n---\n"])


def judge(ctx, r, out, what):
    if r.get("panic"):
        raise Violation(f"{what}: {failed(r)}")
    if r.get("ok"):
        d = ctx.get(out)
        if d is None:
            raise Violation(f"{what}: succeeded without an output")
        if out.endswith(".xlsx"):
            read_xlsx(ctx, out)
        elif out.endswith(".csv"):
            read_csv(ctx, out)
        return "compiled"
    if not (r.get("error") or "").strip():
        raise Violation(f"{what}: an error without a message")
    e = r["error"]
    return "syntax error" if "yntax error" in e else "other error"


def case(ctx, rng, i):
    r = rng.random()
    out = "out.xlsx" if rng.random() < 0.25 else "out.csv"
    extra = []
    if r < 0.1:
        a = cmdline(rng)
        ctx.fresh({"prog.csvpp": base(rng) if rng.random() < .5 else "a,b\n", "m.csvpp": "m_ := 1\n---\n"})
        os.mkdir(os.path.join(ctx.dir, "dir"))
        if rng.random() < 0.25:
            p = subprocess.run([ctx.bins["cli"]] + [x.replace("\0", "") for x in a], cwd=ctx.dir, stdin=subprocess.DEVNULL, capture_output=True, timeout=60,
                               env={"HOME": "/nonexistent", "PATH": "/usr/bin:/bin", "NO_COLOR": "1"})
            ctx.history.append({"real program": a, "status": p.returncode})
            if p.returncode < 0 or p.returncode == 101 or b"panicked" in p.stderr:
                raise Violation(f"the program ends with {p.returncode}: {p.stderr[-600:]!r}")
            if p.returncode != 0 and not (p.stderr + p.stdout).strip():
                raise Violation(f"the program ends with {p.returncode} and says nothing")
            return Case(a, True, ["real program", "command line"], {"argv": a, "status": p.returncode})
        x = ctx.run(*a)
        if x.get("panic"):
            raise Violation(failed(x))
        if not x.get("ok") and not (x.get("error") or "").strip():
            raise Violation("an error without a message")
        return Case(a, True, ["command line", "command line accepted" if x.get("ok") else "command line rejected"], {"argv": a})
    if r < 0.3:
        src, kind = mutate(rng, base(rng)), "mutated"
    elif r < 0.4:
        src, kind = limits(rng), "limits"
    elif r < 0.45:
        src, kind = cut(rng), "cut"
    elif r < 0.6:
        src, kind = soup(rng), "soup"
    elif r < 0.7:
        src, kind = rand_bytes(rng), "random bytes"
    elif r < 0.82:
        src, kind = unicode(rng), "unicode"
    elif r < 0.87:
        src, kind = nested(rng), "nested"
    elif r < 0.885:
        src, kind = long_text(rng), "long"
    elif r < 0.92:
        src, kind = "a,=key_,=b + key_,[[var=c]]d\n", "values"
        extra = ["-k"] + [(f"key_={mutate(rng, lang.Speller(rng).expr(prog.gen_expr(rng, 2, Names())))}" if rng.random() < .6 else mutate(rng, "key_=1") if rng.random() < .5 else "key_=" + rng.choice(["", "(", "1 + ", "f(", "f(1,", "1 1", "-", "\"a", "1 +", "#", "(1"]) + rng.choice(["", "\n", "\n\n", "\n\n\n)"])).replace("\0", "") for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.4:
            extra = ["-n", mutate(rng, rng.choice(["Sheet", "data", "a" * 31])).replace("\0", "")]
    else:
        src, kind = base(rng), "valid"
    as_module = kind != "values" and rng.random() < 0.12
    if as_module and kind == "nested":
        src = nested(rng, True)
    if isinstance(src, str):
        src = src.encode("utf-8", "replace")
    if too_big(src):
        return Case(src, False)
    files = {"prog.csvpp": src, "m.csvpp": "m_ := 1\n---\n"}
    if as_module:
        files = {"prog.csvpp": "use m\n---\n=m_,b\n", "m.csvpp": src}
        seen = ["module", kind]
    else:
        seen = [kind]
    if kind == "valid" or rng.random() < 0.05:
        k = rng.random()
        g = rand_bytes(rng) if k < .4 else soup(rng) if k < .6 else mutate(rng, "a,b\n1,\"x\"\n") if k < .8 else b"PK\x03\x04" + rng.randbytes(100)
        files[out] = g.encode("utf-8", "replace") if isinstance(g, str) else g
        seen.append("existing output")
        if rng.random() < 0.4:
            extra += [rng.choice(["-s", "--safe"])]
    if out.endswith(".xlsx") and extra[:1] == ["-n"] and odd_xml(extra[1]):
        out = "out.csv"
        files.pop("out.xlsx", None)
    try:
        src.decode()
    except UnicodeDecodeError:
        seen.append("not UTF-8")
    ctx.fresh(files)
    run = ctx.run("-o", out, "--no-cache", "prog.csvpp", *extra)
    how = judge(ctx, run, out, f"{kind} input")
    seen += [how] + (["excel"] if out.endswith("x") else [])
    deep = how == "compiled" or "1" not in re.findall(r"On line (\d+)", run["error"])
    return Case((src, extra), deep, seen, {"input": repr(src)[:300], "result": how})


def deep_nesting(ctx):
    ctx.fresh({"prog.csvpp": "=" + "(" * 20000 + "1" + ")" * 20000 + "\n"})
    judge(ctx, ctx.run("-o", "out.csv", "--no-cache", "prog.csvpp"), "out.csv", "a formula with 20000 levels of parentheses")


def huge_fill(ctx):
    ctx.fresh({"prog.csvpp": "![[fill=4000000000]]a,b\n"})
    judge(ctx, ctx.run("-o", "out.csv", "--no-cache", "prog.csvpp"), "out.csv", "a fill of 4000000000 lines")


FIXED = {"deep-nesting": deep_nesting, "huge-fill": huge_fill}
