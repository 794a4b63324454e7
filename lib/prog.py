"""Generates csv++ programs with a known meaning: what every cell of the compiled spreadsheet has to
contain is computed from the program's structure, never from the text that is fed to the compiler."""
import re

import lang, xlsx
from lang import num

# ------------------------------------------------------------------------------------- pools

BUILTINS = ["SUM", "AVERAGE", "IF", "MAX", "MIN", "VLOOKUP", "INDEX", "MATCH", "CONCATENATE", "ROUND",
            "STDEV.S", "NORM.DIST", "NETWORKDAYS.INTL", "COUNTIF", "ARRAYFORMULA", "RAND", "celladjacent", "rowabove", "to_dollars",
            "today", "Foo_Bar", "f2", "ISNUMBER", "CHISQ.TEST", "query", "F.DIST.RT"]
NAMES = ["a", "ab", "abc", "a_b", "foo", "Foo", "FOO", "food", "bar", "bar2", "total", "Total", "totals", "sub_total",
         "tax", "tax_rate", "rate", "profit", "x", "y", "z", "n", "value", "values", "use_tax", "user", "used", "fnord",
         "fn_total", "function", "truest", "true_value", "falsey", "false_x", "if", "not", "and_", "prix", "größe", "合計",
         "été", "naïve_x", "_hidden", "__x__", "camelCase", "snake_case_name", "v1", "v10", "v11", "p", "q", "r", "s", "t",
         "longer_name_than_the_others_have", "price", "quantity", "fees", "commission", "e1", "row", "cell", "var", "fill", "i", "j"]
FREE = ["undefined_thing", "NamedRange", "other", "Data", "my_range", "Q1", "unknown_1", "Ünknown"]
WORDS = ["apple", "Banana", "total", "x", "N/A", "hello world", "foo", "é", "日本語", "naïve café", "Ωμέγα", "🎉 party", "שלום",
         "a-b", "3.14", "42", "007", "-5", "+1", "1,000", "$5.00", "50%", "TRUE", "false", "2024-01-31", "12/31/99", "10:30 PM",
         "user@example.com", "http://example.com/a?b=c#d", "it's", 'say "hi"', '"', '""', "a\"b", "back\\slash", "c:\\dir", "\\n",
         "tab\there", "multi\nline", "two\n\nblank", "semi;colon", "pipe|d", "a,b", ",", ",,", "comma, space", "[x]", "]]", "]] y", "[ [",
         "a [[b]]", "!", "!x", "#hash", "# not a comment", "#REF!", "a = b", "x=1", "a=", "(paren", "{brace}", "<tag>&amp;", "'single'", "`tick`",
         "~", "@", "@x", "^", "&", "*", "-", "--", "--- x", "---", "----", "...", "/", "//", "a/b", ":=", "x := 1", "fn foo() 1", "use foo", "null", "NaN", "1e5",
         "0", "0.0", "00", "1.50", "1.", ".5", "9007199254740993", "123456789012345678901234567890", "\u200bzw", "e\u0301", "ﬁ", "İ", "ß",
         "\U0001f468\u200d\U0001f469\u200d\U0001f467", "a" * 300, "\u00a0x\u00a0y", "quote at end\"", "\\", "\\\\", "trailing\\", "%", "%s{}", "$1", "a\u2028b"]


def word(rng, excel=False):
    r = rng.random()
    if r < 0.7:
        w = rng.choice(WORDS)
    elif r < 0.9:
        w = "".join(rng.choice("abcXYZ019 _-.,;:!?\"'#=[]()/\\éß日🎉\t") for _ in range(rng.randint(1, 14)))
    else:
        w = " ".join(rng.choice(WORDS) for _ in range(rng.randint(2, 4)))
    w = w.strip()
    # what would be an option or a formula
    while w.startswith(("[[", "![[", "=")):
        w = w[1:].strip()
    return w or "w"


def simple_word(rng):
    return rng.choice(["alpha", "beta", "gamma delta", "x", "42", "3.5", "é", "日本", "a-b", "it's", "Q1 2024", "foo", "bar", "baz"]) + rng.choice(["", "", str(rng.randrange(100))])


def gen_ref(rng):
    c, n = xlsx.col(rng.choice([0, 1, 2, 3, 5, 25, 26, 30, 701, 702, 16383, rng.randrange(16384)])), rng.choice([1, 2, 3, 7, 10, 99, 100, 1000, 1048576, rng.randrange(1, 10 ** 6)])
    e, m = xlsx.col(rng.choice([0, 2, 25, 26, 40, 800, rng.randrange(16384)])), n + rng.choice([0, 1, 5, 20])
    d = lambda: "$" if rng.random() < .25 else ""
    r = rng.random()
    if r < 0.45:
        a = f"{c}{n}"
    elif r < 0.6:
        a = rng.choice([f"${c}${n}", f"${c}{n}", f"{c}${n}"])
    elif r < 0.82:
        a = f"{c}{n}:{e}{m}"
    elif r < 0.88:
        a = f"{c}:{rng.choice([c, e])}"
    else:
        a = rng.choice([f"{d()}{c}{d()}{n}:{d()}{e}{d()}{m}", f"${c}:${e}", f"${c}:{e}"])
    return (rng.choice(["Sheet1!", "Sheet2!", "Data!", "My_Data2!"]) if rng.random() < .1 else "") + a


def gen_num(rng, signed=True):
    r = rng.random()
    if r < 0.6:
        d = str(rng.choice([0, 1, 2, 3, 5, 7, 10, 42, 100, 365, 1000, 65536, 2 ** 31, 10 ** 12, 2 ** 53 + 1, 2 ** 63 - 1, rng.randrange(10 ** 6)]))
    else:
        d = f"{rng.randrange(1000)}.{rng.choice(['5', '25', '125', '01', '001', '99', '333333', '000001', '1234567', str(rng.randrange(1, 100000))])}"
    s = rng.choice(["", "", "", "", "-", "-", "+"]) if signed else ""
    return num(d, s, rng.random() < 0.1)


STRINGS = ["", " ", "foo", "a b", "x,y", "#hash", "é 日本", "[[x]]", "it's", "1 + 2", "=A1", "(", ")", "a&b", "<b>", "%", "\\", "total", "a", "foo(1)", "tab\t", "; | ,", "---", "true", "🎉", "http://x/?a=b"]


class Names:
    """What an expression may refer to."""

    def __init__(self, refs=(), calls=(), undefined=True):
        self.refs, self.calls, self.undefined = list(refs), list(calls), undefined


def gen_expr(rng, depth, names, p_name=0.35):
    """names.calls: [(name, arity)]"""
    r = rng.random()
    if depth <= 0 or r < 0.22:
        r = rng.random()
        if names.refs and r < p_name:
            return ("ref", rng.choice(names.refs))
        if r < 0.6:
            return gen_num(rng)
        if r < 0.8:
            return ("ref", gen_ref(rng))
        if r < 0.9:
            return ("str", rng.choice(STRINGS))
        if r < 0.95 or not names.undefined:
            return ("bool", rng.random() < 0.5)
        return ("ref", rng.choice(FREE))
    if r < 0.55:
        if names.calls and rng.random() < 0.6:
            n, k = rng.choice(names.calls)
            return ("call", n, tuple(gen_expr(rng, depth - 1, names, p_name) for _ in range(k)))
        k = rng.choice([0, 1, 1, 2, 2, 3, 4])
        args = [gen_expr(rng, depth - 1, names, p_name) for _ in range(k)]
        if k >= 2 and rng.random() < 0.12:
            args[rng.randrange(k)] = ("omit",)
        return ("call", rng.choice(BUILTINS), tuple(args))
    op = rng.choice(["+", "-", "*", "/", "^", "&", "=", "<", ">", "<=", ">=", "<>", "+", "*", "&", "-"])
    return ("bin", op, gen_expr(rng, depth - 1, names, p_name), gen_expr(rng, depth - 1, names, p_name))


# ------------------------------------------------------------------------------------- model

class Cell:
    def __init__(self, content=None, var=None, opts=(), style=None):
        self.content = content          # None | ("text", s) | ("formula", expr)
        self.var = var
        self.opts = list(opts)          # option texts, without the variable
        self.style = style              # what the options mean, see options.py


class Row:
    def __init__(self, cells, var=None, fill=None, opts=()):
        self.cells, self.var, self.fill, self.opts = cells, var, fill, list(opts)   # fill: None | n | "inf"


class Program:
    def __init__(self, rows, functions=None, variables=None, uses=(), kv=None, imported=None):
        self.rows = rows
        self.functions = {} if functions is None else functions
        self.variables = {} if variables is None else variables
        self.uses, self.kv = list(uses), kv or {}
        self.imported = imported        # lang.Scope of what the used modules export

    # -- meaning

    def layout(self):
        """[(row, first output row, number of output rows)]"""
        fixed = sum(1 if r.fill is None else 0 if r.fill == "inf" else r.fill for r in self.rows)
        out, at = [], 0
        for r in self.rows:
            n = 1 if r.fill is None else max(0, 1000 - fixed) if r.fill == "inf" else r.fill
            out.append((r, at, n))
            at += n
        return out

    def scope(self):
        v = dict(self.kv)
        for row, at, n in self.layout():
            filled = row.fill is not None
            if n == 0:
                continue
            if row.var:
                v[row.var] = _row_var(at, n, filled)
            for x, c in enumerate(row.cells):
                if c.var:
                    v[c.var] = _cell_var(x, at, n, filled)
        f = {}
        if self.imported:
            v.update(self.imported.variables)
            f.update(self.imported.functions)
        v.update(self.variables)
        f.update(self.functions)
        return lang.Scope(f, v)

    def expected(self):
        """The compiled grid: rows of None | ("text", s) | ("formula", expr), with the cells they
        come from."""
        sc = self.scope()
        grid = []
        for row, at, n in self.layout():
            for k in range(n):
                line = []
                for x, c in enumerate(row.cells):
                    v = c.content
                    if v and v[0] == "formula":
                        v = ("formula", sc.expand(v[1], (x, at + k)))
                    line.append((v, c))
                grid.append(line)
        return grid


def _row_var(at, n, filled):
    def f(pos):
        if not filled:
            return ("ref", f"{at + 1}:{at + 1}")
        if at <= pos[1] < at + n:
            return ("ref", f"{pos[1] + 1}:{pos[1] + 1}")
        return ("ref", f"{at + 1}:{at + n}")
    return f


def _cell_var(x, at, n, filled):
    def f(pos):
        if not filled:
            return ("ref", xlsx.a1(x, at))
        if at <= pos[1] < at + n:
            return ("ref", xlsx.a1(x, pos[1]))
        return ("ref", f"{xlsx.a1(x, at)}:{xlsx.a1(x, at + n - 1)}")
    return f


# ------------------------------------------------------------------------------------- spelling

def quote(rng, s):
    t = '"' + s.replace('"', '""') + '"'
    if rng.random() < 0.15:
        t = rng.choice([" ", "  ", "\t"]) + t
    if rng.random() < 0.15:
        t += rng.choice([" ", "  "])
    return t


def field(rng, s, first, last, crlf, fancy=True, dashes=False):
    """One spelling of a field whose (trimmed) value is `s`; `first`/`last`: of its record;
    `dashes`: a line with only `---` is nothing special (there was one before)."""
    bare_ok = (s and "," not in s and "\n" not in s and not s.startswith('"')
               and not (first and s[0] == "#") and not s.endswith("\\") and (dashes or s != "---" or not (first and last)))
    if not s:
        return '""' if fancy and rng.random() < .15 else ""
    if not bare_ok or (fancy and rng.random() < 0.25):
        q = quote(rng, s) if fancy else '"' + s.replace('"', '""') + '"'
        if fancy and rng.random() < 0.1 and "\n" not in s:
            q = q.replace('"', '" ', 1) if q.startswith('"') else q     # padding inside of the quotes
        return q
    t = s
    if fancy and not crlf and len(t) > 1 and (dashes or "---" not in t) and rng.random() < 0.12:
        i = rng.randrange(1, len(t))
        # an escaped newline continues the line
        if not (t[:i].endswith("\\")):
            t = t[:i] + "\\\n" + t[i:]
    if fancy and rng.random() < 0.2:
        t = rng.choice([" ", "  ", "\t"]) + t
    if fancy and rng.random() < 0.2:
        t += rng.choice([" ", "   ", "\t"])
    return t


def csv_text(rng, records, fancy=True, comments=True, crlf=None, dashes=False):
    """Source text of the records (lists of trimmed field values)."""
    crlf = (rng.random() < 0.1 if fancy else False) if crlf is None else crlf
    eol = "\r\n" if crlf else "\n"
    out = []
    for n, rec in enumerate(records):
        if fancy and comments and rng.random() < 0.08:
            out.append(rng.choice(["# a comment", "#", '# "quotes, commas" = [[x', "#=1,2", "# ---"]) + eol)
        fs = [field(rng, s, i == 0, i == len(rec) - 1, crlf, fancy, dashes) for i, s in enumerate(rec)]
        # blank lines before the first record don't count, and an empty field at the very end of the
        # file isn't seen (a known finding)
        if not fs[-1] and ((n == 0 and len(fs) == 1) or n == len(records) - 1):
            fs[-1] = '""'
        out.append(",".join(fs) + eol)
    text = "".join(out)
    if fancy and rng.random() < 0.15:
        text = eol.replace("\r", "") * rng.randint(1, 2) + text
    if fancy and rng.random() < 0.2 and not text.endswith('\\' + eol):
        text = text[:-len(eol)]
    return text


def code_text(rng, prog, fancy=True):
    sp = lang.Speller(rng, plain=not fancy, newlines=fancy)
    defs = []
    for name, e in prog.variables.items():
        defs.append(f"{name}{rng.choice([' ', '  ', chr(9)]) if fancy else ' '}:={rng.choice([' ', '', '  ', chr(10)]) if fancy else ' '}{sp.expr(e)}")
    for name, (ps, body) in prog.functions.items():
        args = ("," + (" " if not fancy or rng.random() < .6 else "")).join(ps)
        gap = rng.choice([" ", " ", "  ", "\n", "\n  "]) if fancy else " "
        defs.append(f"fn {'  ' if fancy and rng.random() < .1 else ''}{name}{' ' if fancy and rng.random() < .1 else ''}({args}){gap}{sp.expr(body)}")
    rng.shuffle(defs)
    uses = [f"use {u}" for u in prog.uses]
    if fancy and rng.random() < 0.2:
        for u in uses:
            defs.insert(rng.randrange(len(defs) + 1), u)
    else:
        defs = uses + defs
    out = []
    for d in defs:
        if fancy and rng.random() < 0.1:
            out.append(rng.choice(["# comment", "#", "# x := 1", "# fn f(", "  # use nothing", "# \"unbalanced"]))
        if fancy and rng.random() < 0.1:
            out.append(rng.choice(["", "   "]))
        if fancy and rng.random() < 0.08 and '"' not in d:
            d += rng.choice(["  # trailing", " #"])
        if fancy and out and rng.random() < 0.04 and "#" not in out[-1]:
            out[-1] += " " + d
        else:
            out.append(("  " if fancy and rng.random() < 0.05 else "") + d)
    return "\n".join(out)


def cell_value(rng, c, row=None, fancy=True):
    """The value of the field for a cell; `row` when it is the first one of a row."""
    t = ""
    if row is not None:
        opts = list(row.opts)
        if row.fill is not None:
            opts.insert(rng.randint(0, len(opts)), rng.choice(["fill", "f"]) + ("" if row.fill == "inf" else f"={row.fill}"))
        if row.var:
            opts.insert(rng.randint(0, len(opts)), f"{rng.choice(['var', 'v'])}={row.var}")
        if opts:
            t += "![[" + join_opts(rng, opts, fancy) + "]]"
    opts = list(c.opts)
    if c.var:
        opts.insert(rng.randrange(len(opts) + 1), f"{rng.choice(['var', 'v'])}={c.var}")
    if opts:
        if t and fancy and rng.random() < .3:
            t += " "
        t += "[[" + join_opts(rng, opts, fancy) + "]]"
    if c.content is None:
        return t
    if t and fancy and rng.random() < .3:
        t += " "
    if c.content[0] == "text":
        return t + c.content[1]
    sp = lang.Speller(rng, plain=not fancy)
    return t + "=" + (" " if fancy and rng.random() < .05 else "") + sp.expr(c.content[1])


def join_opts(rng, opts, fancy):
    t = opts[0]
    for o in opts[1:]:
        t += (rng.choice([" ", " ", " ", "  ", "\t", "/", " / "]) if fancy else " ") + o
    if fancy and rng.random() < 0.08:
        t = " " + t + " "
    return t


def source(rng, prog, fancy=True, code=None):
    """Source text of the program; `code`: with a code section, even if it is empty"""
    recs = [[cell_value(rng, c, row if i == 0 else None, fancy).strip() for i, c in enumerate(row.cells)] for row in prog.rows]
    code = bool(prog.functions or prog.variables or prog.uses or code)
    csv = csv_text(rng, recs, fancy, dashes=code)
    if code:
        sep = rng.choice(["---", "---", "---", " ---", "---  "]) if fancy else "---"
        c = code_text(rng, prog, fancy)
        return (c + "\n" if c else "") + sep + "\n" + csv
    return csv


# ------------------------------------------------------------------------------------- judging

def norm_ref(e):
    """B2:B2 is B2"""
    if e[0] == "ref":
        m = re.fullmatch(r"([A-Z]+\d+):\1", e[1])
        return ("ref", m[1]) if m else e
    if e[0] == "call":
        return ("call", e[1], tuple(norm_ref(a) for a in e[2]))
    if e[0] == "bin":
        return ("bin", e[1], norm_ref(e[2]), norm_ref(e[3]))
    return e


def same_formula(e, text):
    return lang.canon(norm_ref(lang.parse(text))) == lang.canon(norm_ref(e))


def text_mismatch(v, got):
    """None if `got` (a CSV field) is what the expected value `v` looks like, otherwise why not"""
    if v is None:
        return None if got == "" else f"expected an empty cell, got {got!r}"
    if v[0] == "text":
        return None if got == v[1] else f"expected the text {v[1]!r}, got {got!r}"
    if not got.startswith("="):
        return f"expected the formula ={lang.show(v[1])}, got {got!r}"
    try:
        if same_formula(v[1], got[1:]):
            return None
    except lang.BadFormula as e:
        return f"expected the formula ={lang.show(v[1])}, got {got!r} ({e})"
    return f"expected the formula ={lang.show(v[1])}, got {got!r}"


def csv_rows(data):
    import csv, io
    csv.field_size_limit(1 << 30)
    return list(csv.reader(io.StringIO(data.decode("utf-8"), newline="")))


def compare_csv(grid, data, offset=0):
    """None or why the CSV file isn't the expected grid"""
    rows = csv_rows(data)
    width = max((len(r) for r in grid), default=0)
    if len(rows) != len(grid):
        return f"expected {len(grid)} rows, got {len(rows)}: {rows[:6]!r}"
    for y, (line, got) in enumerate(zip(grid, rows)):
        if len(got) != width:
            return f"row {y + 1} has {len(got)} cells, the widest one of the program has {width}"
        for x in range(width):
            m = text_mismatch(line[x][0] if x < len(line) else None, got[x])
            if m:
                return f"cell {xlsx.a1(x, y)}: {m}"
    return None


def excel_mismatch(v, c):
    """None if the cell `c` of a workbook (or None) holds the expected value `v`"""
    if v is None:
        return None if c is None or (c["kind"] == "s" and c["value"] == "") else f"expected an empty cell, got {c}"
    if c is None:
        return f"expected {v}, got an empty cell"
    if v[0] == "text":
        return None if c["kind"] == "s" and c["value"] == v[1] else f"expected the text {v[1]!r}, got {c}"
    e = v[1]
    if e[0] == "num" and not e[1] and not e[3]:
        return None if c["kind"] == "n" and c["value"] == float(e[2]) else f"expected the number {e[2]}, got {c}"
    if e[0] == "bool":
        if c["kind"] == "b":
            return None if c["value"] == e[1] else f"expected {e[1]}, got {c}"
        return f"expected the boolean {e[1]}, got {c}"
    if e[0] == "str":
        return None if c["kind"] == "s" and c["value"] == e[1] else f"expected the string {e[1]!r}, got {c}"
    if c["kind"] != "f":
        return f"expected the formula ={lang.show(e)}, got {c}"
    try:
        if same_formula(e, c["value"].lstrip("=") if c["value"].startswith("=") else c["value"]):
            return None
    except lang.BadFormula as x:
        return f"expected the formula ={lang.show(e)}, got {c} ({x})"
    return f"expected the formula ={lang.show(e)}, got {c}"


def compare_excel(grid, sheet):
    for y, line in enumerate(grid):
        for x, (v, _) in enumerate(line):
            m = excel_mismatch(v, sheet.cells.get(xlsx.a1(x, y)))
            if m:
                return f"cell {xlsx.a1(x, y)}: {m}"
    inside = {xlsx.a1(x, y) for y, line in enumerate(grid) for x in range(len(line))}
    extra = set(sheet.cells) - inside
    if extra:
        return f"unexpected cells {sorted(extra)[:5]}: {sheet.cells[sorted(extra)[0]]}"
    return None
