"""The formula language, independently of the compiler: expression trees, spelling them in many
ways, reading back the formulas that the compiler writes, and what definitions mean.

An expression is a tuple:
  ("num", sign, digits, pct)   sign "" | "+" | "-", digits like "12" or "1.5" (normalised)
  ("str", text)  ("bool", b)  ("ref", name)  ("call", name, args)  ("bin", op, left, right)
  ("omit",)  an argument that was left out
"""
import re

PREC = {"^": 15, "*": 14, "/": 14, "+": 13, "-": 13, "&": 12,
        "=": 11, "<": 11, ">": 11, "<=": 11, ">=": 11, "<>": 11}
ASSOC = {"+", "*", "&"}


def num(digits, sign="", pct=False):
    return ("num", sign, norm_digits(digits), pct)


def norm_digits(d):
    """007 -> 7, 1.50 -> 1.5, 1.0 -> 1"""
    i, _, f = d.partition(".")
    i = i.lstrip("0") or "0"
    f = f.rstrip("0")
    return i + ("." + f if f else "")


# -------------------------------------------------------------------------------- spelling

def _chain_only(e, op):
    """Is `e`, written without parentheses, a chain of nothing but `op` at the level of `op`?"""
    if e[0] != "bin" or PREC[e[1]] != PREC[op]:
        return True
    return e[1] == op and _chain_only(e[2], op) and _chain_only(e[3], op)


class Speller:
    """Writes an expression as source text; which of the many spellings is up to `rng`."""

    def __init__(self, rng, plain=False, newlines=False):
        self.rng, self.plain, self.newlines = rng, plain, newlines

    def sp(self, p=0.3):
        if self.plain:
            return ""
        r = self.rng.random()
        if r < p * 0.7:
            return " "
        if r < p * 0.9:
            return "  "
        if r < p * 0.95:
            return "\t"
        if r < p and self.newlines:
            return "\n" + " " * self.rng.randrange(3)
        return ""

    def number(self, e):
        d = e[2]
        if not self.plain and self.rng.random() < 0.15:
            if "." in d:
                d += "0" * self.rng.randint(1, 2)
            elif len(d) <= 15 and self.rng.random() < 0.5:
                d += self.rng.choice([".", ".0", ".00"])
        if not self.plain and self.rng.random() < 0.08:
            d = "0" * self.rng.randint(1, 2) + d
        s = e[1]
        if s == "+" and not self.plain and self.rng.random() < 0.2:
            s = self.rng.choice(["--", "++", "- -"])
        elif s == "-" and not self.plain and self.rng.random() < 0.2:
            s = self.rng.choice(["-+", "+-", "---", "- "])
        return s + d + ("%" if e[3] else "")

    def expr(self, e):
        k = e[0]
        if k == "num":
            t = self.number(e)
        elif k == "str":
            t = '"' + e[1].replace('"', '""') + '"'
        elif k == "bool":
            t = "true" if e[1] else "false"
        elif k == "ref":
            t = e[1]
        elif k == "omit":
            return ""
        elif k == "call":
            args = [self.sp(0.15) + self.expr(a) + self.sp(0.15) for a in e[2]]
            t = e[1] + self.sp(0.05) + "(" + ("," + (" " if self.plain or self.rng.random() < .6 else "")).join(args) + ")"
        else:
            t = self.binary(e)
        if not self.plain and k not in ("omit",) and self.rng.random() < 0.07:
            t = "(" + self.sp() + t + self.sp() + ")"
        return t

    def binary(self, e):
        op, l, r = e[1], e[2], e[3]
        p = PREC[op]
        lt, rt = self.expr(l), self.expr(r)
        if l[0] == "bin" and not self._wrapped(lt):
            pl = PREC[l[1]]
            # chains of operators that aren't associative are grouped from the right by the
            # compiler (a known finding), so spell out what is meant
            if pl < p or (pl == p and not (p not in (15, 11) and l[1] in ASSOC and _chain_only(l, l[1]))):
                lt = "(" + lt + ")"
        if r[0] == "bin" and not self._wrapped(rt):
            pr = PREC[r[1]]
            if pr < p or (pr == p and op not in ASSOC):
                rt = "(" + rt + ")"
        a, b = self.sp(0.6), self.sp(0.6)
        if self.plain:
            a = b = " "
        return lt + a + op + b + rt

    @staticmethod
    def _wrapped(t):
        """Is the text one parenthesised whole?"""
        if not (t.startswith("(") and t.endswith(")")):
            return False
        depth, instr = 0, False
        for i, c in enumerate(t):
            if c == '"':
                instr = not instr
            elif not instr:
                depth += (c == "(") - (c == ")")
                if depth == 0:
                    return i == len(t) - 1
        return False


# -------------------------------------------------------------------------------- reading back

class BadFormula(Exception):
    pass


_TOK = re.compile(r"""\s*(?:
    (?P<str>"(?:""|[^"])*") |
    (?P<num>\d+(?:\.\d*)?(?![\w:!$.])) |
    (?P<op><=|>=|<>|[-+*/^&=<>%]) |
    (?P<par>[(),]) |
    (?P<ref>(?:\#(?:REF!|N/A|VALUE!|DIV/0!|NAME\?|NULL!|NUM!)|[$!\w:.]+))
)""", re.X)


def tokens(s):
    out, i = [], 0
    while True:
        if not s[i:].strip():
            return out
        m = _TOK.match(s, i)
        if not m or m.end() == i:
            raise BadFormula(f"cannot read {s[i:]!r} in {s!r}")
        out.append((m.lastgroup, m[m.lastgroup]))
        i = m.end()


def parse(s):
    """Reads a formula (without its `=`) the way a spreadsheet does: the usual precedences,
    operators of one precedence group from the left."""
    t = tokens(s)
    pos = 0

    def peek():
        return t[pos] if pos < len(t) else (None, None)

    def take():
        nonlocal pos
        pos += 1
        return t[pos - 1] if pos <= len(t) else (None, None)

    def primary():
        k, v = take()
        if k == "str":
            return ("str", v[1:-1].replace('""', '"'))
        if k == "num":
            e = ("num", "", norm_digits(v), False)
        elif k == "op" and v in "+-":
            e = primary()
            if e[0] == "num" and not e[1]:
                e = ("num", v, e[2], e[3])
            elif e[0] == "num":
                raise BadFormula(f"two signs in {s!r}")
            else:
                raise BadFormula(f"sign before {e[0]} in {s!r}")
        elif k == "ref":
            if peek() == ("par", "("):
                take()
                args = []
                if peek() == ("par", ")"):
                    take()
                    return ("call", v, tuple(args))
                while True:
                    if peek() in (("par", ","), ("par", ")")):
                        args.append(("omit",))
                    else:
                        args.append(level(0))
                    n = take()
                    if n == ("par", ")"):
                        break
                    if n != ("par", ","):
                        raise BadFormula(f"expected , or ) in {s!r}")
                return ("call", v, tuple(args))
            if v.upper() in ("TRUE", "FALSE"):
                return ("bool", v.upper() == "TRUE")
            return ("ref", v)
        elif (k, v) == ("par", "("):
            e = level(0)
            if take() != ("par", ")"):
                raise BadFormula(f"unbalanced parentheses in {s!r}")
        else:
            raise BadFormula(f"unexpected {v!r} in {s!r}")
        while peek() == ("op", "%") and e[0] == "num":
            if e[3]:
                raise BadFormula(f"two % in {s!r}")
            take()
            e = ("num", e[1], e[2], True)
        return e

    def level(minp):
        e = primary()
        while True:
            k, v = peek()
            if k != "op" or v not in PREC or PREC[v] <= minp:
                return e
            take()
            e = ("bin", v, e, level(PREC[v]))

    e = level(0)
    if pos != len(t):
        raise BadFormula(f"trailing {t[pos]} in {s!r}")
    return e


def canon(e):
    """The same for expressions that group associative chains differently."""
    k = e[0]
    if k == "call":
        return ("call", e[1], tuple(canon(a) for a in e[2]))
    if k == "ref" and e[1].upper() in ("TRUE", "FALSE"):
        return ("bool", e[1].upper() == "TRUE")
    if k == "ref" and e[1] == "":
        return ("omit",)
    if k != "bin":
        return e
    op = e[1]
    if op in "+-":
        return ("sum",) + tuple(_flat(e, "+", "-", 1))
    if op in "*/":
        return ("prod",) + tuple(_flat(e, "*", "/", 1))
    if op == "&":
        return ("cat",) + tuple(_flat(e, "&", None, 1))
    return ("bin", op, canon(e[2]), canon(e[3]))


def _flat(e, pos, neg, sign):
    if e[0] == "bin" and e[1] in (pos, neg):
        yield from _flat(e[2], pos, neg, sign)
        yield from _flat(e[3], pos, neg, sign if e[1] == pos else -sign)
    else:
        yield (sign, canon(e))


def same(e, text):
    """Does the formula text (without `=`) mean `e`?"""
    return canon(parse(text)) == canon(e)


def show(e):
    """A plain spelling, for messages."""
    import random
    return Speller(random.Random(0), plain=True).expr(e)


# -------------------------------------------------------------------------------- definitions

class Arity(Exception):
    pass


class TooBig(Exception):
    pass


class Scope:
    """functions: name -> (params, body); variables: name -> expression or a function of the
    position (x, y) that gives one"""

    def __init__(self, functions=None, variables=None):
        self.functions, self.variables = functions or {}, variables or {}

    def expand(self, e, at=None, limit=4000):
        self.left = limit
        return self._x(e, {}, at)

    def _x(self, e, params, at):
        self.left -= 1
        if self.left < 0:
            raise TooBig()
        k = e[0]
        if k == "ref":
            if e[1] in params:
                self.left -= size(params[e[1]])
                return params[e[1]]
            v = self.variables.get(e[1])
            if v is None:
                return e
            if callable(v):
                return v(at)
            return self._x(v, {}, at)      # (counts its own size)
        if k == "call":
            args = tuple(self._x(a, params, at) for a in e[2])
            f = self.functions.get(e[1])
            if f is None:
                return ("call", e[1], args)
            ps, body = f
            if len(ps) != len(args):
                raise Arity(e[1])
            return self._x(body, dict(zip(ps, args)), at)
        if k == "bin":
            return ("bin", e[1], self._x(e[2], params, at), self._x(e[3], params, at))
        return e


def size(e):
    if e[0] == "call":
        return 1 + sum(size(a) for a in e[2])
    if e[0] == "bin":
        return 1 + size(e[2]) + size(e[3])
    return 1


def refs(e, out=None):
    out = set() if out is None else out
    if e[0] == "ref":
        out.add(e[1])
    elif e[0] == "call":
        for a in e[2]:
            refs(a, out)
    elif e[0] == "bin":
        refs(e[2], out)
        refs(e[3], out)
    return out


def calls(e, out=None):
    out = set() if out is None else out
    if e[0] == "call":
        out.add(e[1])
        for a in e[2]:
            calls(a, out)
    elif e[0] == "bin":
        calls(e[2], out)
        calls(e[3], out)
    return out
