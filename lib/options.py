"""Cell and row options: generating, spelling, what they mean, and judging styles read back."""
import prog

SIDES = ["left", "right", "top", "bottom"]
BORDER = {"a": "all", "all": "all", "t": "top", "top": "top", "b": "bottom", "bottom": "bottom", "l": "left", "left": "left", "r": "right", "right": "right"}
BSTYLE = {"dash": "dashed", "dashed": "dashed", "dot": "dotted", "dotted": "dotted", "dbl": "double", "double": "double",
          "1": "thin", "solid": "thin", "2": "medium", "solid_medium": "medium", "3": "thick", "solid_thick": "thick"}
HALIGN = {"c": "center", "center": "center", "l": "left", "left": "left", "r": "right", "right": "right"}
VALIGN = {"c": "center", "center": "center", "t": "top", "top": "top", "b": "bottom", "bottom": "bottom"}
WRAP = {"w": "wrap", "wrap": "wrap", "c": "clip", "clip": "clip", "o": "overflow", "overflow": "overflow"}
TEXT = {"b": "bold", "bold": "bold", "i": "italic", "italic": "italic", "s": "strike", "strikethrough": "strike", "u": "underline", "underline": "underline"}
NUMFMT = {"c": "$#,##0_-", "currency": "$#,##0_-", "d": "yyyy-mm-dd", "date": "yyyy-mm-dd", "dt": "d/m/yy h:mm", "datetime": "d/m/yy h:mm",
          "n": "0", "number": "0", "p": "0%", "percent": "0%", "text": "@", "t": "h:mm AM/PM", "time": "h:mm AM/PM", "s": "0.00E+00", "scientific": "0.00E+00"}
FONTS = ["Arial", "Helvetica", "Comic Sans MS", "Times New Roman", "Courier", "Ubuntu Mono", "Noto Sans 日本", "Font's"]
NOTES = ["note", "a note", "x", "it's", "two  spaces", "a, b", "quotes \"here\"", "]] not the end", "[[b]]", "back\\slash", "日本語 🎉", "<b>&amp;</b>",
         "x=1/y=2", "multi\nline", "#hash", "=A1", "very long " * 20 + "end", "'", "''", "!", "bell\x07", "_x000A_ _x00e9_", "a\x0bb"]


class Style:
    """What the options of a row or cell add up to"""

    def __init__(self):
        self.borders, self.text = set(), set()
        self.bstyle, self.bcolor, self.fill, self.fcolor, self.font, self.size = "thin", None, None, None, None, None
        self.halign, self.valign, self.wrap, self.numfmt, self.note, self.dv = "center", "center", "wrap", "@", None, None

    def copy(self):
        s = Style()
        s.__dict__.update({k: set(v) if isinstance(v, set) else v for k, v in self.__dict__.items()})
        return s

    def apply(self, opts):
        """opts: [(kind, meaning)]"""
        for k, m in opts:
            if k == "border":
                self.borders |= set(SIDES) if m == "all" else {m}
            elif k == "text":
                self.text.add(m)
            else:
                setattr(self, k, m)
        return self


def case_of(rng, s):
    r = rng.random()
    return s if r < .75 else s.upper() if r < .85 else s.capitalize() if r < .93 else "".join(rng.choice([c.lower(), c.upper()]) for c in s)


def color(rng):
    """(spelling, RRGGBB)"""
    short = rng.random() < 0.35
    h = "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(3 if short else 6))
    if rng.random() < 0.15:
        h = rng.choice(["f00", "0f0", "00f", "fff", "000"]) if short else rng.choice(["ff0000", "00FF00", "0000ff", "FFFFFF", "000000", "808080", "ffff00"])
    full = (h if not short else "".join(c * 2 for c in h)).upper()
    return (rng.choice(["#", "#", ""]) + h, full)


def quoted(rng, s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'") + "'"


def string(rng, s):
    if s.isascii() and s.isalnum() and rng.random() < 0.5:
        return s
    return quoted(rng, s)


def eq(rng):
    r = rng.random()
    return "=" if r < 0.88 else " = " if r < 0.93 else "= " if r < .97 else " ="


def one(rng, kinds):
    """(kind, meaning, spelling)"""
    k = rng.choice(kinds)
    e = eq(rng)

    def pick(table, *names):
        v = rng.choice(list(table))
        return table[v], rng.choice(names) + e + case_of(rng, v)

    if k == "border":
        m, t = pick(BORDER, "b", "border")
    elif k == "bstyle":
        m, t = pick(BSTYLE, "bs", "borderstyle")
    elif k == "halign":
        m, t = pick(HALIGN, "ha", "halign")
    elif k == "valign":
        m, t = pick(VALIGN, "va", "valign")
    elif k == "wrap":
        m, t = pick(WRAP, "w", "wrap")
    elif k == "text":
        m, t = pick(TEXT, "t", "text")
    elif k == "numfmt":
        m, t = pick(NUMFMT, "nf", "numberformat")
    elif k in ("bcolor", "fill", "fcolor"):
        s, m = color(rng)
        t = rng.choice({"bcolor": ["bc", "bordercolor"], "fill": ["c", "color"], "fcolor": ["fc", "fontcolor"]}[k]) + e + s
    elif k == "font":
        m = rng.choice(FONTS)
        t = rng.choice(["ff", "fontfamily"]) + e + string(rng, m)
    elif k == "size":
        m = rng.choice([1, 6, 8, 9, 10, 11, 12, 14, 20, 36, 72, 100, 200, 255])
        t = rng.choice(["fs", "fontsize"]) + e + str(m)
    elif k == "lock":
        m, t = True, rng.choice(["l", "lock"])
    elif k == "note":
        m = rng.choice(NOTES) if rng.random() < .7 else prog.word(rng)
        if rng.random() < .2:
            m += rng.choice(["", " ", "\\", "'"]) + rng.choice(NOTES)
        t = rng.choice(["n", "note"]) + e + string(rng, m)
    return k, m, t


STYLES = ["border", "border", "bstyle", "bcolor", "fill", "fcolor", "font", "size", "halign", "valign", "wrap", "text", "text", "numfmt", "lock"]


def gen(rng, n, kinds=STYLES):
    """n options: ([(kind, meaning)], [spelling])"""
    o = [one(rng, kinds) for _ in range(n)]
    # (a style and a colour are of no effect without it)
    if "border" in kinds and any(k in ("bstyle", "bcolor") for k, _, _ in o) and all(k != "border" for k, _, _ in o) and rng.random() < .7:
        o.insert(rng.randint(0, len(o)), one(rng, ["border"]))
    return [(k, m) for k, m, _ in o], [t for _, _, t in o]


def color_ok(got, want, exact=False):
    """`want`: RRGGBB.  The order of the channels is a known finding."""
    return got in (("FF" + want,) if exact else ("FF" + want, want + "FF"))


def mismatch(s, got):
    """None if `got`, read back from a workbook, is what the Style `s` describes, else why not"""
    for k in ("bold", "italic", "strike"):
        if got[k] != (k in s.text):
            return f"{k} is {got[k]}"
    if (got["underline"] not in (None, "none")) != ("underline" in s.text):
        return f"underline is {got['underline']}"
    if got["underline"] not in (None, "none", "single"):
        return f"underline is {got['underline']}"
    if got["size"] != s.size if s.size is not None else got["size"] not in (None, 11.0):
        return f"font size is {got['size']}, expected {s.size}"
    if got["font"] != s.font if s.font is not None else got["font"] not in (None, "Calibri"):
        return f"font is {got['font']!r}, expected {s.font!r}"
    if not color_ok(got["color"], s.fcolor) if s.fcolor is not None else got["color"] not in (None, "theme 1"):
        return f"font color is {got['color']}, expected {s.fcolor}"
    if not color_ok(got["fill"], s.fill) if s.fill is not None else got["fill"] is not None:
        return f"fill color is {got['fill']}, expected {s.fill}"
    if set(got["borders"]) != s.borders:
        return f"borders are {sorted(got['borders'])}, expected {sorted(s.borders)}"
    for side, (st, c) in got["borders"].items():
        if st != s.bstyle:
            return f"{side} border is {st}, expected {s.bstyle}"
        if not color_ok(c, s.bcolor) if s.bcolor is not None else c not in (None, "auto", "FF000000"):
            return f"{side} border color is {c}, expected {s.bcolor}"
    if got["wrap"] != (s.wrap == "wrap"):
        return f"wrap is {got['wrap']!r}, expected {s.wrap}"
    for k in ("halign", "valign", "numfmt"):
        if got[k] != getattr(s, k):
            return f"{k} is {got[k]!r}, expected {getattr(s, k)!r}"
    return None


VALUES = {("b", "border"): BORDER, ("bs", "borderstyle"): BSTYLE, ("ha", "halign"): HALIGN, ("va", "valign"): VALIGN, ("w", "wrap"): WRAP, ("t", "text"): TEXT, ("nf", "numberformat"): NUMFMT}
COLORS = ("bc", "bordercolor", "c", "color", "fc", "fontcolor")
STRINGS = ("ff", "fontfamily", "n", "note")
NUMBERS = ("fs", "fontsize")


def bad(rng):
    """An option that isn't one"""
    kind = rng.choice(["table", "table", "color", "color", "string", "number", "name"])
    if kind == "table":
        names, table = rng.choice(list(VALUES.items()))
        name, value = rng.choice(names), rng.choice(list(table))
        wrong = rng.choice([value + "x", "x" + value, value[:-1] or "x", value + value, "'" + value + "x'", "#" + value, value + "1", "é", rng.choice([v for t in VALUES.values() for v in t])])
        if wrong.lower() in table:
            wrong += "zz"
    elif kind == "color":
        name, value = rng.choice(COLORS), color(rng)[0]
        h = lambda n: "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(n))
        wrong = rng.choice(["#", h(1), "#" + h(2), h(4), "#" + h(5), "#" + h(7), h(8), "##" + h(3), "#" + h(3) + "#", "#" + h(2) + "g", h(5) + "G", "#" + h(2) + "é", "red", "#" + h(3) + "-", "-" + h(3), "0x" + h(6), "'red'", h(3) + "'" ])
    elif kind == "string":
        name, value = rng.choice(STRINGS), rng.choice(["abc", "'a b'"])
        wrong = rng.choice(["'abc", "abc'", "'a' 'b'", "\"a b\"", "a-b", "=a", "'", "''"[:1] + "a\\'", "é-", "(a)"])
    elif kind == "number":
        name, value = rng.choice(NUMBERS), "12"
        wrong = rng.choice(["256", "1000", "-1", "1.5", "x", "12x", "1e1", "0x10", "99999999999999999999", "'12", "#12"])
    else:
        return rng.choice(["x", "textt", "tex", "bolds", "T", "B", "LOCK", "Note", "colour", "é", "1", "_", "var_", "t_", "fontsizes", "lockk", "font", "validatee"]) + rng.choice(["", "=1", "=b", "='x'"])
    return rng.choice([name, name + "=", name + " " + value, name + "==" + value, "=" + value, name + ":" + value] + [name + eq(rng) + wrong] * 6)
