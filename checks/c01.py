"""The CSV section is read as the values its text stands for"""
import prog
from common import *

ID = "C01"
CASES = {"quick": 9000, "thorough": 300000}
TIME = {"quick": 30, "thorough": 600}
RULE = ("A case is a generated table of field values (unicode, quotes, separators, newlines, padding; up to 7x7, ragged) with one of seven separators, "
        "spelled with random quoting, padding, escaped newlines, comments, blank lines and line ends, and parsed by the real CSV parser; every value, its "
        "address and the source position of each of its characters are compared with what was spelled. One case in eight is malformed (unclosed quote, text "
        "after a closing quote) and has to be rejected on the right line. Non-trivial: at least two fields.")
MUST_SEE = ["quoted field", "escaped newline", "comment", "ragged", "unclosed quote rejected", "trailing text rejected", "positions compared", "empty field at the end"]

ALPH = "abcXYZ0189 _-.,;:|!?\"'#=[]()/\\éßΩ日本🎉\u0301\t"


def value(rng, sep):
    r = rng.random()
    if r < 0.12:
        return ""
    if r < 0.6:
        w = rng.choice(prog.WORDS)
    else:
        w = "".join(rng.choice(ALPH) for _ in range(rng.randint(1, 12)))
    if rng.random() < 0.1:
        w += sep + "x"
    return w.strip()


class Out:
    def __init__(self, above):
        self.t, self.line, self.off = [], above, 0

    def put(self, s, keep=None):
        """Write `s`; append the positions of its characters to `keep`"""
        for c in s:
            if keep is not None:
                keep.append([(self.off, self.line)])
            self.t.append(c)
            if c == "\n":
                self.line, self.off = self.line + 1, 0
            else:
                self.off += 1


def spell(rng, table, sep, above):
    """(text, positions of every character of every value, what was used)"""
    o, seen = Out(above), set()
    crlf = rng.random() < 0.12
    eol = "\r\n" if crlf else "\n"
    if rng.random() < 0.15:
        o.put("\n" * rng.randint(1, 3))
        seen.add("leading blank lines")
    pos = []
    pads = [c for c in (" ", "  ", "\t", " \t") if sep not in c]
    for n, rec in enumerate(table):
        if rng.random() < 0.12:
            o.put(rng.choice(["# comment", "#", '#"', "#a,b", "# a \\"]) + eol)
            seen.add("comment")
        line = []
        for i, v in enumerate(rec):
            keep = []
            last, first = i == len(rec) - 1, i == 0
            if i:
                o.put(sep)
            must = (sep in v or "\n" in v or v.startswith('"') or (first and v.startswith("#"))
                    or (v.endswith("\\") and last) or (not v and last and (n == len(table) - 1 or (n == 0 and first))))
            if rng.random() < 0.1 and not crlf:
                if pads and rng.random() < .5:
                    o.put(rng.choice(pads))
                o.put("\\\n")
                seen.add("escaped newline")
            if pads and rng.random() < 0.2:
                # a comment has to start its line, but the escaped newline above may have come before
                o.put(rng.choice(pads))
            if must or rng.random() < 0.3:
                seen.add("quoted field")
                o.put('"')
                if rng.random() < 0.15:
                    o.put(rng.choice([" ", "  ", "\t"]))
                for c in v:
                    if c == '"':
                        a = []
                        o.put('""', a)
                        keep.append([a[0][0], a[1][0]])
                    else:
                        o.put(c, keep)
                if rng.random() < 0.15:
                    o.put(rng.choice([" ", "  "]))
                o.put('"')
            else:
                for k, c in enumerate(v):
                    if k and not crlf and v[k - 1] != "\\" and rng.random() < 0.04:
                        o.put("\\\n")
                        seen.add("escaped newline")
                    o.put(c, keep)
            if pads and rng.random() < 0.2 and (v or not last):
                o.put(rng.choice(pads))
            line.append(keep)
        pos.append(line)
        if n < len(table) - 1 or rng.random() < 0.7:
            o.put(eol)
    return "".join(o.t), pos, seen


def case(ctx, rng, i):
    sep = rng.choice([",", ",", ",", ";", "\t", "|", ":", " ", "·"])
    above = rng.choice([0, 0, 0, 1, 7])
    ragged = rng.random() < .5
    w = rng.randint(1, 7)
    table = [[value(rng, sep) for _ in range(rng.randint(1, w) if ragged else w)] for _ in range(rng.randint(1, 7))]
    text, pos, seen = spell(rng, table, sep, above)
    seen = {k: 1 for k in seen}
    open_end = rng.random() < 0.08
    if open_end:
        if not text.endswith("\n"):
            text += "\n"
        k = rng.randint(2, 5)
        line = above + text.count("\n")
        rec = [rng.choice(["", "", "", "x"]) for _ in range(k - 1)] + [""]
        pos.append([[[(sum(map(len, rec[:j])) + j * len(sep), line)]] if v else [] for j, v in enumerate(rec)])
        table.append(rec)
        text += sep.join(rec)
    if len({len(r) for r in table}) > 1:
        seen["ragged"] = 1
    bad = rng.random() if not open_end else 1
    if bad < 0.06:
        # an opening quote that is never closed
        if not text.endswith("\n"):
            text += "\n"
        text += rng.choice(["", "a" + sep]) + '"' + rng.choice(["", "x", "x\ny" + sep + "z", 'say ""hi""', "x\n"])
        a = ctx.req({"op": "csvp", "input": text, "sep": sep, "above": above})
        if a.get("panic") or "died" in a or "error" not in a:
            raise Violation(f"a quoted field that is never closed is not rejected: {str(a)[:300]}", input=text)
        return Case(text, True, {"unclosed quote rejected": 1}, {"input": text[:200]})
    if bad < 0.12:
        if not text.endswith("\n"):
            text += "\n"
        at = text.count("\n") + above
        junk = '"a"' + rng.choice(["", " "]) + rng.choice([c for c in "b'=\\é#1.-(]&!日\0\u200b" if c != sep]) + rng.choice(["", "x"]) + rng.choice(["", '"', "c" + sep + "d"])
        if sep == " ":
            junk = '"a"b'
        text += junk + rng.choice(["", "\n", "\nnext" + sep + "line\n"])
        a = ctx.req({"op": "csvp", "input": text, "sep": sep, "above": above})
        if a.get("panic") or "died" in a or "error" not in a:
            raise Violation(f"text after the closing quote of a field is not rejected: {str(a)[:300]}", input=text)
        if a["at"][1] != at:
            raise Violation(f"the error is on line {at + 1} but reported on line {a['at'][1] + 1}: {a}", input=text)
        return Case(text, True, {"trailing text rejected": 1}, {"input": text[:200]})
    a = ctx.req({"op": "csvp", "input": text, "sep": sep, "above": above})
    if "records" not in a:
        raise Violation(f"not parsed: {str(a)[:300]}", input=text, expected=table)
    got = [[f["v"] for f in r] for r in a["records"]]
    if open_end:
        # known finding empty-field-at-end: of the last record only the last field is missing
        seen["empty field at the end"] = 1
        if got[-1:] == [table[-1][:-1]]:
            table, pos = table[:-1] + [table[-1][:-1]], pos[:-1] + [pos[-1][:-1]]
    if got != table:
        for y, (g, t) in enumerate(zip(got, table)):
            if g != t:
                raise Violation(f"record {y + 1} is {g!r}, expected {t!r}", input=text)
        raise Violation(f"{len(got)} records, expected {len(table)}: {got[-2:]!r}", input=text)
    for y, rec in enumerate(a["records"]):
        for x, f in enumerate(rec):
            if (f["x"], f["y"]) != (x, y):
                raise Violation(f"field {x},{y} has the address {f['x']},{f['y']}", input=text)
            for k, ok in enumerate(pos[y][x]):
                if f["v"][k] == "\n":
                    continue
                if k >= len(f["p"]) or tuple(f["p"][k]) not in ok:
                    raise Violation(f"character {k} of field {f['v']!r} ({x},{y}) is at (offset, line) {ok}, reported "
                                    f"{f['p'][k] if k < len(f['p']) else None}", input=text)
                seen["positions compared"] = seen.get("positions compared", 0) + 1
    seen["fields compared"] = sum(map(len, table))
    return Case((text, sep), sum(map(len, table)) > 1, seen, {"input": text[:200], "separator": sep})


def empty_field_at_end(ctx):
    a = ctx.req({"op": "csvp", "input": "a,b\nc,", "sep": ",", "above": 0})
    got = [[f["v"] for f in r] for r in a.get("records", [])]
    if got != [["a", "b"], ["c", ""]]:
        raise Violation(f"'a,b\\nc,' is read as {got}")


FIXED = {"empty-field-at-end": empty_field_at_end}
