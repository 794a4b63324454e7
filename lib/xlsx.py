"""Reads (with nothing but zipfile and an XML parser) what a spreadsheet program would see in an
.xlsx file, and writes workbooks of our own for the compiler to merge into."""
import io, posixpath, re, zipfile
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

M = "{http://schemas.openxmlformats.org/spreadsheetml/2006/main}"
R = "{http://schemas.openxmlformats.org/officeDocument/2006/relationships}"
P = "{http://schemas.openxmlformats.org/package/2006/relationships}"

_BASE = """000000 FFFFFF FF0000 00FF00 0000FF FFFF00 FF00FF 00FFFF""".split()
_REST = """800000 008000 000080 808000 800080 008080 C0C0C0 808080 9999FF 993366 FFFFCC CCFFFF 660066
FF8080 0066CC CCCCFF 000080 FF00FF FFFF00 00FFFF 800080 800000 008080 0000FF 00CCFF CCFFFF CCFFCC
FFFF99 99CCFF FF99CC CC99FF FFCC99 3366FF 33CCCC 99CC00 FFCC00 FF9900 FF6600 666699 969696 003366
339966 003300 333300 993300 993366 333399 333333 000000 FFFFFF FF0000 800000 0000FF 000080 00FF00
008000 FFFF00 808000""".split()
# the library which the compiler writes with numbers the palette from 0 without the eight repeated
# colors that other programs expect from 8 on; take its numbers to mean what it meant
INDEXED = ["FF" + c for c in _BASE + _REST]

BUILTIN = {0: "General", 1: "0", 2: "0.00", 3: "#,##0", 4: "#,##0.00", 9: "0%", 10: "0.00%",
           11: "0.00E+00", 14: "mm-dd-yy", 18: "h:mm AM/PM", 19: "h:mm:ss AM/PM", 20: "h:mm",
           21: "h:mm:ss", 22: "m/d/yy h:mm", 49: "@"}


def col(n):
    s = ""
    n += 1
    while n:
        n, r = divmod(n - 1, 26)
        s = chr(65 + r) + s
    return s


def a1(x, y):
    """The address of the cell in column `x` and row `y`, from 0."""
    return f"{col(x)}{y + 1}"


def xy(a):
    m = re.fullmatch(r"([A-Z]+)(\d+)", a)
    x = 0
    for c in m[1]:
        x = x * 26 + ord(c) - 64
    return x - 1, int(m[2]) - 1


def _color(e):
    if e is None:
        return None
    if e.get("rgb"):
        return e.get("rgb").upper()
    if e.get("indexed") is not None:
        i = int(e.get("indexed"))
        return INDEXED[i] if i < len(INDEXED) else f"indexed {i}"
    if e.get("theme") is not None:
        return f"theme {e.get('theme')}"
    return None


def _text(e):
    """The text of a string item: its plain text or all of its runs."""
    if e is None:
        return ""
    return unescape("".join(t.text or "" for k in e for t in ([k] if k.tag == M + "t" else
                                                              k.findall(M + "t") if k.tag == M + "r" else [])))


def unescape(s, all=True):
    """_xHHHH_ stands for the character of that number (`all`: also for those that XML can hold)"""
    return re.sub("_x([0-9A-Fa-f]{4})_", lambda m: chr(int(m[1], 16)) if all or int(m[1], 16) < 32 and m[1].lower() not in ("0009", "000a", "000d") or m[1].lower() in ("fffe", "ffff") else m[0], s) if s and "_x" in s else s


def _on(e):
    return e is not None and e.get("val", "1") not in ("0", "false", "none")


def _style(x, fonts, fills, borders, fmts):
    f, fi, bo = fonts[int(x.get("fontId", 0))], fills[int(x.get("fillId", 0))], borders[int(x.get("borderId", 0))]
    n = int(x.get("numFmtId", 0))
    al = x.find(M + "alignment")
    val = lambda t: f.find(M + t).get("val") if f.find(M + t) is not None else None
    pat = fi.find(M + "patternFill")
    fill = None
    if pat is not None and pat.get("patternType", "none") not in ("none", "gray125"):
        fill = _color(pat.find(M + "fgColor"))
    sides = {}
    for s in ("left", "right", "top", "bottom"):
        e = bo.find(M + s)
        if e is not None and e.get("style", "none") != "none":
            sides[s] = (e.get("style"), _color(e.find(M + "color")))
    return {
        "bold": _on(f.find(M + "b")), "italic": _on(f.find(M + "i")), "strike": _on(f.find(M + "strike")),
        "underline": (f.find(M + "u").get("val", "single") if f.find(M + "u") is not None else None),
        "size": float(val("sz")) if val("sz") else None, "font": val("name"),
        "color": _color(f.find(M + "color")), "fill": fill, "borders": sides,
        "numfmt": fmts.get(n, BUILTIN.get(n, str(n))),
        "halign": al.get("horizontal") if al is not None else None,
        "valign": al.get("vertical") if al is not None else None,
        "wrap": (al.get("wrapText", "0") in ("1", "true")) if al is not None else False,
    }


class Sheet:
    """cells: address -> {"kind": s|n|b|f|e, "value", "style"} (only those with something in them),
    styles: address -> style of every cell that is present"""

    def __init__(self):
        self.cells, self.styles, self.validations, self.comments = {}, {}, [], []
        self.cols, self.merged, self.rows = [], [], {}


class NotAWorkbook(Exception):
    pass


def read(data):
    """sheet name -> Sheet, in order"""
    try:
        return _read(data)
    except (zipfile.BadZipFile, KeyError, ET.ParseError, IndexError) as e:
        raise NotAWorkbook(repr(e))


def _read(data):
    z = zipfile.ZipFile(io.BytesIO(data))
    bad = z.testzip()
    if bad:
        raise NotAWorkbook(f"damaged part {bad}")
    names = set(z.namelist())
    xml = lambda n: ET.fromstring(z.read(n))

    def rels(part):
        n = posixpath.join(posixpath.dirname(part), "_rels", posixpath.basename(part) + ".rels")
        if n not in names:
            return {}
        out = {}
        for r in xml(n):
            t = r.get("Target")
            t = t[1:] if t.startswith("/") else posixpath.normpath(posixpath.join(posixpath.dirname(part), t))
            out[r.get("Id")] = (r.get("Type").rsplit("/", 1)[1], t)
        return out

    wb = xml("xl/workbook.xml")
    wrels = rels("xl/workbook.xml")
    strings = []
    if "xl/sharedStrings.xml" in names:
        strings = [_text(si) for si in xml("xl/sharedStrings.xml").findall(M + "si")]
    styles = []
    if "xl/styles.xml" in names:
        st = xml("xl/styles.xml")
        kids = lambda t: list(st.find(M + t)) if st.find(M + t) is not None else []
        fmts = {int(n.get("numFmtId")): n.get("formatCode") for n in kids("numFmts")}
        fonts, fills, borders = kids("fonts"), kids("fills"), kids("borders")
        styles = [_style(x, fonts, fills, borders, fmts) for x in kids("cellXfs")]
    out = {}
    for s in wb.find(M + "sheets"):
        name = s.get("name")
        if name in out:
            raise NotAWorkbook(f"two sheets named {name}")
        part = wrels[s.get(R + "id")][1]
        out[name] = _sheet(xml(part), rels(part), xml, strings, styles)
        out[name].state = s.get("state", "visible")
    return out


def _sheet(ws, rel, xml, strings, styles):
    sh = Sheet()
    for row in ws.find(M + "sheetData"):
        if row.get("ht"):
            sh.rows[int(row.get("r"))] = row.get("ht")
        for c in row:
            a = c.get("r")
            if a in sh.styles:
                raise NotAWorkbook(f"cell {a} twice")
            sid = int(c.get("s", 0))
            sh.styles[a] = styles[sid] if sid < len(styles) else None
            f, v, t = c.find(M + "f"), c.find(M + "v"), c.get("t", "n")
            val = v.text if v is not None else None
            if f is not None:
                sh.cells[a] = {"kind": "f", "value": unescape(f.text or "", False)}
            elif t == "inlineStr":
                sh.cells[a] = {"kind": "s", "value": _text(c.find(M + "is"))}
            elif val is None:
                continue
            elif t == "s":
                sh.cells[a] = {"kind": "s", "value": strings[int(val)]}
            elif t == "b":
                sh.cells[a] = {"kind": "b", "value": val in ("1", "true", "TRUE")}
            elif t == "n":
                sh.cells[a] = {"kind": "n", "value": float(val)}
            else:
                sh.cells[a] = {"kind": "s" if t == "str" else t, "value": unescape(val)}
    dvs = ws.find(M + "dataValidations")
    for d in (dvs if dvs is not None else []):
        g = lambda t: unescape(d.find(M + t).text, False) if d.find(M + t) is not None else None
        sh.validations.append({"sqref": (d.get("sqref") or "").split(), "type": d.get("type", "none"),
                               "op": d.get("operator", "between"), "f1": g("formula1"), "f2": g("formula2"),
                               "error": d.get("showErrorMessage", "0") in ("1", "true"),
                               "prompt": unescape(d.get("prompt"), False)})
    m = ws.find(M + "mergeCells")
    sh.merged = sorted(k.get("ref") for k in m) if m is not None else []
    c = ws.find(M + "cols")
    sh.cols = [(k.get("min"), k.get("max"), k.get("width")) for k in c] if c is not None else []
    for kind, target in rel.values():
        if kind == "comments":
            for c in xml(target).find(M + "commentList"):
                sh.comments.append((c.get("ref"), _text(c.find(M + "text"))))
    return sh


# ---------------------------------------------------------------------------------------------
# a workbook that some other program made

def write(sheets, patch=lambda d: d):
    """`sheets`: name -> {"cells": {address: (kind, value, style index 0..3)}, "validations":
    [(sqref, type, operator, formula1)], "comments": [(address, text)], "merged": [ref]}"""
    buf = io.BytesIO()
    z = zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED)
    head = '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n'
    ns = 'xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships"'
    O = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"
    ct, wrel, shs = [], [], []
    strings = []
    ct_base = "application/vnd.openxmlformats-officedocument.spreadsheetml."
    for i, (name, s) in enumerate(sheets.items(), 1):
        rows = {}
        for a, c in s.get("cells", {}).items():
            x, y = xy(a)
            rows.setdefault(y, []).append((x, a) + tuple(c))
        sd = []
        for y in sorted(rows):
            cs = []
            for x, a, kind, value, style in sorted(rows[y]):
                if kind == "s":
                    if value not in strings:
                        strings.append(value)
                    cs.append(f'<c r="{a}" s="{style}" t="s"><v>{strings.index(value)}</v></c>')
                elif kind == "n":
                    cs.append(f'<c r="{a}" s="{style}"><v>{value}</v></c>')
                elif kind == "b":
                    cs.append(f'<c r="{a}" s="{style}" t="b"><v>{int(value)}</v></c>')
                elif kind == "e":
                    cs.append(f'<c r="{a}" s="{style}" t="e"><v>{value}</v></c>')
                elif kind == "f" and isinstance(value, tuple):
                    value, cached = value       # of other types than numbers, or not calculated yet
                    t, v = {"none": ("", ""), "empty": (' t="str"', "<v></v>"), "text": (' t="str"', "<v>some text</v>"), "bool": (' t="b"', "<v>1</v>"), "error": (' t="e"', "<v>#DIV/0!</v>")}[cached]
                    cs.append(f'<c r="{a}" s="{style}"{t}><f>{escape(value)}</f>{v}</c>')
                elif kind == "inline":
                    cs.append(f'<c r="{a}" s="{style}" t="inlineStr"><is><t xml:space="preserve">{escape(value)}</t></is></c>')
                elif kind == "f":
                    cs.append(f'<c r="{a}" s="{style}"><f>{escape(value)}</f><v>0</v></c>')
                else:
                    cs.append(f'<c r="{a}" s="{style}"/>')
            sd.append(f'<row r="{y + 1}">{"".join(cs)}</row>')
            ht = s.get("heights", {}).get(y)
            sd[-1] = sd[-1].replace(">", f' ht="{ht}" customHeight="1">', 1) if ht else sd[-1]
        body = f'<sheetData>{"".join(sd)}</sheetData>'
        if s.get("cols"):
            body = "<cols>" + "".join(f'<col min="{a}" max="{b}" width="{w}" customWidth="1"/>' for a, b, w in s["cols"]) + "</cols>" + body
        if s.get("merged"):
            body += f'<mergeCells count="{len(s["merged"])}">' + "".join(
                f'<mergeCell ref="{r}"/>' for r in s["merged"]) + "</mergeCells>"
        if s.get("validations"):
            body += f'<dataValidations count="{len(s["validations"])}">' + "".join(
                f'<dataValidation type="{t}" operator="{o}" allowBlank="1" showInputMessage="1" showErrorMessage="1" sqref="{q}"><formula1>{escape(f)}</formula1></dataValidation>'
                for q, t, o, f in s["validations"]) + "</dataValidations>"
        if s.get("comments"):
            body += '<legacyDrawing r:id="rId1"/>'
            z.writestr(f"xl/worksheets/_rels/sheet{i}.xml.rels", head +
                       f'<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">'
                       f'<Relationship Id="rId1" Type="{O}/vmlDrawing" Target="../drawings/vmlDrawing{i}.vml"/>'
                       f'<Relationship Id="rId2" Type="{O}/comments" Target="../comments{i}.xml"/></Relationships>')
            z.writestr(f"xl/comments{i}.xml", head + f'<comments {ns}><authors><author>someone</author></authors><commentList>'
                       + "".join(f'<comment ref="{a}" authorId="0"><text><r><t xml:space="preserve">{escape(t)}</t></r></text></comment>'
                                 for a, t in s["comments"]) + "</commentList></comments>")
            z.writestr(f"xl/drawings/vmlDrawing{i}.vml",
                       '<xml xmlns:v="urn:schemas-microsoft-com:vml" xmlns:o="urn:schemas-microsoft-com:office:office" xmlns:x="urn:schemas-microsoft-com:office:excel">'
                       + "".join(f'<v:shape id="_x0000_s{1024 + k}" type="#_x0000_t202" style="position:absolute;visibility:hidden"><x:ClientData ObjectType="Note"><x:Row>{xy(a)[1]}</x:Row><x:Column>{xy(a)[0]}</x:Column></x:ClientData></v:shape>'
                                 for k, (a, t) in enumerate(s["comments"], 1)) + "</xml>")
            ct.append(f'<Override PartName="/xl/comments{i}.xml" ContentType="{ct_base}comments+xml"/>')
        z.writestr(f"xl/worksheets/sheet{i}.xml", head + patch(f"<worksheet {ns}>{body}</worksheet>"))
        ct.append(f'<Override PartName="/xl/worksheets/sheet{i}.xml" ContentType="{ct_base}worksheet+xml"/>')
        wrel.append(f'<Relationship Id="rId{i}" Type="{O}/worksheet" Target="worksheets/sheet{i}.xml"/>')
        st = ' state="hidden"' if s.get("hidden") else ""
        shs.append(f'<sheet name={quoteattr(name)} sheetId="{i}"{st} r:id="rId{i}"/>')
    n = len(shs)
    wrel.append(f'<Relationship Id="rId{n + 1}" Type="{O}/styles" Target="styles.xml"/>')
    wrel.append(f'<Relationship Id="rId{n + 2}" Type="{O}/sharedStrings" Target="sharedStrings.xml"/>')
    z.writestr("xl/sharedStrings.xml", head + f'<sst {ns} count="{len(strings)}" uniqueCount="{len(strings)}">' + "".join(
        f'<si><t xml:space="preserve">{escape(t)}</t></si>' for t in strings) + "</sst>")
    z.writestr("xl/styles.xml", head + f'<styleSheet {ns}><fonts count="3"><font><sz val="11"/><name val="Calibri"/></font>'
               '<font><b/><sz val="13"/><color rgb="FF112233"/><name val="Arial"/></font><font><i/><sz val="9"/><name val="Georgia"/></font></fonts>'
               '<fills count="3"><fill><patternFill patternType="none"/></fill><fill><patternFill patternType="gray125"/></fill>'
               '<fill><patternFill patternType="solid"><fgColor rgb="FFABCDEF"/></patternFill></fill></fills>'
               '<borders count="2"><border><left/><right/><top/><bottom/><diagonal/></border>'
               '<border><left style="thin"><color rgb="FF445566"/></left><right/><top/><bottom style="double"><color rgb="FF445566"/></bottom><diagonal/></border></borders>'
               '<cellStyleXfs count="1"><xf numFmtId="0" fontId="0" fillId="0" borderId="0"/></cellStyleXfs><cellXfs count="4">'
               '<xf numFmtId="0" fontId="0" fillId="0" borderId="0" xfId="0"/>'
               '<xf numFmtId="2" fontId="1" fillId="0" borderId="0" xfId="0" applyFont="1" applyNumberFormat="1"/>'
               '<xf numFmtId="0" fontId="2" fillId="2" borderId="1" xfId="0" applyFont="1" applyFill="1" applyBorder="1"/>'
               '<xf numFmtId="10" fontId="0" fillId="0" borderId="1" xfId="0" applyNumberFormat="1" applyBorder="1" applyAlignment="1"><alignment horizontal="right" vertical="top"/></xf>'
               '</cellXfs></styleSheet>')
    z.writestr("xl/workbook.xml", head + f'<workbook {ns}><sheets>{"".join(shs)}</sheets></workbook>')
    z.writestr("xl/_rels/workbook.xml.rels", head + '<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">' + "".join(wrel) + "</Relationships>")
    z.writestr("_rels/.rels", head + f'<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="{O}/officeDocument" Target="xl/workbook.xml"/></Relationships>')
    z.writestr("[Content_Types].xml", head + '<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">'
               '<Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Default Extension="xml" ContentType="application/xml"/><Default Extension="vml" ContentType="application/vnd.openxmlformats-officedocument.vmlDrawing"/>'
               f'<Override PartName="/xl/workbook.xml" ContentType="{ct_base}sheet.main+xml"/><Override PartName="/xl/styles.xml" ContentType="{ct_base}styles+xml"/><Override PartName="/xl/sharedStrings.xml" ContentType="{ct_base}sharedStrings+xml"/>'
               + "".join(ct) + "</Types>")
    z.close()
    return buf.getvalue()
