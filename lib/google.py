"""A stand-in for the servers of Google: token, Sheets and Drive endpoints over TLS on the loopback
network.  It is strict about requests like the real API (unknown fields, enum values and conditions
are refused with status 400), keeps spreadsheets, and records every request."""
import http.server, json, math, os, re, ssl, subprocess, threading, time, urllib.parse

import options, prog, validations
import lang

HERE = os.path.dirname(os.path.abspath(__file__))


def _sh(*cmd):
    subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)


class Refused(Exception):
    """What the API doesn't take"""


# ---- what is allowed in cells (https://developers.google.com/sheets/api/reference/rest/v4/spreadsheets/cells)

COLOR = {"red": float, "green": float, "blue": float, "alpha": float}
STYLE = {"rgbColor": COLOR, "themeColor": {"TEXT", "BACKGROUND", "ACCENT1", "ACCENT2", "ACCENT3", "ACCENT4", "ACCENT5", "ACCENT6", "LINK"}}
EDGE = {"style": {"DOTTED", "DASHED", "SOLID", "SOLID_MEDIUM", "SOLID_THICK", "NONE", "DOUBLE"}, "width": int, "color": COLOR, "colorStyle": STYLE}
TEXTFORMAT = {"foregroundColor": COLOR, "foregroundColorStyle": STYLE, "fontFamily": str, "fontSize": int, "bold": bool, "italic": bool, "strikethrough": bool, "underline": bool, "link": {"uri": str}}
FORMAT = {"numberFormat": {"type": {"TEXT", "NUMBER", "PERCENT", "CURRENCY", "DATE", "TIME", "DATE_TIME", "SCIENTIFIC"}, "pattern": str},
          "backgroundColor": COLOR, "backgroundColorStyle": STYLE, "borders": {"top": EDGE, "bottom": EDGE, "left": EDGE, "right": EDGE},
          "padding": {"top": int, "right": int, "bottom": int, "left": int}, "horizontalAlignment": {"LEFT", "CENTER", "RIGHT"}, "verticalAlignment": {"TOP", "MIDDLE", "BOTTOM"},
          "wrapStrategy": {"OVERFLOW_CELL", "LEGACY_WRAP", "CLIP", "WRAP"}, "textDirection": {"LEFT_TO_RIGHT", "RIGHT_TO_LEFT"}, "textFormat": TEXTFORMAT,
          "hyperlinkDisplayType": {"LINKED", "PLAIN_TEXT"}, "textRotation": {"angle": int, "vertical": bool}}
CONDITIONS = {"NUMBER_GREATER": 1, "NUMBER_GREATER_THAN_EQ": 1, "NUMBER_LESS": 1, "NUMBER_LESS_THAN_EQ": 1, "NUMBER_EQ": 1, "NUMBER_NOT_EQ": 1, "NUMBER_BETWEEN": 2, "NUMBER_NOT_BETWEEN": 2,
              "TEXT_CONTAINS": 1, "TEXT_NOT_CONTAINS": 1, "TEXT_EQ": 1, "TEXT_IS_EMAIL": 0, "TEXT_IS_URL": 0, "DATE_EQ": 1, "DATE_BEFORE": 1, "DATE_AFTER": 1,
              "DATE_ON_OR_BEFORE": 1, "DATE_ON_OR_AFTER": 1, "DATE_BETWEEN": 2, "DATE_NOT_BETWEEN": 2, "DATE_IS_VALID": 0, "ONE_OF_RANGE": 1, "ONE_OF_LIST": None, "CUSTOM_FORMULA": 1, "BOOLEAN": None}
VALUE = {"numberValue": float, "stringValue": str, "boolValue": bool, "formulaValue": str, "errorValue": {"type": str, "message": str}}
CELL = {"userEnteredValue": VALUE, "effectiveValue": VALUE, "formattedValue": str, "userEnteredFormat": FORMAT, "effectiveFormat": FORMAT, "hyperlink": str, "note": str,
        "textFormatRuns": [{"startIndex": int, "format": TEXTFORMAT}],
        "dataValidation": {"condition": {"type": set(CONDITIONS), "values": [{"relativeDate": {"PAST_YEAR", "PAST_MONTH", "PAST_WEEK", "YESTERDAY", "TODAY", "TOMORROW"}, "userEnteredValue": str}]},
                           "inputMessage": str, "strict": bool, "showCustomUi": bool},
        "pivotTable": None, "dataSourceTable": None, "dataSourceFormula": None}
READ_ONLY = {"effectiveValue", "formattedValue", "effectiveFormat", "hyperlink"}


def valid(v, want, at):
    if isinstance(want, dict):
        if not isinstance(v, dict):
            raise Refused(f"{at} is not an object: {v!r}")
        for k, x in v.items():
            if k not in want:
                raise Refused(f'Unknown name "{k}" at {at}')
            if x is not None and want[k] is not None:
                valid(x, want[k], f"{at}.{k}")
    elif isinstance(want, list):
        if not isinstance(v, list):
            raise Refused(f"{at} is not a list")
        for i, x in enumerate(v):
            valid(x, want[0], f"{at}[{i}]")
    elif isinstance(want, set):
        if v not in want:
            raise Refused(f'Invalid value at {at}: "{v}"')
    elif want is float:
        if isinstance(v, bool) or not isinstance(v, (int, float)) or not math.isfinite(v):
            raise Refused(f"Invalid value at {at}: {v!r}")
    elif not isinstance(v, want) or (want is int and isinstance(v, bool)):
        raise Refused(f"Invalid value at {at}: {v!r}")


def valid_cell(c, at):
    valid(c, CELL, at)
    if len([k for k, x in (c.get("userEnteredValue") or {}).items() if x is not None]) > 1:
        raise Refused(f"{at}.userEnteredValue has more than one value")
    f = (c.get("userEnteredValue") or {}).get("formulaValue")
    if f is not None and not f.startswith("="):
        raise Refused(f"{at}: a formula without =: {f!r}")
    dv = c.get("dataValidation")
    if dv:
        cond = dv.get("condition") or {}
        if not cond.get("type"):
            raise Refused(f"{at}: a validation without a condition")
        values, n = cond.get("values") or [], CONDITIONS[cond["type"]]
        if n is not None and len(values) != n:
            raise Refused(f"{at}: {cond['type']} takes {n} values: {values}")
        if cond["type"] == "ONE_OF_LIST" and not values:
            raise Refused(f"{at}: an empty list")
        for v in values:
            if v.get("relativeDate"):
                raise Refused(f"{at}: relative dates are not supported in data validation")
            u = v.get("userEnteredValue")
            if not u:
                raise Refused(f"{at}: a condition without a value")
            if cond["type"] == "CUSTOM_FORMULA" and u[0] not in "=+":
                raise Refused(f"{at}: the formula of a condition has to begin with =: {u!r}")
            if cond["type"].startswith("DATE") and not re.fullmatch(r"\d{4}-\d{2}-\d{2}|\d{1,2}/\d{1,2}/\d{4}", u):
                raise Refused(f"{at}: not a date: {u!r}")
            if cond["type"].startswith("NUMBER") and not re.fullmatch(r"[-+]?\d+(\.\d+)?", u):
                raise Refused(f"{at}: not a number: {u!r}")


def settable(c):
    """What a cell holds, without what is computed and what is empty"""
    def clean(v):
        if isinstance(v, dict):
            d = {k: clean(x) for k, x in v.items() if x is not None}
            return {k: x for k, x in d.items() if x not in ({}, [])}
        if isinstance(v, list):
            return [clean(x) for x in v]
        return float(v) if isinstance(v, int) and not isinstance(v, bool) else v
    return clean({k: v for k, v in c.items() if k not in READ_ONLY})


def plain(v):
    """Whole numbers the way the API writes them"""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return int(v) if isinstance(v, float) and v == int(v) and abs(v) < 2**53 else v


class Sheet:
    def __init__(self, id, title, cells=None, raw=None, rows=100000, cols=20000):
        self.id, self.title, self.rows, self.cols = id, title, rows, cols
        self.cells = cells or {}            # (x, y) -> what was set
        self.raw = raw or {}                # (x, y) -> what the API says about it

    def put(self, x, y, c):
        self.raw.pop((x, y), None)
        s = settable(c)
        if s:
            self.cells[x, y] = s
        else:
            self.cells.pop((x, y), None)

    def json(self, blank):
        """`blank(x, y)`: whether the API mentions a blank cell"""
        rows = []
        h = max([y for _, y in self.cells], default=-1) + 1
        for y in range(h):
            w = max([x for x, v in self.cells if v == y], default=-1) + 1
            vals = []
            for x in range(w):
                vals.append(plain(self.raw.get((x, y)) or self.cells.get((x, y)) or {}))
            while blank(len(vals), y):
                vals.append({})
            rows.append({"values": vals} if vals else {})
        while blank(-1, len(rows)):
            rows.append({})
        d = {"rowMetadata": [{"pixelSize": 21}] * 3, "columnMetadata": [{"pixelSize": 100}]}
        if rows:
            d["rowData"] = rows
        p = {"title": self.title, "index": 0, "sheetType": "GRID", "gridProperties": {"rowCount": self.rows, "columnCount": self.cols}}
        p["sheetId"] = self.id
        return {"properties": p, "data": [d]}

    def copy(self):
        return Sheet(self.id, self.title, dict(self.cells), dict(self.raw), self.rows, self.cols)


class Google:
    """One per worker.  `books`: id -> [Sheet]; `faults`: kind of request -> what to answer instead"""

    def __init__(self, root):
        self.root = os.path.join(root, "google")
        os.makedirs(self.root)
        p = lambda n: os.path.join(self.root, n)
        self.so, self.ca = p("redirect.so"), p("ca.pem")
        _sh("gcc", "-shared", "-fPIC", "-O1", "-o", self.so, os.path.join(HERE, "native", "redirect.c"), "-ldl")
        ec = ["-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:prime256v1", "-nodes"]
        _sh("openssl", "req", "-x509", *ec, "-keyout", p("ca.key"), "-out", self.ca, "-days", "3650", "-subj", "/CN=stand-in CA")
        with open(p("ext"), "w") as f:
            f.write("basicConstraints=CA:FALSE\nsubjectAltName=DNS:*.googleapis.com,DNS:*.google.com\n")
        _sh("openssl", "req", *ec, "-keyout", p("s.key"), "-out", p("s.csr"), "-subj", "/CN=stand-in")
        _sh("openssl", "x509", "-req", "-in", p("s.csr"), "-CA", self.ca, "-CAkey", p("ca.key"), "-CAcreateserial", "-out", p("s.pem"), "-days", "3650", "-extfile", p("ext"))
        _sh("openssl", "genpkey", "-algorithm", "RSA", "-pkeyopt", "rsa_keygen_bits:2048", "-out", p("sa.key"))
        with open(p("sa.key")) as f:
            self.key = f.read()
        self.reset()
        g = self

        class Handler(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"
            timeout = 60

            def do(self):
                n = int(self.headers.get("Content-Length") or 0)
                body = self.rfile.read(n)
                try:
                    status, answer = g.answer(self.command, self.headers.get("Host", ""), self.path, self.headers, body)
                except Exception as e:              # a mistake of the stand-in
                    g.broken.append(repr(e))
                    status, answer = 500, {"error": {"code": 500, "message": repr(e)}}
                if status is None:
                    self.close_connection = True
                    return
                data = answer if isinstance(answer, bytes) else json.dumps(answer).encode()
                self.send_response(status)
                self.send_header("Content-Type", "application/json; charset=UTF-8")
                self.send_header("Content-Length", str(len(data) + (10 if status == 298 else 0)))
                self.end_headers()
                self.wfile.write(data)
                if status == 298:           # cut off
                    self.close_connection = True
            do_GET = do_POST = do_PUT = do_PATCH = do_DELETE = do

            def log_message(self, *a):
                pass

        class Server(http.server.ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 64

            def handle_error(self, request, client_address):
                pass
        tls = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        tls.load_cert_chain(p("s.pem"), p("s.key"))
        self.server = Server(("127.0.0.1", 0), Handler)
        self.server.socket = tls.wrap_socket(self.server.socket, server_side=True, do_handshake_on_connect=False)
        self.port = self.server.server_address[1]
        threading.Thread(target=self.server.serve_forever, daemon=True).start()

    def env(self):
        return {"LD_PRELOAD": self.so, "VH_PORT": str(self.port), "SSL_CERT_FILE": self.ca}

    def reset(self, books=None, faults=None, blank=lambda x, y: False):
        self.books, self.faults, self.blank = books or {}, faults or {}, blank
        self.log, self.tokens, self.copies, self.broken = [], [], [], []

    def credentials(self, kind, who="me"):
        """Contents of a credentials file"""
        if kind == "service":
            return json.dumps({"type": "service_account", "project_id": "p", "private_key_id": "k", "private_key": self.key, "client_email": who + "@example.com", "client_id": "1",
                               "auth_uri": "https://accounts.google.com/o/oauth2/auth", "token_uri": "https://oauth2.googleapis.com/token"})
        return json.dumps({"type": "authorized_user", "client_id": who, "client_secret": "s", "refresh_token": "r"})

    # -- answers

    def answer(self, method, host, path, headers, body):
        u = urllib.parse.urlsplit(path)
        q = urllib.parse.parse_qs(u.query)
        kind, rest = "unknown", None
        if method == "POST" and u.path.endswith("/token"):
            kind = "token"
        elif method == "GET" and (m := re.fullmatch(r"/v4/spreadsheets/([^/:]+)", u.path)) and host == "sheets.googleapis.com":
            kind, rest = "read", urllib.parse.unquote(m[1])
        elif method == "POST" and (m := re.fullmatch(r"/v4/spreadsheets/([^/:]+):batchUpdate", u.path)) and host == "sheets.googleapis.com":
            kind, rest = "write", urllib.parse.unquote(m[1])
        elif method == "POST" and (m := re.fullmatch(r"/drive/v3/files/([^/:]+)/copy", u.path)) and host == "www.googleapis.com":
            kind, rest = "copy", urllib.parse.unquote(m[1])
        entry = {"kind": kind, "id": rest, "request": f"{method} {host} {path}"}
        if kind == "token":
            entry["who"] = body.decode("utf-8", "replace")
        self.log.append(entry)
        n = sum(1 for e in self.log if e["kind"] == kind)
        fault = self.faults.get(kind)
        if fault is not None and (fault[0] is None or fault[0] == n):
            entry["fault"] = fault[1]
            f = fault[1]
            if f == "closed":
                return None, None
            if f == "not json":
                return 200, b"<html>Sorry</html>"
            if f == "error not json":
                return 502, b"<html>Bad Gateway</html>"
            if f == "empty":
                return 200, b""
            if f == "truncated":
                return 298, b'{"spreadsheetId": "x", "sheets": [{"prop'
            if f == "slow":
                time.sleep(.4)
            else:
                return f, {"error": {"code": f, "message": f"fault {f}", "status": "FAULT"}}
        if kind == "token":
            t = f"token{len(self.tokens)}"
            self.tokens.append(t)
            return 200, {"access_token": t, "expires_in": 3600, "token_type": "Bearer"}
        if headers.get("Authorization") not in ["Bearer " + t for t in self.tokens]:
            entry["fault"] = "unauthorized"
            return 401, {"error": {"code": 401, "message": "no valid credentials", "status": "UNAUTHENTICATED"}}
        if kind == "unknown":
            return 404, b"<html>404</html>"
        if rest not in self.books:
            entry["fault"] = "no such"
            return 404, {"error": {"code": 404, "message": "Requested entity was not found.", "status": "NOT_FOUND"}}
        book = self.books[rest]
        if kind == "read":
            sheets = []
            for i, s in enumerate(book):
                j = s.json(self.blank)
                j["properties"]["index"] = i
                if (q.get("includeGridData") or ["false"])[0] != "true":
                    j.pop("data")
                sheets.append(j)
            return 200, {"spreadsheetId": rest, "properties": {"title": "t", "locale": "en_US"}, "sheets": sheets, "spreadsheetUrl": "https://example.com"}
        if kind == "copy":
            self.copies.append({s.id: dict(s.cells) for s in book})
            return 200, {"kind": "drive#file", "id": "copy", "name": "Copy of t", "mimeType": "application/vnd.google-apps.spreadsheet"}
        try:
            req = json.loads(body)
            entry["body"] = req
            self.apply(book, req)
        except (Refused, ValueError) as e:
            entry["refused"] = str(e)
            return 400, {"error": {"code": 400, "message": str(e), "status": "INVALID_ARGUMENT"}}
        return 200, {"spreadsheetId": rest, "replies": [{}] * len(req["requests"])}

    def apply(self, book, req):
        """All of the requests or none"""
        if set(req) - {"requests", "includeSpreadsheetInResponse", "responseRanges", "responseIncludeGridData"}:
            raise Refused(f"unknown names in {sorted(req)}")
        if not req.get("requests"):
            raise Refused("Must specify at least one request.")
        new = [s.copy() for s in book]
        for i, r in enumerate(req["requests"]):
            if list(r) != ["updateCells"]:
                raise Refused(f"requests[{i}]: the stand-in doesn't know {sorted(r)}")
            r = r["updateCells"]
            if set(r) - {"rows", "fields", "start"}:
                raise Refused(f"requests[{i}]: the stand-in doesn't know {sorted(r)}")
            if r.get("fields") != "*":
                raise Refused(f"requests[{i}].updateCells: fields {r.get('fields')!r}: the stand-in only knows *")
            start = r.get("start") or {}
            valid(start, {"sheetId": int, "rowIndex": int, "columnIndex": int}, f"requests[{i}].updateCells.start")
            sid, y0, x0 = start.get("sheetId") or 0, start.get("rowIndex") or 0, start.get("columnIndex") or 0
            sheet = next((s for s in new if s.id == sid), None)
            if sheet is None:
                raise Refused(f"requests[{i}].updateCells: No grid with id: {sid}")
            for dy, row in enumerate(r.get("rows") or []):
                if set(row) - {"values"}:
                    raise Refused(f"unknown names in {sorted(row)}")
                for dx, c in enumerate(row.get("values") or []):
                    x, y = x0 + dx, y0 + dy
                    if x >= sheet.cols or y >= sheet.rows:
                        raise Refused(f"requests[{i}].updateCells: Range exceeds grid limits.")
                    valid_cell(c, f"requests[{i}].updateCells.rows[{dy}].values[{dx}]")
                    sheet.put(x, y, c)
        for s, n in zip(book, new):
            s.cells, s.raw = n.cells, n.raw


# ------------------------------------------------------------------------------------- judging

NUMFMT = {"$#,##0_-": "CURRENCY", "yyyy-mm-dd": "DATE", "d/m/yy h:mm": "DATE_TIME", "0": "NUMBER", "0%": "PERCENT", "@": "TEXT", "h:mm AM/PM": "TIME", "0.00E+00": "SCIENTIFIC"}
EDGES = {"thin": "SOLID", "medium": "SOLID_MEDIUM", "thick": "SOLID_THICK", "dashed": "DASHED", "dotted": "DOTTED", "double": "DOUBLE"}


def _color(c, want):
    """Is the color style the one of RRGGBB?"""
    if want is None:
        return c is None
    c = (c or {}).get("rgbColor")
    return c is not None and all(abs(c.get(n, 0.0) - int(want[i:i + 2], 16) / 255) < 1e-4 for n, i in (("red", 0), ("green", 2), ("blue", 4)))


def value_mismatch(v, c):
    got = c.get("userEnteredValue") or {}
    if v is None:
        return f"expected an empty cell, got {got}" if got else None
    if v[0] == "text":
        return None if got == {"stringValue": v[1]} else f"expected the text {v[1]!r}, got {got}"
    e = v[1]
    if e[0] == "num" and not e[1] and not e[3]:
        return None if got == {"numberValue": float(e[2])} else f"expected the number {e[2]}, got {got}"
    if e[0] == "bool":
        return None if got == {"boolValue": e[1]} else f"expected the boolean {e[1]}, got {got}"
    if e[0] == "str":
        return None if got == {"stringValue": e[1]} else f"expected the string {e[1]!r}, got {got}"
    f = got.get("formulaValue")
    if f is None or len(got) != 1:
        return f"expected the formula ={lang.show(e)}, got {got}"
    try:
        if prog.same_formula(e, f[1:]):
            return None
    except lang.BadFormula as x:
        return f"expected the formula ={lang.show(e)}, got {f!r} ({x})"
    return f"expected the formula ={lang.show(e)}, got {f!r}"


def style_mismatch(s, c):
    f = c.get("userEnteredFormat") or {}
    t = f.get("textFormat") or {}
    for k, n in (("bold", "bold"), ("italic", "italic"), ("strike", "strikethrough"), ("underline", "underline")):
        if bool(t.get(n)) != (k in s.text):
            return f"{k} is {t.get(n)}"
    if t.get("fontSize") != s.size:
        return f"the font size is {t.get('fontSize')}, expected {s.size}"
    if t.get("fontFamily") != s.font:
        return f"the font is {t.get('fontFamily')!r}, expected {s.font!r}"
    if not _color(t.get("foregroundColorStyle"), s.fcolor) or t.get("foregroundColor"):
        return f"the color of the font is {t}, expected {s.fcolor}"
    if not _color(f.get("backgroundColorStyle"), s.fill) or f.get("backgroundColor"):
        return f"the color of the cell is {f.get('backgroundColorStyle')}, expected {s.fill}"
    b = {k: v for k, v in (f.get("borders") or {}).items() if v.get("style") != "NONE"}
    if set(b) != s.borders:
        return f"borders are {sorted(b)}, expected {sorted(s.borders)}"
    for side, v in b.items():
        if v.get("style") != EDGES[s.bstyle]:
            return f"the {side} border is {v.get('style')}, expected {s.bstyle}"
        if not _color(v.get("colorStyle"), s.bcolor):
            return f"the {side} border has the color {v.get('colorStyle')}, expected {s.bcolor}"
    want = {"horizontalAlignment": s.halign.upper(), "verticalAlignment": {"center": "MIDDLE"}.get(s.valign, s.valign.upper()),
            "wrapStrategy": {"wrap": "WRAP", "clip": "CLIP", "overflow": "OVERFLOW_CELL"}[s.wrap]}
    for k, w in want.items():
        if f.get(k) != w:
            return f"{k} is {f.get(k)}, expected {w}"
    n = f.get("numberFormat") or {}
    if n.get("type") != NUMFMT[s.numfmt]:
        return f"the number format is {n}, expected {NUMFMT[s.numfmt]}"
    extra = set(f) - set(want) - {"textFormat", "borders", "backgroundColorStyle", "numberFormat"}
    if extra:
        return f"formatted with {sorted(extra)}"
    if c.get("note") != s.note:
        return f"the note is {c.get('note')!r}, expected {s.note!r}"
    return validation_mismatch(s.dv, c.get("dataValidation"))


_NUM = {"equal": "NUMBER_EQ", "greaterThan": "NUMBER_GREATER", "greaterThanOrEqual": "NUMBER_GREATER_THAN_EQ", "lessThan": "NUMBER_LESS", "lessThanOrEqual": "NUMBER_LESS_THAN_EQ",
        "notEqual": "NUMBER_NOT_EQ", "between": "NUMBER_BETWEEN", "notBetween": "NUMBER_NOT_BETWEEN"}
_DATE = {"equal": "DATE_EQ", "greaterThan": "DATE_AFTER", "greaterThanOrEqual": "DATE_ON_OR_AFTER", "lessThan": "DATE_BEFORE", "lessThanOrEqual": "DATE_ON_OR_BEFORE",
         "between": "DATE_BETWEEN", "notBetween": "DATE_NOT_BETWEEN"}


def _date(u):
    m = re.fullmatch(r"(\d{4})-(\d{2})-(\d{2})", u)
    if m:
        return tuple(map(int, m.groups()))
    m = re.fullmatch(r"(\d{1,2})/(\d{1,2})/(\d{4})", u)
    return (int(m[3]), int(m[1]), int(m[2])) if m else u


def validation_mismatch(dv, got):
    if dv is None or got is None:
        return None if dv is got else f"the validation is {got}, expected {dv}"
    kind, op, args = dv
    cond = got.get("condition") or {}
    values = [v.get("userEnteredValue") for v in cond.get("values") or []]
    if kind in ("date", "date2"):
        ok = cond["type"] == _DATE[op] and [_date(v) for v in values] == [(a.year, a.month, a.day) for a in args]
    elif kind in ("num", "num2"):
        ok = cond["type"] == _NUM[op] and [str(int(v)) for v in values] == [str(a) for a in args]
    elif kind == "custom":
        ok = cond["type"] == "CUSTOM_FORMULA" and values == ["=" + args[0].lstrip("=")]
    elif kind == "range":
        ok = cond["type"] == "ONE_OF_RANGE" and len(values) == 1 and validations.same_reference(values[0].lstrip("="), args[0])
    elif kind == "list":
        ok = cond["type"] == "ONE_OF_LIST" and values == list(args)
    else:
        ok = cond["type"] == {"is_date": "DATE_IS_VALID", "email": "TEXT_IS_EMAIL", "url": "TEXT_IS_URL", "contains": "TEXT_CONTAINS", "lacks": "TEXT_NOT_CONTAINS", "text_eq": "TEXT_EQ"}[kind] \
            and values == list(args)
    return None if ok else f"the validation is {got}, expected {dv}"
