#!/usr/bin/env python3
"""Writes known_findings.json: the repaired defects (commits of /repo) and the ones left as they are."""
import json, os, subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject of the commit -> property
FIXED = {
    "escape quotes in the texts": "C08", "count trimmed whitespace": "C01", "dots anywhere within": "C03", "unsupported .ods": "C12",
    "report errors in the command line": "C21", "key/values without a key": "C21", "keep all of the file name": "C17",
    "keep the data validations of the Excel cells": "C16", "replace the note of": "C16", "fill blank formatted cells": "C16", "the same error whatever order": "C18",
    "attach notes to their own": "C09", "color of borders": "C07", "keep existing CSV values next": "C15",
    "end the range of a fill before": "C06", "range of a fill without an amount": "C06",
    "use statements after a definition": "C10", "calls which the functions of a dependency": "C10",
    "pass the imports of a module on": "C10", "use statement without the name": "C10", "report modules which can't": "C10", "modules with a dot": "C10", "names of sheets in the ranges": "C08", "sheet names with blanks": "C08", "quotes in the items of lists": "C08", "Excel output whose end": "C13", "characters which XML": "C02", "single-quoted items of lists": "C08", "object code is corrupt": "C11", "reuse object code which is out of date": "C11",
    "circular definitions": "C04", "function parameters by module variables": "C04",
    "all of the arguments of a call at once": "C04", "calls nested in the arguments": "C04",
    "expected and received argument counts": "C04", "omitted function arguments": "C03",
    "a second `%`": "C03", "consecutive prefix signs": "C03", "trailing input after a formula": "C03",
    "whole words as keywords": "C03", "position of syntax errors": "C14", "unrecognized non-ASCII": "C12",
    "color with non-ASCII": "C12", "malformed ranges of validations": "C12", "bytes and characters": "C02", "count columns from 0": "C01",
    "quoted field which is never closed": "C01", "fields iteratively": "C12", "regex for every line": "C12", "more columns or rows than Excel": "C12",
    "names the Google Sheets API has": "C20", "border=all in Google": "C20", "data validations as values": "C20", "validations as formulas to Google": "C20", "validations of Google Sheets": "C20",
    "the first 1000": "C20", "row and column offset in Google": "C20", "blank cells of existing Google": "C20", "Google sheet whose cells": "C20", "programs without cells to Google": "C20",
    "output extension which is not UTF-8": "C21", "ids of Google sheets": "C21",
    "whitespace field separator": "C01", "newline after a quoted field": "C01",
}
OPEN = [
    ("C15", "blank-line-before", "a blank line in an existing CSV file is skipped when reading it, so the cells below move up by a row (the csv crate skips blank lines)"),
    ("C01", "empty-field-at-end", "an empty last field of the last record is dropped at the end of a text without a final newline (pinned by csvp/tests or tests/csv.rs::odd_row_widths)"),
    ("C03", "subtraction-chain", "chains of - and / group from the right: =1 - 2 - 3 becomes (1 - (2 - 3)) (pinned by tests/syntax.rs)"),
    ("C03", "quote-in-string", 'a string with embedded quotes is written without doubling them: ="say ""hi""" (pinned by tests/csv.rs::write_string)'),
    ("C03", "hash-in-formula", 'a # outside of quotes in the formula of a cell starts a comment: =A1#B1 becomes =A1'),
    ("C07", "color-order", "colors are written as RRGGBBAA where Excel reads AARRGGBB, so that #ff0000 is not red"),
    ("C08", "list-comma", "an item with a comma in it becomes two items of an Excel list: in_list('a,b' 'c') offers a, b and c (literal lists of Excel can't hold a comma)"),
    ("C08", "long-list", "a list, or a message, of more than 255 characters is written to Excel files, which Excel doesn't take"),
    ("C09", "sheet-name-limits", "sheet names of more than 31 characters, or with one of []:*?/\\, are written as they are, which Excel takes for a corrupt file"),
    ("C09", "long-text", "texts of more than 32767 characters, which a cell of Excel doesn't take, are written as they are"),
    ("C08", "date-epoch", "dates of validations count from 1900-01-01 as day 0, two days off what Excel counts"),
    ("C10", "circular-imports", "in a circle of imports, what a function uses of modules that its caller does not see is left unresolved"),
    ("C12", "deep-nesting", "a formula nested several thousand levels deep overflows the stack"),
    ("C21", "offset", "--x-offset and --y-offset have no effect on CSV and Excel files"),
    ("C16", "error-value", "error values like #N/A of an existing workbook are written back as #VALUE! (by the umya-spreadsheet library)"),
    ("C16", "validation-error", "the error texts and styles of the data validations of an existing workbook are lost (the umya-spreadsheet library doesn't read them)"),
    ("C20", "google-sheet-name", "-n has no effect on Google Sheets: the first sheet of the spreadsheet is written to, whatever it is called"),
    ("C12", "huge-fill", "a fill of thousands of millions of lines runs out of memory and aborts instead of being rejected"),
]


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x00%s"], capture_output=True, text=True).stdout
    out, used = [], set()
    for l in log.splitlines():
        h, s = l.split("\0")
        if not s.startswith("fix:"):
            continue
        k = [k for k in FIXED if k in s]
        assert len(k) == 1, (s, k)
        what = s[5:]
        out.append({"property": FIXED[k[0]], "id": "fixed-" + h, "status": "fixed", "commit": h, "what": what,
                    "line": f"fixed: property={FIXED[k[0]]} {h} {what}"})
    for p, i, w in OPEN:
        out.append({"property": p, "id": i, "status": "open", "what": w})
    with open(os.path.join(VERIF, "known_findings.json"), "w") as f:
        json.dump({"findings": out}, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
