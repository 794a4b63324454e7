#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, tech, note, na=None, hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier={"over": over, "text": " ".join(quant.split())},
                  why_tests_cant=" ".join(why.split()),
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           "observe_at": observe, "hook_needed": hook},
                  _tech=tech, _note=" ".join(note.split()), _na=na))


COMMON = ("Held on the generated workloads of the run, not verified. Trusts the generator's model of the language, the independent "
          "readers (Python csv, zipfile/ElementTree reader of XLSX, formula parser) and the executor, which follows src/main.rs. ")

prop("C01", "CSV reading is lossless and positions are exact",
     """Reading any well-formed CSV text with any separator yields exactly its records and fields: quotes are removed and doubled quotes
     undone, surrounding blanks are trimmed, commas, separators and newlines inside of quotes are kept, comment lines and line continuations are skipped,
     and the rows and columns of the fields count from the first record.
     Every field carries, for each of its characters, the line and column of the source text it came from.
     A quoted field which never ends, or is followed by something else than a separator or line end, is an error and never a guess.""",
     ["inputs"], "All source texts: fields with any Unicode text, all quoting and padding spellings, LF and CRLF, any separator, ragged and blank lines, any number of lines above.",
     "tests/csv.rs and the unit tests of csvp sample a few dozen texts; quoting, padding, continuation, comments, multi-byte characters and line ends interact in every combination.",
     ["csvp/src/parser.rs", "csvp/src/field_builder.rs", "csvp/src/field.rs", "csvp/src/source_position.rs"],
     [("recursive-descent CSV parser", "csvp/src/parser.rs"), ("per-character positions", "csvp/src/field_builder.rs")],
     ["csvp::parse results"], "generated CSV spellings, reference-model monitor over parsed fields and positions",
     COMMON + "The oracle is the list of fields the text was generated from, and the position at which each character was written.")

prop("C02", "Literal cells come out exactly as they went in",
     """Compiling a sheet of plain cells to CSV or to Excel produces every cell with exactly the text that was written, at the same row and column, whatever
     text it is (separators, quotes, newlines, Unicode, number-like and date-like text, brackets) and with or without a code section.
     No cell is dropped, duplicated, moved or converted, and rows are only padded with empty cells up to the widest one (CSV).""",
     ["inputs"], "All sheets of literal cells, of any shape, in any spelling, through both file targets.",
     "The existing tests compile about a dozen small sheets; which characters survive lexing, evaluation and writing depends on their combination.",
     ["src/source_code/mod.rs", "src/parser/cell_parser/mod.rs", "src/spreadsheet/mod.rs", "src/target/csv/mod.rs", "src/target/excel/excel_cell.rs"],
     [("code and cells are split at ---", "src/source_code/mod.rs"), ("cells are parsed one by one", "src/spreadsheet/mod.rs"), ("cells are written", "src/target/csv/mod.rs, src/target/excel/mod.rs")],
     ["output .csv", "output .xlsx"], "generated sheets, conservation monitor over every cell of the output file", COMMON)

prop("C03", "Formulas keep their meaning",
     """A formula in a cell comes out as a formula with the same meaning: the same operators, grouping, function names, argument order and count (also omitted
     ones), references, numbers with sign and percent, strings and booleans.
     Precedence and parentheses are preserved, spacing and redundant parentheses do not matter, names that are not defined are kept as written,
     and input after a complete formula is an error rather than dropped.""",
     ["inputs"], "All formulas over the supported operators, calls, references and literals, of any nesting, in any spacing.",
     "tests/syntax.rs and tests/functions.rs have a few dozen formulas; precedence, grouping and omitted arguments combine without bound.",
     ["src/parser/ast_parser.rs", "src/parser/ast_lexer/mod.rs", "src/parser/ast_lexer/token_library.rs", "src/ast/display.rs", "src/ast/node.rs"],
     [("Pratt parser", "src/parser/ast_parser.rs"), ("printer", "src/ast/display.rs")],
     ["formulas of the output .csv and .xlsx"], "generated formulas, output re-parsed by an independent parser and compared as trees",
     COMMON + "Chains of the same precedence that need grouping from the left are written with parentheses (known finding).")

prop("C04", "Functions and variables are expanded completely and hygienically",
     """Every reference to a defined variable and every call of a defined function is replaced by its definition, with all parameters substituted
     simultaneously by their arguments, wherever it occurs (arguments, bodies, operators, other definitions) and in whatever order the definitions are written.
     A parameter shadows a variable of the same name only inside its function, arguments are never captured, and whatever is not defined is left as it is.
     Calling a defined function with a wrong number of arguments is an error, and definitions which refer to each other in a circle never make the compiler run on without end.""",
     ["programs"], "All programs of variable and function definitions and uses: any dependency graph, nesting, shadowing, naming and order.",
     "tests/functions.rs, tests/variables.rs and the unit tests of eval have single-level examples; capture, shadowing and order only show up in combinations.",
     ["src/ast/eval.rs", "src/ast/references.rs", "src/compiler/mod.rs", "src/scope/mod.rs", "src/parser/code_section_parser.rs"],
     [("iterated substitution", "src/compiler/mod.rs, src/ast/eval.rs"), ("which names are referenced", "src/ast/references.rs")],
     ["formulas of the output"], "generated programs, reference interpreter as monitor over output formulas", COMMON)

prop("C05", "Cell, row and command line variables resolve relative to their use",
     """A variable bound to a cell resolves to the address of that cell, one bound to a row to that row; used in a row of the fill that binds it, it resolves to
     the cell or row of the same line, and anywhere else to the range over all lines of the fill.
     Values given on the command line are visible wherever nothing closer defines the name: definitions of the code section win over cell variables, which
     win over the command line; names are case-sensitive.""",
     ["programs", "configurations"], "All placements of bindings and uses (before, after, inside, outside of fills, through functions and other variables), all names, all -k values.",
     "tests/variables.rs and tests/fills.rs have one example per rule; the address depends on every fill above, on where the use is and on the chain of definitions leading to it.",
     ["src/ast/variable_value.rs", "src/spreadsheet/mod.rs", "src/compiler/mod.rs", "src/cli_args.rs", "src/config/mod.rs", "src/scope/mod.rs"],
     [("variables are collected from cells", "src/spreadsheet/mod.rs"), ("relative resolution", "src/ast/variable_value.rs"), ("precedence of scopes", "src/compiler/mod.rs")],
     ["formulas of the output"], "generated sheets with bindings and fills, reference resolution as monitor over output formulas", COMMON)

prop("C06", "Fills repeat a row exactly as often as asked and shift what follows",
     """A row with fill=N occurs exactly N times in the output, one without an amount until row 1000 of the spreadsheet, every repetition with the same literals,
     options and its formulas evaluated for its own line.
     All rows after it move down accordingly and every reference to a bound cell or row accounts for all fills above it.""",
     ["programs"], "All sequences of filled and plain rows, any amounts (0, 1, large, unbounded), in any order, in both file targets.",
     "tests/fills.rs and the benches have one or two fills; the arithmetic over several fills, of 0 or 1 lines and of unbounded ones, is not sampled.",
     ["src/cell_options/fill/mod.rs", "src/cell_options/fill/into.rs", "src/spreadsheet/mod.rs", "src/row/mod.rs", "src/compiler/mod.rs"],
     [("fills are expanded before evaluation", "src/compiler/mod.rs"), ("range of a fill", "src/cell_options/fill/mod.rs")],
     ["rows, formulas and styles of the output"], "generated fills, row-count and line-relative monitors over the output", COMMON)

prop("C07", "Cell and row options become exactly the styles they name in Excel",
     """Every option of a cell (bold, italic, underline, strikethrough, font family, size and colors, fill color, borders with style and color, alignments, wrapping, number format)
     and its shorthands take effect on exactly that cell of the Excel file, and options of a row on every cell of the row, including rows repeated by a fill.
     Options of a cell add to or override those of its row, nothing else is styled, and unknown options or values are errors.""",
     ["inputs"], "All combinations of options, values, long and short names, letter case of values, separators, on cells and rows and within fills.",
     "The tests check that options parse; no test reads a style back from a written workbook, and combinations are unbounded.",
     ["src/parser/cell_parser/mod.rs", "src/cell_options/mod.rs", "src/row/mod.rs", "src/target/excel/excel_cell.rs", "src/rgb/try_from.rs"],
     [("options are parsed over the row's", "src/parser/cell_parser/mod.rs"), ("styles are written", "src/target/excel/excel_cell.rs")],
     ["styles.xml and sheet XML of the output"], "generated options, style oracle over the workbook read back", COMMON)

prop("C08", "Data validations become the Excel rules they name",
     """Every data validation of a cell, in each of its spellings and with any arguments, produces exactly one rule of the right kind, operator and operands on exactly the cells that have it
     (each cell of the row or fill for a row option), whose formula refers to the cell itself.
     No other cell gets a rule, and a wrong number or kind of arguments or an unknown validation is an error.""",
     ["inputs"], "All validations, spellings, dates, numbers, texts, lists and ranges, on any cell, in any number per sheet.",
     "The tests of excel/cell_validation.rs construct a few rules by hand; none reads a workbook back, or counts the rules of several cells.",
     ["src/parser/cell_parser/validate.rs", "src/cell_options/data_validation.rs", "src/target/excel/cell_validation.rs", "src/target/excel/mod.rs", "src/date_time/try_from.rs"],
     [("parsing of validations", "src/parser/cell_parser/validate.rs"), ("rules", "src/target/excel/cell_validation.rs")],
     ["dataValidations of the sheet XML"], "generated validations, rule oracle over the workbook read back", COMMON)

prop("C09", "Excel files hold every value as its type, with notes on their own cell",
     """In the Excel output a literal is a text, a formula that is a plain number, boolean or string is that number, boolean or string, every other formula a formula, and an empty cell holds
     nothing; each is on the sheet of the requested (or default) name at its own address.
     Every note is attached to the cell that has it with exactly its text, one per cell, and to no other.""",
     ["inputs"], "All mixtures of texts, formulas, empty cells, notes and fills, sheet names and sizes.",
     "tests/excel.rs checks that a file is written; types, addresses beyond column Z, and notes are not read back.",
     ["src/target/excel/mod.rs", "src/target/excel/excel_cell.rs", "src/config/mod.rs"],
     [("cells and notes are written", "src/target/excel/mod.rs")],
     ["sheet XML, comments of the output"], "generated sheets, typed-value and note monitor over the workbook read back", COMMON)

prop("C10", "Modules export their definitions to those who use them and to nobody else",
     """A module sees the variables and functions of exactly the modules it uses: not those of the modules they use in turn, although what it calls works with them.
     Its own definitions win over imported ones, without affecting what the imported functions themselves refer to; the same module may be used along several paths, several times and from anywhere in the code section.
     A module that cannot be found or does not parse is an error naming it, and modules may use each other in a circle.""",
     ["programs"], "All import graphs (chains, trees, diamonds, cycles, duplicate uses) with colliding and private names.",
     "tests/modules.rs has a handful of two- and three-file programs without collisions, shadowing or order changes.",
     ["src/module_loader/mod.rs", "src/module/mod.rs", "src/module_path/mod.rs", "src/compiler/mod.rs", "src/parser/code_section_parser.rs"],
     [("parallel loading", "src/module_loader/mod.rs"), ("direct dependencies", "src/module/mod.rs")],
     ["formulas of the output", "error messages"], "generated import graphs, reference linker as monitor over output formulas", COMMON)

prop("C11", "Cached object code never changes the result",
     """Compiling with object code left by earlier compilations gives exactly the output or the error that compiling from scratch gives, after any history of edits, deletions, option changes and compilations, of the
     main file or of the modules it uses.
     Object code that is truncated, unreadable, of another version, written for another file or (by its time) not newer than its source is never trusted nor fatal, and none is read or written when caching is off.""",
     ["histories", "fault_sequences"], "All histories of edits and compilations (with and without caching, with changed command lines and file times), and all corruptions of object files.",
     "tests/object_code.rs compiles once or twice in one order.",
     ["src/compiler/mod.rs", "src/module/mod.rs", "src/module_loader/mod.rs", "src/source_code/mod.rs"],
     [("staleness check", "src/module/mod.rs, src/module_loader/mod.rs"), ("cache on/off", "src/config/mod.rs")],
     ["output of a cached and an uncached compilation", "directory listing"], "random edit/compile histories, differential monitor cached vs clean", COMMON)

prop("C12", "Every input ends in an output or a described error, promptly",
     """Whatever bytes the source, the modules and the command line contain, the compiler ends with an output or an error that has a message: it never panics, overflows, aborts, or runs on
     without end.""",
     ["inputs", "configurations"], "All source texts (valid, mutated, random, hostile Unicode, long or nested to a few hundred levels) and command lines.",
     "The tests feed mostly valid programs; robustness is about the inputs nobody thought of.",
     ["src/parser/cell_lexer/mod.rs", "src/parser/ast_lexer/mod.rs", "src/parser/ast_parser.rs", "src/parser/cell_parser/mod.rs", "src/source_code/mod.rs", "csvp/src/parser.rs", "src/ast/eval.rs", "src/error/display.rs"],
     [("lexers", "src/parser/*_lexer"), ("errors instead of panics", "src/error")],
     ["exit of the compiler"], "grammar-based and mutational fuzzing with overflow checks and panic/abort/hang monitors",
     "Held on the inputs of the run. Nesting beyond a few hundred levels overflows the stack (known finding).")

prop("C13", "A failed compilation changes nothing and says so",
     """When a program cannot be compiled (any error in the source, a module, the options or the command line), the existing output file keeps its bytes, no output, temporary or backup file appears, the exit
     status is not zero and the error output says why.
     When it succeeds the exit status is zero, the output is complete, only the output (and object code, if caching) is written and the sources keep their bytes.""",
     ["inputs", "fault_sequences"], "All kinds of errors, in any place of the program, with existing output of either kind, unreadable or unwritable paths.",
     "No test runs the command line program on a failing compilation and looks at what is left on disk.",
     ["src/main.rs", "src/compiler/mod.rs", "src/target/csv/compilation_target.rs", "src/target/excel/compilation_target.rs", "src/output/try_from.rs"],
     [("compile before the target is opened", "src/main.rs")],
     ["directory snapshot", "exit status", "stderr"], "fault injection into programs and paths, file-system snapshot monitor around the real program", COMMON)

prop("C14", "Errors name the line and the cell of the mistake",
     """When a mistake is in the code section or a module, the error names that file and the line of the mistake; when it is in a cell, the error names that cell's line
     and address, whatever comes before it (code, comments, blank lines, multi-line fields, continued lines, multi-byte characters).
     The source excerpt of the error shows that very line.""",
     ["inputs"], "All positions of a mistake in otherwise valid programs, all layouts before it.",
     "The tests look at a few error values of one-line inputs; offsets go wrong with what precedes the mistake.",
     ["src/error/parse_error.rs", "src/error/cell_parse_error.rs", "src/source_code/errors.rs", "src/source_code/mod.rs", "src/error/bad_input.rs", "csvp/src/source_position.rs"],
     [("positions are kept per character", "csvp/src/field.rs"), ("highlighted lines", "src/source_code/errors.rs")],
     ["error messages"], "injected mistakes at known places, location monitor over error messages", COMMON)

prop("C15", "Writing to an existing CSV keeps what is not overwritten",
     """Compiling onto an existing CSV file replaces exactly the cells the program covers and keeps every other cell, to the right and below, at its place.
     With the safe mode existing non-empty cells are kept too and only empty ones are filled; doing the same compilation again changes nothing.""",
     ["histories", "inputs"], "All pairs of an existing file and a program of any two shapes, both modes, and sequences of compilations.",
     "tests/overwrite*.rs merge one small pair of grids.",
     ["src/target/csv/mod.rs", "src/target/mod.rs", "src/target/csv/compilation_target.rs"],
     [("merge of cells", "src/target/csv/mod.rs, src/target/mod.rs")],
     ["the file before and after"], "random pairs and sequences of grids, cell-wise merge model as monitor", COMMON)

prop("C16", "Writing to an existing workbook keeps what is not overwritten",
     """Compiling onto an existing Excel workbook writes the program's cells to the named sheet, which is created if it is missing, and keeps every other sheet and every cell, style, note and data validation of the named sheet that
     the program does not cover.
     With the safe mode existing non-empty cells keep their value; doing the same compilation again changes nothing.""",
     ["histories", "inputs"], "All pairs of an existing workbook (several sheets, values, formulas, styles, notes, validations, merged cells) and a program, both modes, and sequences of compilations.",
     "The tests merge one cell in one sheet.",
     ["src/target/excel/mod.rs", "src/target/excel/compilation_target.rs", "src/target/mod.rs"],
     [("merge of worksheets", "src/target/excel/mod.rs")],
     ["the workbook before and after"], "random pairs and sequences of workbooks, merge model as monitor over the workbook read back", COMMON)

prop("C17", "A backup is the previous output, byte for byte",
     """With the backup option the output file as it was before the compilation exists afterwards under a new name next to it, byte for byte; no earlier backup or other file is changed or lost however many there are.
     If the backup cannot be made the output file is not changed.""",
     ["histories", "fault_sequences"], "All file names and contents, numbers of earlier backups, sequences of compilations, unwritable directories.",
     "tests/backup.rs and the unit test of file_backer_upper make one or two backups.",
     ["src/target/file_backer_upper.rs", "src/target/csv/compilation_target.rs", "src/target/excel/compilation_target.rs", "src/main.rs"],
     [("first free backup name", "src/target/file_backer_upper.rs")],
     ["directory snapshot"], "random histories of compilations with backups, no-loss monitor over directory snapshots", COMMON)

prop("C18", "Compilation is deterministic and unaffected by parallelism",
     """Compiling the same program gives the same bytes (CSV), the same workbook contents (Excel) or the same error every time: whatever the number of threads, the order in which modules are loaded, hash seeds, and other
     compilations running at the same time, also those sharing its modules and object code.""",
     ["schedules", "configurations"], "All schedules of module loading and cell evaluation, thread counts, hash seeds and concurrent compilations in one directory.",
     "The tests compile once, mostly single modules.",
     ["src/module_loader/mod.rs", "src/compiler/mod.rs", "src/module/mod.rs", "src/scope/mod.rs"],
     [("rayon loading and evaluation", "src/module_loader/mod.rs, src/compiler/mod.rs"), ("object code shared through the file system", "src/module/mod.rs")],
     ["outputs of repeated and concurrent runs"], "repeated runs over thread counts, processes and concurrent compilations; equality monitor over outputs", COMMON)

prop("C19", "CSV and Excel output agree cell for cell",
     """For any program the cells of the CSV output and of the Excel output agree: the same addresses hold the same texts, the same formulas and the same values, for all features of
     the language together (definitions, modules, variables, fills, options).""",
     ["programs"], "All programs, compiled freshly to both targets.",
     "Each target has its own tests with own inputs; nothing compares them.",
     ["src/target/csv/mod.rs", "src/target/excel/mod.rs", "src/target/excel/excel_cell.rs", "src/compiler/mod.rs"],
     [("both targets write the same compiled spreadsheet", "src/target")],
     ["output .csv", "output .xlsx"], "generated whole programs, cross-target differential monitor plus reference interpreter", COMMON)

prop("C21", "The command line does what it says",
     """Every documented option has its effect and no other: output file or Google sheet, sheet name, key/values, safe mode, backup, caching, verbosity, version and help, in long and short forms, any order and repetition.
     The kind of output follows the file extension; a missing or contradictory target, an unknown extension or option, a malformed key/value and an unreadable source are errors with a non-zero exit status.""",
     ["configurations"], "All combinations and orders of options, valid and not.",
     "The tests construct the parsed options directly; hardly any runs the program.",
     ["src/cli_args.rs", "src/main.rs", "src/config/mod.rs", "src/config/try_from.rs", "src/output/try_from.rs"],
     [("argument parser", "src/cli_args.rs"), ("validation", "src/config/try_from.rs")],
     ["exit status, stdout, stderr, files"], "random command lines against the real program, contract monitor over exit status, output and files", COMMON)

prop("C20", "A Google sheet receives every cell at its place, with its format, and loses nothing else",
     """Compiling to a Google Sheet leaves every cell of the program in the first sheet of the spreadsheet, at its row and column (moved by the offsets), with its value or formula, formatting, note and
     validation, in names and values the Sheets API accepts. Cells the program does not cover and other sheets stay as they are; in safe mode cells which have a value keep it and blank ones are filled.
     A backup is a copy made before anything else; a program with an error makes no request, and after a request fails nothing more is written, the compilation reports the failure and exits with a failure status.
     The credentials are those of the option, or else of the environment, or else of the gcloud configuration. Compiling again changes nothing.""",
     ["inputs", "faults", "histories"], "All programs and existing sheets, any size, offset, options, credentials; refusals, broken, cut off and missing answers at any request.",
     "The tests compare a few hand-written requests and never talk to a server.",
     ["src/target/google_sheets/mod.rs", "src/target/google_sheets/compilation_target.rs", "src/target/google_sheets/batch_update_builder.rs", "src/target/google_sheets/google_sheets_cell.rs", "src/target/google_sheets/credentials.rs"],
     [("reading and updating the sheet", "src/target/google_sheets/compilation_target.rs"), ("batches", "src/target/google_sheets/batch_update_builder.rs"), ("cells", "src/target/google_sheets/google_sheets_cell.rs"), ("credentials", "src/target/google_sheets/credentials.rs")],
     ["requests received by a stand-in server", "exit status"], "the real program against a stand-in for Google's servers with fault injection; monitors over the sheets it ends up with and the order of its requests",
     COMMON + "The stand-in follows the documentation of the Sheets and Drive API; the program is led to it by an LD_PRELOAD library (addresses only), over TLS.")

DONE = [p for p in P if p["_na"] is None and os.path.exists(os.path.join(VERIF, "checks", p["id"].lower() + ".py"))]


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "python3 lib/build.py",
         "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                     "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                     "technique": p["_tech"], "level": "exploration", "level_note": p["_note"]}
                    for p in sorted(DONE, key=lambda p: p["id"])],
         "not_applicable": [{"property": p["id"], "reason": " ".join((p["_na"] or "The check is not built yet.").split())}
                            for p in sorted(P, key=lambda p: p["id"]) if p not in DONE],
         "notes": "See DESIGN.md. Known findings are listed in known_findings.json."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
