#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit the statements)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(qtext.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": files,
                  "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                  "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                  "observe_at": observe, "hook_needed": None}})

J = "src/spex/jsonspec/"
H = "src/spex/htmlspec/"
DOC = J + "document.py"; ST = J + "extractors/structtable.py"; VT = J + "extractors/valuetable.py"
FIG = J + "extractors/figure.py"; HLP = J + "extractors/helpers.py"; RX = J + "extractors/regular_expressions.py"
ROW = J + "rowiter.py"; LINT = J + "lint.py"; PARSE = "src/spex/parse.py"; MAIN = "src/spex/__main__.py"
WR = "src/spex/writer.py"; SCH = "src/spex/resources/stage2.schema.json"; VAL = "src/spex/validate.py"
HR = H + "htmlrenderer.py"; HP = H + "parser.py"; TW = H + "docx/tablewrap.py"; NUM = H + "docx/numbering.py"
STY = H + "docx/styles.py"; RPR = H + "docx/runproperties.py"; HDR = H + "docx/header.py"; DOCX = H + "docx/document.py"
APP = "src/spexsrv/application/app.py"; RV = "src/spexsrv/application/report_view.py"
model = ["the NVMe model (JSON) written for an HTML model or docx"]

p("C01", "Every figure of a document is accounted for, once, in document order",
  """Each top-level table of an HTML model whose first row's text contains "Figure" (a table wrapped in another
  table's first cell counts as the inner one) ends up in the model exactly once and in document order: as one entity
  with the figure's id and complete title, or, when no entity could be made, as one lint entry T1000, T1007 or T1008
  naming it. Tables whose first row has no such title are left out silently, and the model contains no top-level
  entity that does not come from such a table.""",
  ["inputs"], "every sequence of top-level tables: titled or not, with or without a recognisable figure id, wrapped, "
  "unsupported columns, failing or fine, in any order and number",
  "the tests run single-figure documents and one complete example; they do not vary how failing, skipped, wrapped and "
  "untitled tables are interleaved",
  [DOC], [("iteration over body tables, title removal, id regex", DOC + " iter_figures"), ("extractor choice and T1007/T1000", DOC + " _on_parse_fig")],
  model + ["meta.lint", "entities[].fig_id/title"], [("figure-id-missing counter", "numbers the T1008 placeholders", DOC)])

p("C02", "A figure that fails to parse costs the model that figure only",
  """With --skip-figure-on-error, a figure that cannot be parsed (at its own level or inside a nested table) yields no
  top-level entity and exactly one T1000 lint entry for the innermost figure that failed, and every other figure's entities
  and lint entries are exactly those it has in a document without the failing figure. Without that option the first
  failing figure ends the run with exit status 1, and the entities of the figures before it are those of a run without it.""",
  ["inputs", "fault_sequences"], "every number, position and nesting depth of failing figures among good ones, with the option on and off",
  "tests never parse a document with a failing figure next to good ones; failure inside nested tables, several failures in one "
  "document and state left over from a failure are unexplored",
  [DOC, FIG, ST, VT], [("per-figure try/except with an unwind flag", DOC + " _on_parse_fig")], model + ["exit status"],
  [("unwind flag", "whether the current failure was already reported", DOC)])

p("C03", "Every data row of a figure becomes exactly one field, in order",
  """The entity of a bytes, bits or value figure has exactly one field per data row of its table, in row order (reversed for bits
  figures so that fields ascend); rows reading "Reserved", "Obsolete" or starting with "…" are kept as RESERVED, OBSOLETE and "…" fields.
  Only header rows, rows whose range cell itself is such a special word or a note, note rows, single-cell remark
  rows of bits/bytes figures and rows after a closing note row give no field.""",
  ["inputs"], "every sequence of ordinary, special, ellipsis, header, note, remark and short rows, of any length",
  "tests check a few fixed tables; whether a row is lost, duplicated or reordered depends on row-kind sequences and lengths they do not sample",
  [ST, VT, ROW], [("row loop and special-case handling", ST + " __call__"), ("row loop", VT + " __call__"), ("reversal for bits", ST + " __call__")],
  model + ["entities[].fields[]"])

p("C04", "Bit and byte bounds in the model are those printed in the specification",
  """For every row of a bits or bytes figure, a range cell that starts with a number or a "high:low" pair becomes exactly
  those bounds (a single number being both), any other text is kept verbatim as the range with one R1001 lint entry,
  and a pair whose lower bound exceeds its upper bound is kept as printed with one R1002. In dynamic list tables (after
  a header row that spans columns and mentions "List") the two sides of the colon of rows which are not reserved,
  obsolete or ellipses are kept verbatim, without blanks and line breaks, as low and high. Ellipsis rows have bounds -1.""",
  ["inputs"], "every range text: numbers of any magnitude, spacing and line breaks, reversed pairs, formulas, dynamic lists",
  "tests pin a handful of ranges; magnitude, spacing, reversed and formula texts range over an unbounded set",
  [ST, RX], [("range regexes", RX), ("range parsing", ST + " _parse_range/_parse_dynamic_range")], model + ["fields[].range", "lint R1001/R1002"])

p("C05", "Overlap, gap and wrong-order lint is raised exactly where the layout is wrong",
  """For every bits or bytes entity, comparing each field with the previous one having comparable numeric bounds, the lint report has T1001 exactly for fields
  starting at or below the previous field's upper bound, and T1002 exactly for fields starting more than one past it, each naming the field's lower bound as its row. Fields next to ellipses or
  textual ranges are not compared, and a figure having a field that starts below the first field of its run of numeric ranges gets a single T1004 instead and no further layout or duplicate-label lint.""",
  ["inputs"], "every sequence of field bounds (contiguous, overlapping, gapped, reversed, interrupted by ellipses and formulas)",
  "there is no test of the layout checks beyond what one example document happens to contain",
  [ST], [("field validation", ST + " validate_fields")], ["meta.lint T1001/T1002/T1004", "entities[].fields[].range"])

p("C06", "Field names of bit/byte figures are derived as documented and linted",
  """A field of a bits or bytes figure is named by the parenthesised acronym after its text, else by the initials of the
  leading words (when names share the description column), or by the text before the colon of the name column, else by
  the initials of its words with L1003 (when there is a separate name column); the name is lower-cased with blanks and
  dashes turned into underscores. A name that is not a letter followed by word characters, or that was given with blanks
  in a name column of its own, has exactly one L1004 entry for its row and no other name has any, and each repeated name
  in a figure has exactly one L1002 per repetition.""",
  ["inputs"], "every label text (punctuation, digits, acronyms, non-ASCII, empty) in both column arrangements, and every multiset of names",
  "tests pin about a dozen label texts; names derive from free text",
  [ST, HLP, RX], [("label extraction", ST + " _parse_label"), ("normalisation and validation", HLP)], ["fields[].label", "lint L1000/L1002/L1003/L1004"])

p("C07", "Value tables keep each code with its own label; duplicates are linted",
  """In a value figure each row's field pairs the lower-cased text of its value cell with the label of the same row: the leading words of the row's definition (a leading number moved to the end), upper-cased with blanks and dashes
  turned into underscores, or RESERVED. A label that is not a letter followed by word characters has one L1004 entry, and each repeated label or value among non-reserved rows has one L1002 or V1002 entry for its row.""",
  ["inputs"], "every value and definition text and every multiset of values and labels, with shared and separate name columns",
  "tests pin a few value labels; free text and duplicates range over an unbounded set",
  [VT, HLP, RX], [("value and label extraction", VT), ("duplicate checks", VT + " validate_fields")], ["fields[].val/label", "lint L1002/V1002/L1000/L1003/L1004"])

p("C08", "A brief is the row's own description text, and at most 60 characters",
  """A field's brief is the text following the label (and colon) in that row's description cell without leading blanks and
  trailing full stops, if it has at most 60 characters, else its first sentence if that has at most 60; otherwise, or
  when the description has no colon, the field has no brief. No brief contains text from outside that cell.""",
  ["inputs"], "every description text around the length limit, with and without colons, acronyms, several sentences, nested lists and tables",
  "the tests check one or two briefs; the limit, sentence and colon rules depend on arbitrary text",
  [HLP, ST, VT, RX], [("brief extraction", HLP + " content_extract_brief")], ["fields[].brief"])

p("C09", "Merged cells apply to every row and column they cover",
  """In a figure whose cells cover a regular grid, a data cell that spans several rows supplies its content to each of the
  data rows it covers and to no other row, and takes the place among a row's cells that its column position and the widths
  of the cells before it give, for every combination of row and column spans. A header row, and a row wholly covered by earlier cells, ends the spans
  that reach it and gives no field of its own.""",
  ["inputs"], "every arrangement of row and column spans over tables of any size",
  "only two small fixed tables with spans are tested; the span bookkeeping depends on the whole span history of a table",
  [ROW, ST, VT], [("re-insertion of spanning cells", ROW + " row_iter/sorted_row_children")], ["entities[].fields[]"],
  [("pending row spans", "cells still covering following rows", ROW)])

p("C10", "Nested tables become entities linked to the row that contains them",
  """Each table nested in the description cell of a kept data row becomes an own entity, at any depth, whose id is its parent's id, an underscore and the row's key (value, or lower bound or range text), whose parent_fig_id is the parent's id and which appears before its
  parent and in row order; its content and lint are those it would have as a figure of its own under that id. No entity has a parent_fig_id that is not the id of a figure of the document.""",
  ["inputs"], "every nesting shape: depth, several tables in a cell, nested tables in bits, bytes and value parents, unsupported nested tables",
  "one fixed nested figure is tested; depth and combinations are unbounded",
  [FIG, ST, VT, DOC], [("sub-table extraction", FIG + " extract_data_sub_table"), ("recursive figure parsing", DOC + " _on_parse_fig")], ["entities[].fig_id/parent_fig_id and their order"])

p("C11", "A figure's kind and the columns read follow its header row",
  """The kind of a figure (bytes, values or bits, in that priority) and the columns giving range or value, name and description are determined by its column headings alone, ignoring letter case, surrounding and repeated blanks, in any column order; headings code, bit and byte count as value, bits and bytes and give one T1006 entry
  each. A figure whose headings fit no kind yields no entity and exactly one T1007 entry listing all its headings.""",
  ["inputs"], "every sequence of column headings: order, case, spacing, synonyms, extra and missing columns",
  "tests use a few fixed header rows",
  [DOC, FIG, ST, VT], [("header normalisation", DOC + " extract_tbl_headers"), ("column mapping", FIG + " can_apply")], ["entities[].type", "lint T1006/T1007"])

p("C12", "The lint report is complete, and --lint-ignore removes exactly the named codes",
  """The lint section of a model has each issue raised for the document exactly once with its code, that code's message, the
  figure, the row where one applies, and context; an ignored set of codes (any case, blanks around them) removes exactly
  the entries with these codes and changes nothing else in the model. Row-level codes always name a row, and every entry
  names a figure of the document or nested in it.""",
  ["inputs", "configurations"], "every document and every subset of lint codes, in all spellings of the option",
  "one lint combination is tested; subsets of codes times documents is not enumerable by tests",
  [PARSE, LINT, MAIN, DOC], [("ignore filter", PARSE), ("entry construction", LINT)], ["meta.lint", "--lint-ignore"])

p("C13", "A completed run writes a valid UTF-8 JSON model that conforms to its own schema",
  """Whenever a run completes, the model file is well-formed UTF-8 JSON that holds the text of the specification unaltered (any character), has the document's specification, revision, format version, tool version and lint in
  its meta section, and validates against the published schema, so --validate-json never rejects it.""",
  ["inputs", "configurations"], "every document, any characters in it, and any process locale",
  "validation against the schema is only exercised on one small fixture, and encodings are never varied",
  [WR, VAL, SCH, PARSE], [("JSON writer", WR), ("schema", SCH)], ["the JSON file", "--validate-json exit status"])

p("C14", "Document-specific handling applies to that document and revision only",
  """The special handling of particular specifications (fixed labels of some values with L1007, splitting figure 24 out of NVM command set figure 23 and 65 out of management interface figure 64, ignoring the remark row of key value
  figure 41) takes effect exactly when title and revision match that specification ignoring case; every other document is parsed by the general rules alone.""",
  ["inputs", "configurations"], "every pair of title and revision, each with figures having the special ids and rows",
  "no test exercises the special cases or their absence for other documents",
  [J + "quirks/__init__.py", J + "quirks/nvm.py", J + "quirks/mi.py", J + "quirks/kv.py", J + "quirks/zoned.py", J + "parse.py"],
  [("lookup by title and revision", J + "parse.py get_parser"), ("overrides", J + "quirks/")], model)

p("C15", "Exit status and output files tell whether a run completed",
  """The command exits 0 exactly when every input was processed to its end and every model file was completely written (and validated if asked); otherwise, be it a bad argument, an unreadable input, a failing figure or a
  failing write, it exits non-zero. A model file having a lint section is always complete, and inputs processed before the failing one have their complete models.""",
  ["inputs", "fault_sequences", "crash_points"], "every list of inputs (good, failing, unsupported, missing) with every option, and write failures at any point",
  "the tests call the library on single good documents and never the command, several inputs, or failing writes",
  [MAIN, PARSE, WR, VAL], [("top-level loop and exit codes", MAIN), ("writer context", WR)], ["exit status", "files in the output directory"])

p("C16", "A document's model depends on that document and the options only",
  """Parsing a document yields the same model whatever was parsed before it in the same run or process, in whichever order, directory, locale or repetition; a run never changes its input files and writes nothing in the output
  directory other than the outputs of its inputs. Inputs of the same stem share the names of their outputs, which then are those of the last of them. (Of an input that is itself an output of another, nothing is claimed.)""",
  ["histories", "configurations", "schedules"], "every history of earlier parses (including failed ones) and interleavings of concurrent parses, working directories and locales",
  "tests parse each fixture once in a fresh state",
  [PARSE, DOC, MAIN, J + "quirks/__init__.py", STY], [("per-document parser objects", J + "parse.py")], ["JSON and HTML outputs compared between histories"],
  [("caches and class-level tables", "state that could leak between documents", STY + ", " + DOC)])

p("C17", "The HTML model has the table geometry of the docx",
  """Every table of a docx, with any horizontal and vertical merges that cover rectangles, appears in the HTML model with the same grid: each cell once, in row and column order, with exactly the row and column span it has in the docx, so that every grid position is covered by the same cell.""",
  ["inputs"], "every table shape and arrangement of horizontal and vertical merges, in all legal spellings",
  "no test converts a docx with merged cells other than a complete example",
  [TW, HP, HR], [("grid reconstruction", TW + " grid"), ("origin-only rendering", HR + " _render_table")], ["table/tr/td structure of the HTML model"])

p("C18", "All table text of the docx appears in the HTML model, once, in order",
  """The text of every run of every paragraph of a docx table cell, including hyperlinks and simple fields, appears exactly once, in order and unaltered in the corresponding cell of the HTML model, and nested tables appear once, inside the cell that contains them; top-level tables keep their order and
  text outside of tables is left out.""",
  ["inputs"], "every nesting of paragraphs, runs, hyperlinks, fields and tables with arbitrary characters",
  "no test checks the text of generated HTML against the docx",
  [HP, HR, DOCX, H + "stream.py"], [("run selection", HP + " _select_runs/_parse_spans"), ("seen-table set", HP + " _parse_table"), ("escaping", HR)], ["text of the HTML model"],
  [("tables seen", "prevents rendering nested tables twice", HP)])

p("C19", "Lists in table cells keep their items, order and nesting",
  """Consecutive list paragraphs of a docx cell become a list in the HTML model with one item per paragraph in order, nested according to their levels, ordered or unordered as their numbering level says; a paragraph of another list or no list ends it, and no paragraph is lost or duplicated.""",
  ["inputs"], "every sequence of list paragraphs over levels and lists, interrupted by paragraphs and tables",
  "no test covers lists",
  [HP, NUM, HR], [("recursive list parsing", HP + " _parse_list_elems"), ("list rendering", HR + " _render_list")], ["ol/ul/li structure of the HTML model"])

p("C20", "The HTML model is well-formed and identifies specification and figures",
  """For every docx the HTML model is well-formed, names the specification title (header text before the first comma) and revision of the docx header verbatim, and gives each table its figure number as id exactly if its first cell is unshaded and starts with "Figure <number>:". Cells
  shaded in a grey other than white are header cells and all others are data cells.""",
  ["inputs"], "every header text, figure title and cell shading, with arbitrary characters",
  "tests read HTML fixtures and never generate them from such docx files",
  [HR, HP, HDR], [("header parsing", HDR), ("shading heuristic and ids", HP)], ["head/meta, table/@id, td/th of the HTML model"])

p("C21", "Text formatting of the HTML model is that of the docx run and its styles",
  """The formatting of each text run in the HTML model (bold, italic, underline, strike-through, vertical alignment, colour) is what the docx gives: explicit run properties override those of the character style, which override those of the styles it is based on, for chains of any
  length, and runs with different formatting never share a format.""",
  ["inputs"], "every style inheritance graph, alias and combination of explicit on/off properties",
  "no test checks the formatting of generated HTML",
  [RPR, STY, DOCX, H + "css.py"], [("property merge", RPR + " merge"), ("style resolution", STY), ("css class cache", H + "css.py")], ["classes of spans resolved through the generated css"],
  [("style cache", "memoised resolved styles", STY), ("css class cache", "format to class name", H + "css.py")])

p("C22", "Parsing a docx equals converting it and parsing the HTML model",
  """The model obtained from a docx is the same as that obtained by parsing the HTML model generated from it, and its figures are those of the docx: for every docx, titles, fields and lint follow from the docx tables.""",
  ["inputs"], "every docx document", "one complete example is compared with a stored result",
  [PARSE, HR, J + "parse.py"], [("two-stage pipeline", PARSE)], ["JSON from docx and from html"])

p("C23", "A report URL always serves the report of the upload it was issued for",
  """For every interleaving of uploads, parses and downloads, with equal or different file names and contents, /report, /json and /html under a completed upload's URL serve the model and HTML of exactly the content that was uploaded, unaffected by other uploads.""",
  ["schedules", "histories", "inputs"], "every interleaving of concurrent uploads, re-uploads, aborted uploads and downloads, over equal and different names and contents",
  "the server has no tests",
  [APP], [("cache keyed by content hash", APP + " spec_parse")], ["/json/<hash>", "/html/<hash>", "/report/<hash>"],
  [("report cache", "published reports by content hash", APP)])

p("C24", "Uploads stay in their temporary directory, which is always removed",
  """An upload, whatever its file name, never creates or changes a file outside the server's own temporary directories, and once its response has ended, by completion, failure or the client going away, its temporary files are gone. When the server ends, none of its files stay.""",
  ["inputs", "schedules", "fault_sequences"], "every file name, and every point at which an upload fails or the client disconnects",
  "the server has no tests",
  [APP], [("temporary directory per upload", APP + " spec_parse")], ["file system before and after each request"])

p("C25", "Progress events follow the announced protocol",
  """The event stream of an upload consists of progress events followed by one completion event with the report's URL, sent last and only if processing completed; progress events of the html phase (docx only) precede all of the json phase, each phase counts up from 0 in steps of 1, with a constant total greater than every index, one event for each top-level table that is converted and one for each figure of the model (totals are only claimed to exceed the indices as long as each table of the document yields at most one figure).""",
  ["inputs", "schedules"], "every uploaded document (docx or html, nested, failing and empty figures) and interleaving of streams",
  "the server has no tests",
  [APP, PARSE, DOC, HR], [("progress generator", PARSE), ("SSE stream", APP)], ["server-sent events of /parse"])

p("C26", "Unknown or failed reports are 404, and failed uploads publish nothing",
  """A request for a report, model or HTML under a hash for which no upload has completed since the server was started is answered 404, never with a server error, and an upload that fails or is aborted neither publishes a report nor disturbs a published one.
  An upload without a document is refused with 422, one by a client that does not accept event streams with 400, and one of more than 50 MiB with 413, announced or not.""",
  ["histories", "fault_sequences", "schedules"], "every history of completed, failing and aborted uploads with requests in between",
  "the server has no tests",
  [APP], [("cache lookup", APP + " report/json_report/html_report")], ["HTTP status codes"])

p("C27", "The report page shows every lint entry and every erroneous figure",
  """The report of an upload contains the complete model with all lint entries, and for every figure named by a lint entry that has an id in the HTML model, exactly that figure's HTML (the enclosing top-level figure for nested ones) and no other figure's.""",
  ["inputs"], "every combination of lint entries and figure ids, including ids with dashes, dots and letters",
  "the server has no tests",
  [APP, RV], [("erroneous figure lookup", RV)], ["/report/<hash>"])

UP = "src/spexsrv/templates/upload-form.html"; REP = "src/spexsrv/templates/report.html"
p("C28", "The upload page shows the progress of the upload and leaves for its report",
  """A document that is submitted on the upload page is sent once, as the document. However the network cuts the stream of events it is answered with, the progress bars show what the last event that has arrived tells of
  its phase (with the bar of the HTML phase full once the JSON phase has begun), and once the stream has ended after the event of completion the page goes to the URL that the event names. It never leaves for anything else:
  an upload that is refused, whose stream ends without that event or whose connection is lost brings back the form, and another document can be submitted.""",
  ["inputs", "histories", "faults"], "every stream of events, every way of cutting its bytes into chunks, every point at which it ends or breaks, and further submissions after a failed one",
  "the page has no tests; a browser on the same machine usually gets each event as a chunk of its own",
  [UP, APP], [("reading of the event stream", UP + " submitForm"), ("progress stores", UP + " onProgressUpdate")], ["what the page shows", "window.location", "requests to /parse"])

p("C29", "The report page shows every lint entry where it belongs, for every filter",
  """The report page, served or downloaded, names the specification and its revision and shows per lint code its description and the number of its entries, most frequent first, and the number of all. Its figures are those with
  lint entries, each once, with the HTML of the figure (of its top-level figure for nested ones, or the id where there is none) and all its entries in the report's order with row, message, code and context. With codes chosen by
  clicking on their rows (and given up by clicking again or clearing) exactly the entries of these codes are shown and the figures that have any. The downloaded page does the same without the server.""",
  ["inputs", "histories"], "every report, whatever its texts contain, and every sequence of clicks on the rows, the button that clears and the tabs",
  "the page has no tests, and what it shows depends on the history of clicks",
  [REP, "src/spexsrv/templates/base.html", RV, APP], [("grouping and filtering", REP + " stores error_summary and figures"), ("what is put in the page", APP + " report")], ["what the page shows"],
  [("chosen codes", "which entries are shown", REP)])

p("C30", "What the command says of a run is what happened in it",
  """On standard error a run announces every input when its turn comes, in order and no other; names each figure title without an id and each figure that fails to parse, innermost figure first and followed by those it is nested
  in up to its top-level figure; tells, of each model having lint entries, their number and the path of the model; and ends with a message of error exactly if it fails. A refused input and one that does not exist are named.
  The file spex.log of the current directory has exactly the messages of the last run, as one JSON object per line, and the exceptions of a run that failed.""",
  ["inputs", "fault_sequences", "histories"], "every list of inputs (with figures failing at any depth) with every option, write failures, and runs one after another in the same directory",
  "the tests never look at what the command says", [MAIN, PARSE, DOC, "src/spex/log/_log_config.py"],
  [("messages on figures", DOC + " _on_parse_fig"), ("number of lint entries", PARSE), ("log file", "src/spex/log/_log_config.py LogFileSerializer")], ["standard error", "spex.log"])

p("C31", "Cells keep their shading and lists their markers, by the sheet of the HTML model",
  """The HTML model of a docx, whatever its name, refers to the style sheet written beside it, as browsers read references. By this style sheet, every cell has the background colour of its shading in the docx (of its topmost cell, when merged), and cells shaded white or not at all have none. The lists of a cell are marked as
  the levels of their numbering: ordered ones by decimal numbers, lower-case letters or lower-case Roman numerals as the level's format says, unordered ones by discs and circles in turn. (Levels of other formats, and lists whose outer
  levels are missing or of the other kind, may be marked in any way.)""",
  ["inputs"], "every name of a docx; every shading, any number of different ones, at every place of every table; every list of every numbering with levels of any formats",
  "the tests do not look at the style sheet", ["src/spex/htmlspec/htmlrenderer.py", "src/spex/htmlspec/css.py", "src/spex/htmlspec/docx/numbering.py", "src/spex/htmlspec/parser.py"],
  [("classes of cells", "src/spex/htmlspec/css.py CssCache"), ("rules of list levels", "src/spex/htmlspec/docx/numbering.py to_css"), ("shading", "src/spex/htmlspec/parser.py TcPr")], ["CSS of the HTML model"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P))
