#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one place to edit ids, statements, anchors)."""
import json, os
R = "rs/src/"
OD, ZIPF = R+"files/office_document.rs", R+"utils/file_handling.rs"
XT, XD, XS = R+"files/xml/xml_tree.rs", R+"files/xml/xml_deserialize.rs", R+"files/xml/xml_serialize.rs"
REL, CT, CORE, THEME = [R+"global/global_2007/parts/%s.rs" % n for n in ("relations", "content_types", "core_properties", "theme")]
TR = R+"global/global_2007/traits/xml_parts.rs"
WB, WS = [R+"spreadsheet/spreadsheet_2007/parts/%s.rs" % n for n in ("workbook", "worksheet")]
XL = R+"spreadsheet/spreadsheet_2007/excel.rs"
SST, STY, CC, CS = [R+"spreadsheet/spreadsheet_2007/services/%s.rs" % n for n in ("share_string", "style", "calculation_chain", "common_service")]
MST, MWS = [R+"spreadsheet/spreadsheet_2007/models/%s.rs" % n for n in ("style", "worksheet")]
CONV = R+"utils/converters.rs"
WORD, PPT = R+"document/document_2007/word.rs", R+"presentation/presentation_2007/power_point.rs"
FFI = ["rs_ffi/src/spreadsheet/excel.rs", "rs_ffi/src/document/word.rs", "rs_ffi/src/presentation/power_point.rs", "rs_ffi/src/utils.rs"]
P = []
def p(id, title, statement, over, q, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q},
      "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
        "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": observe, "hook_needed": hook}})

p("C01", "Every saved file is a valid OPC package",
  "Whenever saving succeeds, the file written is a readable ZIP with unique entry names in which every XML part is well-formed and namespace-correct and every part has exactly one content type, with no duplicate, empty or dangling Default/Override entry in [Content_Types].xml. Relationship ids are unique within each relationships part and not empty, every internal relationship target exists in the package, every relationships part belongs to an existing part, and every worksheet, style, shared-string, theme and calculation-chain part present is reachable by relationships.",
  ["inputs", "histories"], "all sequences of public API calls on new documents and on opened packages of all three formats, however the parts are laid out",
  "The tests only check that save returns Ok; none opens the saved file with another reader.",
  [OD, CT, REL, WB, WS, XL, WORD, PPT], [("content types rebuilt at save", OD), ("relationship list rewritten at close", REL)],
  ["bytes of the saved file"])
p("C02", "Cell text and values survive exactly",
  "Text, number, boolean or formula given to a cell is found unchanged, character for character (leading, trailing and inner white space, line breaks, markup characters, any Unicode character), when the saved file is read back by an independent reader and after any number of further open/save cycles. With automatic type detection a value becomes a number only if it is a finite decimal numeral, a boolean only if it is exactly true or false, and otherwise text; text that XML cannot carry is refused rather than written altered or as a corrupt file.",
  ["inputs"], "all Unicode cell values, all explicit and automatic data types",
  "Tests use a few ASCII literals and never read the values back.",
  [WS, SST, XD, XS, MWS], [("data type normalisation on write", WS), ("shared string table", SST), ("escaping", XD)],
  ["c/v/f/is/t of saved worksheets", "sharedStrings.xml"])
p("C03", "Saved cells equal the history of writes",
  "After any history of row writes over any number of sheets, handles and save/open cycles, each sheet holds exactly the cells of that history: a later write to a cell replaces value, formula, type and style of the earlier one, and every cell not addressed - in that row, in other rows and in other sheets - is unchanged.",
  ["histories"], "all interleavings of overlapping row writes, re-opened handles, several sheets and several save/open generations",
  "Tests write disjoint rows once and never compare the result with what was written.",
  [WS, WB, SST], [("BTreeMap of rows and cells, extend on write", WS)], ["cells of saved worksheets"],
  state=[("sheet_data", "row -> column -> cell of an open sheet", WS)])
p("C04", "Editing a sheet keeps everything not edited",
  "Opening a workbook, touching any sheets and saving preserves in every sheet all content the caller did not set: cell values, types, formulas with their array/shared/table attributes, rich text, styles, row and column settings, sheet views with panes and selections, merged cells, validations, conditional formats, hyperlinks, page setup and extension lists. Their order and meaning are the same as in the source file.",
  ["inputs", "histories"], "all source worksheets using the SpreadsheetML vocabulary, any edit subset",
  "One test edits one template and never compares the result with the template.",
  [WS, XS, XD], [("deserialize_* / serialize_* pairs", WS), ("generic element tree for the rest", XT)], ["all elements of saved worksheets"])
p("C05", "Parts the library does not manage survive byte for byte",
  "Opening and saving a Word, PowerPoint or Excel package, with or without edits, leaves every part that the library does not itself maintain present under the same name with byte-identical content and the same content type.",
  ["inputs"], "all package layouts: binary, empty, large, non-ASCII-named, nested, signed or unknown parts, any content-type declaration style",
  "No test compares any part of the output package with the input package.",
  [OD, CT, ZIPF, WORD, PPT], [("archive_collection holding recompressed raw parts", OD)], ["zip entries before and after"])
p("C06", "Shared strings stay unique, indexed and complete",
  "In every saved workbook each shared-string cell refers to an existing entry that denotes that cell's text, equal plain texts written through the library share one entry, declared counts agree with the table, and entries present in an opened file (plain, empty, rich text, phonetic) keep their index and content.",
  ["inputs", "histories"], "all multisets of strings over any number of sheets, all pre-existing tables, repeated open/save",
  "Tests never inspect the shared string table.",
  [SST, WS, CS], [("string -> index map", SST)], ["sharedStrings.xml against all t=\"s\" cells"])
p("C07", "A style id always denotes the requested formatting",
  "The id returned for a style setting designates, in the saved file, a cell format whose font, fill, borders, number format and alignment are those requested; equal settings give equal ids and different settings different ids - also for settings saved earlier, which are found again after re-opening instead of piling up - and ids handed out earlier or stored in an opened file never change meaning.",
  ["inputs", "histories"], "all combinations of style settings in any request order, in new and opened workbooks, over save/open cycles",
  "Tests request a handful of styles and only check that a number comes back.",
  [STY, MST, WB], [("de-duplicating style collections", STY)], ["styles.xml resolved through cellXfs"])
p("C08", "Existing formatting survives editing",
  "Opening and saving a workbook leaves the resolved formatting (font, fill, border, number format, alignment, protection) of every cell format, named style and differential format unchanged and at the same index, whatever else was edited.",
  ["inputs"], "all stylesheets using the SpreadsheetML vocabulary",
  "No test compares a stylesheet before and after.",
  [STY, MST], [("stylesheet deserialise/serialise", STY)], ["styles.xml before and after"])
p("C09", "The sheet list follows the calls made",
  "After any sequence of add, get, rename, hide, activate and delete calls, the reported and the saved sheet list have exactly the names and order the calls imply, names unique ignoring case, each sheet with its own content, its requested visibility and the requested active sheet; a call naming an unknown or clashing sheet is refused and changes nothing. Sheets not named by a call keep name, content, visibility and identity.",
  ["histories"], "all operation sequences on new and opened workbooks, interleaved with writes and save/open cycles",
  "Tests run one fixed sequence (and it fails) and never read the saved list.",
  [WB, WS, XL], [("sheet collection shared by workbook and sheets", WB), ("sheet path allocation", WS)], ["list_sheet_names", "workbook.xml sheets, bookViews"],
  state=[("sheet_collection", "name, relation id, active flag, hidden flag", WB)])
p("C10", "Workbook window settings are kept and only changed on request",
  "After any sequence of window calls (visibility, minimise, hide tabs, hide scroll bars) the saved workbook shows exactly the last value set for each; settings never set keep the value of the opened file or the format's default, including tab ratio, first sheet, window geometry, date grouping and further windows.",
  ["inputs", "histories"], "all opened views and all call sequences over several save/open generations",
  "Tests call each setter once and never read the result.",
  [WB], [("WorkbookView load/store", WB)], ["workbookView attributes"])
p("C11", "Column settings affect exactly the addressed column",
  "Setting, replacing or clearing the properties of a column changes exactly that column: afterwards the effective properties of every column 1..16384 are those of its latest setting or, if none, those of the opened file, and the saved column ranges are ascending and do not overlap.",
  ["inputs", "histories"], "all histories of column calls over arbitrary pre-existing column ranges, including range splits",
  "One test sets a few columns on a new sheet and never reads them back.",
  [WS, MWS], [("range split in set_column_index_properties_mut", WS)], ["cols/col of saved worksheets"])
p("C12", "Row settings affect exactly the addressed row",
  "Setting row properties makes exactly these properties (height, style, visibility, grouping, borders flags) effective for that row without touching its cells or any other row, and writing cells never changes row properties; all row properties survive open/save.",
  ["inputs", "histories"], "all interleavings of row-property calls, cell writes and save/open cycles",
  "One test sets a few rows and never reads them back.",
  [WS, MWS], [("row_record of RowData", WS)], ["row attributes of saved worksheets"])
p("C13", "Worksheet markup is schema-ordered with a correct used range",
  "Every saved worksheet and workbook part has its children in the order the schema requires and none of the single-occurrence ones twice, its rows strictly ascending, its cells strictly ascending within the row and lying in it, all row and column numbers within the format's limits, and a dimension that is a well-formed range covering exactly the used cells.",
  ["inputs", "histories"], "all write orders, all subsets of optional children, new and opened workbooks",
  "Tests never parse the produced markup.",
  [WS, WB, R+"global/references/order_dictionary.rs"], [("order_child_mut with the order dictionary", XT), ("Dimension tracking", WS)], ["element order and refs of saved parts"])
p("C14", "XML read and written back means the same",
  "A part that is parsed and written again without change yields the same XML information set: same elements, names and namespaces (wherever declared), attributes and their values, and text including white space, references, CDATA and line breaks. A part that is not well-formed is refused.",
  ["inputs"], "all well-formed UTF-8 documents without mixed content; all malformed documents",
  "Tests only feed the library's own templates to the parser.",
  [XS, XD, XT], [("tree parser", XS), ("tree writer", XD)], ["infoset of theme/core/workbook/worksheet parts before and after"])
p("C15", "Cell references address exactly the named cell",
  "A write addressed by a textual reference lands on the cell that reference names and a write by index on the same cell as the equivalent reference, for every column A..XFD and row 1..1048576 and any letter case; anything that is not a single in-range cell (or column) address is refused without effect.",
  ["inputs"], "all column letters, all boundary rows, all malformed references and out-of-range indices",
  "Tests use a few references in columns A to Z.",
  [CONV, WS], [("base-26 conversion", CONV)], ["r attributes of saved cells", "results of the calls"])
p("C16", "No input makes the library panic, hang or exhaust memory",
  "Whatever bytes a file has and whatever arguments a caller passes, every public call returns a value or an error: it does not panic, overflow, run forever or need time or memory out of proportion to the (unpacked) content it was given.",
  ["inputs"], "truncated, corrupted, re-wired and hostile packages; extreme and malformed arguments",
  "Tests never use a damaged file or a bad argument.",
  [OD, XS, REL, CT, WB, WS, SST, STY, CC, CONV], [("anyhow error propagation", OD)], ["panic hook, watchdog, peak heap"])
p("C17", "A refused call changes nothing",
  "When a call returns an error, the document is as it was before the call: saving afterwards gives the same content as if the call had not been made, and later valid calls work normally.",
  ["histories", "inputs"], "every failing call kind inserted at every point of a history",
  "No test makes a failing call.",
  [WB, WS, XL, OD, STY], [("error paths of the API", WS)], ["saved content with and without the failing calls"])
p("C18", "A failed save never destroys data",
  "Saving is all or nothing: if it fails - target directory missing or unwritable, target is a directory, disk full or write error at any point - an error is reported, the file previously at the target is intact and complete, and no partial file is left behind. Opening never changes the source file, saving over the source file works, a link is followed and the permissions of a replaced file stay, what save reports as written is completely on disk, and what a killed save left behind does not hinder a later one.",
  ["fault_sequences", "crash_points"], "all failure points while saving, targets that exist or not, source equal to target",
  "No test injects a failure or saves over an existing file with checks.",
  [OD, XL, WORD, PPT], [("save_as", OD)], ["directory contents before and after, under injected write failures"])
p("C19", "Saving is stable and repeatable",
  "Opening a saved file and saving it again without edits changes nothing but the modification time, however often it is repeated, and the same calls on the same input always give the same content.",
  ["histories"], "all documents reachable by API histories, chains of save/open generations, repeated runs",
  "No test re-opens what it saved.",
  [OD, WB, WS, STY, SST], [("load/store pairs of all parts", WB)], ["package content across generations and runs"])
p("C20", "Documents are independent of each other",
  "Documents open at the same time, whether interleaved in one thread or used from parallel threads, behave exactly as if each were alone: no call on one changes content, ids or results of another.",
  ["schedules", "histories"], "interleavings of several documents' histories, parallel threads, any format mix",
  "Tests run one document at a time in one thread.",
  [OD, WB, CS], [("Rc-owned per-document state", OD)], ["saved files and call results against a solo run"])
p("C21", "Closed documents release everything",
  "After a document is saved or dropped - also after errors - no file descriptor, temporary file or thread remains, and open/edit/save cycles repeated indefinitely do not grow memory.",
  ["histories", "fault_sequences"], "any number of successful and failing open/edit/save/drop cycles",
  "Tests end with the process.",
  [OD, TR], [("Weak back references, Drop of parts", TR)], ["/proc/self/fd, directories, live heap bytes per cycle"])
p("C22", "Core properties are preserved and time stamps maintained",
  "Every successful save stamps the modification time with the current UTC time in W3C form, sets the creation time only if the document had none, and keeps all other core properties (title, author, keywords, category, revision ...) as they were.",
  ["inputs"], "all core property parts, any format, any number of generations",
  "No test reads the core properties.",
  [CORE], [("CorePropertiesPart close", CORE)], ["docProps/core.xml of the saved file"])
p("C23", "Deleting a sheet removes it completely and only it",
  "After deleting a sheet the saved package contains neither the sheet nor anything that only belonged to it - relationships, content type, calculation-chain entries - and all other sheets, their parts, relationships, ids and calculation-chain entries are unaffected.",
  ["histories", "inputs"], "deletion of any subset of sheets, new and opened workbooks with absolute or relative relationship targets, with formulas, drawings and hyperlinks",
  "The only test that deletes a sheet fails.",
  [WS, WB, REL, CC, OD], [("delete_sheet_mut", WS)], ["package graph and calcChain of the saved file"])
p("C24", "The C interface is memory safe and reports every failure",
  "Every exported function accepts null handles, null or non-UTF-8 names and null or damaged request buffers without memory errors, returns success exactly when the underlying operation succeeded and the matching error status otherwise (with a readable message where an operation failed), and no field of a request ends up in another field of the library call; handles are released exactly once.",
  ["inputs", "histories"], "all call sequences across the boundary including nulls, non-UTF-8 strings, bad buffers and failing operations",
  "The interface crate has no tests and is not built by the test suite.",
  FFI, [("null checks and status mapping", FFI[0])], ["return codes, out parameters, address sanitizer"])
p("C25", "Sheet handles never lose or mix up writes",
  "Writes made through a sheet handle are in the saved file whenever save reports success, however handles are opened, closed and re-opened in between; where a handle cannot be honoured - a second one for an open sheet, one still open at save, one outliving its document - an error is reported or it has no effect, but no sheet loses or duplicates data silently.",
  ["histories", "schedules"], "all open/close/re-open orders of handles relative to other calls, save and drop",
  "Tests always use one handle at a time in the recommended order.",
  [WS, OD, TR], [("open document registry", OD), ("Drop of WorkSheet", WS)], ["call results and saved sheets"])
p("C26", "Relationships survive editing",
  "Relationships of the package, the workbook, the sheets and all other parts keep id, type, target and target mode - including external hyperlinks and unusual but legal target spellings - unless the caller deleted what they point to; new ones get unused ids.",
  ["inputs", "histories"], "all relationship parts: absolute, relative, dotted, percent-encoded and external targets, arbitrary ids",
  "No test reads a relationships part.",
  [REL], [("RelationsPart load/store", REL)], ["*.rels before and after"])
p("C27", "Workbooks open wherever OPC lets their parts live",
  "A workbook whose parts have non-default names or locations, prefixed namespaces, differently cased content-type declarations or absolute, relative or dotted targets is opened, read and edited the same way as one with the default layout, the result being the same up to the naming of parts.",
  ["inputs", "configurations"], "all legal relocations and respellings of a workbook package",
  "All test files use the default layout.",
  [REL, WB, WS, SST, STY, CC, CT, OD], [("lookup by relationship type and id", REL)], ["saved content of equivalent packages"])
p("C28", "Enumerated settings map one to one to their file values",
  "Every value of an enumerated style or cell setting is written as the schema token for that value, and reading any token gives back the value that writes it.",
  ["inputs"], "all enumeration values and all schema tokens",
  "Tests use two or three of the values.",
  [MST, MWS], [("Enum::get_string / get_enum", MST)], ["get_string/get_enum results", "tokens in styles.xml and worksheets"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
