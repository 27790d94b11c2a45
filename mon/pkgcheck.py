"""Universal invariants of a saved package. `check(pkg, src)` yields Disc; `src` (Package the document was opened
from, or None) excuses defects the source itself had."""
import posixpath, re
from harness import Disc
from pkg import (NS_MAIN, NS_CT, NS_REL, NS_R, XmlError, Book, rels_owner, rels_name, parse_ref, OD)

CT_BY_REL = {
    OD + "worksheet": "application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml",
    OD + "styles": "application/vnd.openxmlformats-officedocument.spreadsheetml.styles+xml",
    OD + "sharedStrings": "application/vnd.openxmlformats-officedocument.spreadsheetml.sharedStrings+xml",
    OD + "theme": "application/vnd.openxmlformats-officedocument.theme+xml",
    OD + "calcChain": "application/vnd.openxmlformats-officedocument.spreadsheetml.calcChain+xml",
}
RELS_CT = "application/vnd.openxmlformats-package.relationships+xml"
XML_CT = re.compile(r"(\+xml|/xml)$")

WS_ORDER = ["sheetPr", "dimension", "sheetViews", "sheetFormatPr", "cols", "sheetData", "sheetCalcPr", "sheetProtection",
            "protectedRanges", "scenarios", "autoFilter", "sortState", "dataConsolidate", "customSheetViews", "mergeCells",
            "phoneticPr", "conditionalFormatting", "dataValidations", "hyperlinks", "printOptions", "pageMargins", "pageSetup",
            "headerFooter", "rowBreaks", "colBreaks", "customProperties", "cellWatches", "ignoredErrors", "smartTags", "drawing",
            "legacyDrawing", "legacyDrawingHF", "drawingHF", "picture", "oleObjects", "controls", "webPublishItems", "tableParts", "extLst"]
WS_MULTI = {"conditionalFormatting", "cols"}
WB_ORDER = ["fileVersion", "fileSharing", "workbookPr", "AlternateContent", "revisionPtr", "workbookProtection", "bookViews", "sheets",
            "functionGroups", "externalReferences", "definedNames", "calcPr", "oleSize", "customWorkbookViews", "pivotCaches",
            "smartTagPr", "smartTagTypes", "webPublishing", "fileRecoveryPr", "webPublishObjects", "extLst"]
WB_MULTI = {"fileRecoveryPr", "AlternateContent"}
SST_ORDER = ["si", "extLst"]
STY_ORDER = ["numFmts", "fonts", "fills", "borders", "cellStyleXfs", "cellXfs", "cellStyles", "dxfs", "tableStyles", "colors", "extLst"]


def string_refs(pkg, book):
    """Number of cells of the workbook that refer to a shared string."""
    n = 0
    for sh in book.sheets:
        if sh["part"] is None:
            continue
        try:
            data = pkg.xml(sh["part"]).first("sheetData")
        except XmlError:
            return None
        for r in (data.elems("row") if data is not None else []):
            n += sum(c.get("t") == "s" for c in r.elems("c"))
    return n


def order_problems(node, order, multi, what):
    last = -1
    seen = set()
    for k in node.elems():
        if k.ns != NS_MAIN:
            continue
        if k.tag not in order:
            continue
        i = order.index(k.tag)
        if k.tag in seen and k.tag not in multi:
            yield "%s has more than one <%s>" % (what, k.tag)
        if i < last:
            yield "%s has <%s> after <%s>" % (what, k.tag, order[last])
        last = max(last, i)
        seen.add(k.tag)


def check(pkg, src=None, kind="excel", fresh_word=False):
    out = []

    def bad(tags, code, text):
        out.append(Disc(tags, code, text))

    low = {}
    for n in pkg.names:
        if n.lower() in low:
            bad({"C01"}, "zip-duplicate", "entry %r occurs more than once" % n)
        low[n.lower()] = n
        if n.startswith("/") or "\\" in n or any(seg in ("", ".", "..") for seg in n.rstrip("/").split("/")):
            if src is None or n not in src.names:
                bad({"C01"}, "zip-name", "entry name %r" % n)
    ctn = pkg.find("[Content_Types].xml")
    if ctn is None:
        bad({"C01", "C05"}, "no-content-types", "[Content_Types].xml is missing")
        return out
    try:
        root = pkg.xml(ctn)
    except XmlError as ex:
        bad({"C01"}, "content-types-xml", str(ex))
        return out
    if root.ns != NS_CT or root.tag != "Types":
        bad({"C01"}, "content-types-root", "root of [Content_Types].xml is {%s}%s" % (root.ns, root.tag))
    defaults, overrides = pkg.content_types()
    seen = set()
    for e, ct in defaults:
        if not e or not ct:
            bad({"C01"}, "content-types-empty", "Default %r %r" % (e, ct))
            continue
        if e.lower() in seen:
            bad({"C01"}, "content-types-dup", "two Default entries for %r" % e)
        seen.add(e.lower())
    seen = set()
    parts = [p for p in pkg.parts if p != ctn]
    lowparts = {p.lower() for p in parts}
    for p, ct in overrides:
        if not p or not ct or not p.startswith("/"):
            bad({"C01"}, "content-types-empty", "Override %r %r" % (p, ct))
            continue
        if p.lower() in seen:
            bad({"C01"}, "content-types-dup", "two Override entries for %r" % p)
        seen.add(p.lower())
        if p[1:].lower() not in lowparts:
            bad({"C01", "C23"}, "content-types-dangling", "Override for %r which is not in the package" % p)
    for p in parts:
        ct = pkg.content_type(p)
        if ct is None:
            if src is not None and src.find(p) and src.content_type(p) is None:
                continue
            bad({"C01", "C05"}, "no-content-type", "part %r has no content type" % p)
            continue
        if p.lower().endswith(".rels") and ct != RELS_CT:
            bad({"C01"}, "rels-content-type", "%r has content type %r" % (p, ct))
        if XML_CT.search(ct) or p.lower().endswith((".rels", ".xml")):
            if src is not None and p in src.parts and src.parts[p] == pkg.parts[p]:
                continue
            try:
                pkg.xml(p)
            except XmlError as ex:
                bad({"C01", "C14"}, "xml", "part %r: %s" % (p, ex))
    # relationships
    reach = {}
    for p in parts:
        owner = rels_owner(p)
        if owner is None:
            continue
        if owner and owner.lower() not in lowparts:
            if src is None or p not in src.parts or rels_owner(p).lower() in {q.lower() for q in src.parts}:
                bad({"C01", "C23"}, "rels-orphan", "%r belongs to no part" % p)
        try:
            rr = pkg.xml(p)
        except XmlError:
            continue
        if rr.ns != NS_REL or rr.tag != "Relationships":
            bad({"C01", "C26"}, "rels-root", "root of %r is {%s}%s" % (p, rr.ns, rr.tag))
            continue
        ids = set()
        srcrels = {}
        if src is not None and src.find(p):
            try:
                srcrels = {r.id: r for r in src.rels(owner)}
            except XmlError:
                pass
        for r in pkg.rels(owner):
            if not r.id or not r.type or r.target is None or r.target == "" and r.mode != "External":
                bad({"C01", "C26"}, "rel-empty", "%r has %r" % (p, r))
            if r.id in ids:
                bad({"C01", "C26"}, "rel-duplicate-id", "%r has id %r twice" % (p, r.id))
            ids.add(r.id)
            if r.mode != "External":
                if r.part is None or r.part.lower() not in lowparts:
                    s = srcrels.get(r.id)
                    if s is not None and (s.part is None or src.find(s.part) is None) and s.part == r.part:
                        continue
                    bad({"C01", "C26", "C23"}, "rel-dangling", "%r: %r leads to no part" % (p, r))
                else:
                    reach.setdefault(r.part.lower(), []).append((owner, r))
    roots = [r for r in pkg.rels("") if r.type in (OD + "officeDocument", "http://purl.oclc.org/ooxml/officeDocument/relationships/officeDocument")]
    if kind == "excel":
        if len(roots) != 1:
            bad({"C01", "C26"}, "main-part", "%d officeDocument relationships" % len(roots))
            return out
    for p in parts:
        ct = pkg.content_type(p)
        for t, want in CT_BY_REL.items():
            if ct == want and p.lower() not in reach:
                if src is not None and src.find(p):
                    if not any(q.lower() == p.lower() for q in reach_of(src)):
                        continue
                bad({"C01", "C23"}, "unreachable", "part %r of type %s is not reachable" % (p, t.rsplit("/", 1)[1]))
    for low_p, lst in reach.items():
        for owner, r in lst:
            want = CT_BY_REL.get(r.type)
            if want and pkg.content_type(r.part) != want:
                if src is not None and src.find(r.part) and src.content_type(r.part) == pkg.content_type(r.part):
                    continue
                bad({"C01", "C05"}, "content-type-mismatch", "part %r is %r for a %s relationship" % (r.part, pkg.content_type(r.part), r.type))
    if kind == "excel":
        out += excel_check(pkg, src)
    return out


def reach_of(pkg):
    res = set()
    for p in pkg.parts:
        owner = rels_owner(p)
        if owner is None:
            continue
        try:
            for r in pkg.rels(owner):
                if r.part:
                    res.add(r.part.lower())
        except XmlError:
            pass
    return res


def excel_check(pkg, src):
    out = []

    def bad(tags, code, text):
        out.append(Disc(tags, code, text))
    try:
        book = Book(pkg)
    except XmlError as ex:
        bad({"C01", "C09"}, "workbook", str(ex))
        return out
    root = book.node
    if root.ns != NS_MAIN or root.tag != "workbook":
        bad({"C01", "C14"}, "workbook-root", "{%s}%s" % (root.ns, root.tag))
        return out
    for t in order_problems(root, WB_ORDER, WB_MULTI, "workbook"):
        bad({"C13"}, "order-workbook", t)
    names, ids, rids = set(), set(), set()
    sparts = set()
    for s in book.sheets:
        if not s["name"]:
            bad({"C09", "C01"}, "sheet-name", "sheet without name")
        elif s["name"].lower() in names:
            bad({"C09"}, "sheet-name-dup", "sheet name %r is not unique" % s["name"])
        names.add((s["name"] or "").lower())
        if s["id"] in ids or not s["id"]:
            bad({"C09", "C01"}, "sheet-id", "sheetId %r" % s["id"])
        ids.add(s["id"])
        if s["rid"] in rids or not s["rid"]:
            bad({"C09", "C01", "C26"}, "sheet-rid", "relationship id %r of sheet %r" % (s["rid"], s["name"]))
        rids.add(s["rid"])
        if s["part"] is None:
            bad({"C09", "C01", "C26"}, "sheet-part", "sheet %r leads to no part" % s["name"])
        elif s["part"].lower() in sparts:
            bad({"C09", "C25"}, "sheet-part-shared", "two sheets share part %r" % s["part"])
        sparts.add((s["part"] or "").lower())
        if s["state"] not in ("visible", "hidden", "veryHidden"):
            bad({"C09"}, "sheet-state", "state %r" % s["state"])
    for v in book.views():
        for k in ("activeTab", "firstSheet"):
            x = v.get(("", k))
            if x is not None and book.sheets and not (x.strip().isdigit() and int(x) < len(book.sheets)):
                bad({"C10", "C09"}, "view-index", "%s=%r of %d sheets" % (k, x, len(book.sheets)))
    for a, _ in book.defined_names():
        x = a.get(("", "localSheetId"))
        if x is not None and not (x.isdigit() and int(x) < len(book.sheets)):
            bad({"C09", "C23"}, "local-sheet", "localSheetId %r of %d sheets" % (x, len(book.sheets)))
    if book.sst_part and book.sst_part in pkg.parts:
        n = pkg.xml(book.sst_part)
        for t in order_problems(n, SST_ORDER, {"si"}, "sst"):
            bad({"C06"}, "order-sst", t)
        u = n.get("uniqueCount")
        same = src is not None and src.parts.get(book.sst_part) == pkg.parts[book.sst_part]
        if u is not None and u != str(len(book.sst)) and not same:
            bad({"C06"}, "sst-count", "uniqueCount=%r for %d entries" % (u, len(book.sst)))
        c = n.get("count")
        if c is not None and not same and not (c.isdigit() and int(c) >= len(book.sst)):
            bad({"C06"}, "sst-count", "count=%r for %d entries" % (c, len(book.sst)))
        elif c is not None and not same and not (src is not None and book.sst_part in src.parts and src.xml(book.sst_part).get("count") == c):
            n_ref = string_refs(pkg, book)
            if n_ref is not None and n_ref != int(c):
                bad({"C06", "C19"}, "sst-references", "count=%r for %d references" % (c, n_ref))
    st = book.styles()
    if st.node is not None:
        for t in order_problems(st.node, STY_ORDER, set(), "styleSheet"):
            bad({"C08", "C07"}, "order-styles", t)
        for tag in ("numFmts", "fonts", "fills", "borders", "cellStyleXfs", "cellXfs", "cellStyles", "dxfs"):
            coll = st.node.first(tag)
            if coll is not None and coll.get("count") is not None and coll.get("count") != str(len(coll.elems())):
                bad({"C07", "C08"}, "style-count", "%s count=%r for %d entries" % (tag, coll.get("count"), len(coll.elems())))
        for tag, lst in (("cellXfs", st.xfs), ("cellStyleXfs", st.style_xfs)):
            for i, x in enumerate(lst):
                r = st.resolve_xf(x)
                for k in ("font", "fill", "border"):
                    if isinstance(r[k], tuple) and r[k] and r[k][0] == "dangling":
                        bad({"C07", "C08"}, "style-dangling", "%s %d: %r" % (tag, i, r[k]))
                if tag == "cellXfs" and x.get("xfId") is not None and not (x.get("xfId").isdigit() and int(x.get("xfId")) < max(1, len(st.style_xfs))):
                    bad({"C07", "C08"}, "style-dangling", "cellXfs %d: xfId %r of %d" % (i, x.get("xfId"), len(st.style_xfs)))
        for d in st.numfmt_dups:
            bad({"C07", "C08"}, "numfmt-dup", "numFmtId %s declared twice" % d)
    chain = book.calc_chain()
    if chain is not None and not chain:
        bad({"C13", "C23"}, "calc-chain-empty", "calcChain without entries")
    for s in book.sheets:
        if s["type"] != "worksheet" or s["part"] is None:
            continue
        if src is not None and src.parts.get(s["part"]) == pkg.parts[s["part"]]:
            continue
        try:
            node = pkg.xml(s["part"])
        except XmlError:
            continue
        if node.ns != NS_MAIN or node.tag != "worksheet":
            bad({"C14", "C01"}, "worksheet-root", "{%s}%s" % (node.ns, node.tag))
            continue
        sh = book.sheet(s["part"])
        for t in order_problems(node, WS_ORDER, WS_MULTI, "worksheet %r" % s["name"]):
            bad({"C13", "C04"}, "order-worksheet", t)
        if node.first("sheetData") is None:
            bad({"C13"}, "no-sheet-data", "worksheet %r has no sheetData" % s["name"])
        for code, t in sh.problems:
            tags = {"order": {"C13", "C03"}, "ref": {"C13", "C15", "C03"}, "row": {"C13", "C12"}, "sst": {"C06", "C02", "C03"}, "cols": {"C11"}}[code]
            bad(tags, "sheet-" + code, "%s: %s" % (s["name"], t))
        last = 0
        for mn, mx, a in sh.cols:
            if not 1 <= mn <= mx <= 16384 or mn <= last:
                bad({"C11", "C13"}, "cols", "%s: range %d:%d after %d" % (s["name"], mn, mx, last))
            last = mx
        for c in node.elems("cols"):
            if not c.elems("col"):
                bad({"C11", "C13"}, "cols-empty", "%s: <cols> without <col>" % s["name"])
        nx = max(1, len(st.xfs))
        used = [("cell", k, c.s) for k, c in sh.cells.items()] + [("row", k, a.get(("", "s"), "0")) for k, a in sh.rows.items()] + [("col", mn, a.get(("", "style"), "0")) for mn, mx, a in sh.cols]
        for what, k, sid in used:
            if not (sid.isdigit() and int(sid) < nx):
                bad({"C07", "C08"}, "style-index", "%s: %s %r has style %r of %d" % (s["name"], what, k, sid, nx))
        for row, sp in sh.spans.items():
            cs = [c for (r, c) in sh.cells if r == row]
            for one in sp.split()[:1]:
                m = re.match(r"^(\d+):(\d+)$", one)
                if not m or (cs and len(sp.split()) == 1 and not (int(m.group(1)) <= min(cs) and max(cs) <= int(m.group(2)))):
                    bad({"C12", "C13"}, "spans", "%s: row %d spans=%r with columns %r" % (s["name"], row, sp, (min(cs), max(cs)) if cs else None))
        masters, deps = set(), {}
        for k, c in sh.cells.items():
            if c.f is not None and c.f.get("t") == "shared":
                if c.f.get("ref") is not None:
                    masters.add(c.f.get("si"))
                else:
                    deps.setdefault(c.f.get("si"), k)
        for si, k in deps.items():
            if si not in masters:
                bad({"C04", "C03"}, "shared-formula-master", "%s: cell %r belongs to shared formula %s which has no master" % (s["name"], k, si))
    return out


def dimension_problem(sh):
    """A touched sheet's dimension must be the bounding box of its cells."""
    d = sh.dimension()
    used = list(sh.cells)
    if d is None:
        return None if not used else "no dimension"
    a, _, b = d.partition(":")
    pa, pb = parse_ref(a), parse_ref(b or a)
    if pa is None or pb is None:
        return "dimension %r is not a range" % d
    def box(keys):
        return (min(r for r, _ in keys), min(c for _, c in keys)), (max(r for r, _ in keys), max(c for _, c in keys))
    ok = []
    if used:
        ok.append(box(used))
        full = [k for k, c in sh.cells.items() if c.v is not None or c.f is not None or c.node.first("is") is not None]
        if full:
            ok.append(box(full))
    else:
        ok.append(((1, 1), (1, 1)))
    if (pa, pb) not in ok:
        return "dimension %r, cells cover %r" % (d, ok[0])
    return None
