"""Reference model: replays the recorded history of a case on an independent model of the documents and compares
every saved package with it. Knows nothing about the implementation, only the meaning of the calls."""
import math, os, re, struct, zipfile
from harness import Disc
from pkg import (Package, Book, Sheet, XmlError, canon, norm_col, norm_row, ref, parse_ref, col_num, rels_owner, rels_name,
                 NS_MAIN, NS_R, NS_XML, NS_DCT, OD, REL_CORE, REL_OFFICE, BOOL, si_plain, t_text, Styles)
import pkgcheck

MAXR, MAXC = 1048576, 16384
NEUTRAL = ("note", "sleep", "fds", "heap", "enum_all", "copy", "remove", "mkdir", "ls", "barrier")
OP_TAGS = {
    "open": {"C27", "C14", "C04", "C05", "C16", "C19", "C09", "C06", "C08", "C26", "C22", "C03", "C02", "C11", "C12", "C10", "C23", "C25", "C01", "C20", "C21", "C18"},
    "save": {"C01", "C03", "C18", "C19", "C25", "C05", "C22", "C27", "C20", "C21", "C17", "C02", "C04", "C13"},
    "drop_doc": {"C21", "C25"}, "add_sheet": {"C09", "C25", "C23", "C03"}, "get_sheet": {"C09", "C25", "C27", "C04", "C03"},
    "close": {"C25", "C03"}, "delete_sheet": {"C23", "C09", "C25"}, "rename": {"C09"}, "active": {"C09", "C10"}, "hide": {"C09"},
    "visibility": {"C10"}, "minimize": {"C10"}, "hide_tabs": {"C10"}, "hide_vscroll": {"C10"}, "hide_hscroll": {"C10"},
    "list": {"C09"}, "style": {"C07"}, "row_ref": {"C15", "C02", "C03", "C25"}, "row_idx": {"C15", "C02", "C03", "C25"},
    "row_props": {"C12"}, "col_ref": {"C11", "C15"}, "col_idx": {"C11", "C15"},
}
ROW_PROP_ATTRS = ("s", "customFormat", "ht", "customHeight", "hidden", "outlineLevel", "collapsed", "thickTop", "thickBot", "ph")
VIEW_DEFAULTS = {"visibility": "visible", "minimized": "0", "showHorizontalScroll": "1", "showVerticalScroll": "1", "showSheetTabs": "1",
                 "tabRatio": "600", "firstSheet": "0", "activeTab": "0", "autoFilterDateGrouping": "1"}
NUM = re.compile(r"^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\Z", re.A)


def is_number(t):
    return bool(NUM.match(t)) and math.isfinite(float(t))


def xml_ok(t):
    return all(c in "\t\n\r" or "\x20" <= c <= "\ud7ff" or "\ue000" <= c <= "\ufffd" or c >= "\U00010000" for c in t)


def parse_cell(t):
    """(row, col), None if certainly not a reference to a cell, 'odd' where the spelling is debatable."""
    m = re.match(r"^([A-Za-z]+)([0-9]+)\Z", t, re.A)
    if not m:
        return None
    if len(m.group(1)) > 3 or col_num(m.group(1)) > MAXC:
        return None
    digits = m.group(2)
    if digits.lstrip("0") == "" or len(digits.lstrip("0")) > 7 or int(digits) > MAXR:
        return None
    if digits.startswith("0"):
        return "odd"
    return int(digits), col_num(m.group(1))


def parse_col(t):
    m = re.match(r"^([A-Za-z]+)([0-9]*)\Z", t, re.A)
    if not m or len(m.group(1)) > 3 or col_num(m.group(1)) > MAXC:
        return None
    if m.group(2):
        p = parse_cell(t)
        return p if p in (None, "odd") else p[1]
    return col_num(m.group(1))


class Exp:
    """What a written cell must look like."""
    __slots__ = ("kind", "value", "formula", "style")

    def __init__(self, kind, value, formula, style):
        self.kind, self.value, self.formula, self.style = kind, value, formula, style

    def __repr__(self):
        return "%s %r f=%r s=%s" % (self.kind, self.value, self.formula, self.style)


def norm_cell(c, style):
    """(Exp, None) or (None, reason) for one requested cell."""
    v, f, t = c.get("v"), c.get("f"), c.get("t") or "Auto"
    for x in (v, f):
        if x is not None and not xml_ok(x):
            return None, "character XML cannot carry"
    if v is None:
        return Exp("empty", None, f, style), None
    if t == "Auto":
        if is_number(v):
            return Exp("n", v, f, style), None
        if v in ("true", "false"):
            return Exp("b", "1" if v == "true" else "0", f, style), None
        return Exp("text", v, f, style), None
    if t == "Number":
        if v == "":
            return Exp("empty", None, f, style), None
        if not is_number(v):
            return None, "not a number"
        return Exp("n", v, f, style), None
    if t == "Boolean":
        return Exp("b", "0" if v.lower() in ("false", "0", "") else "1", f, style), None
    return Exp({"String": "str", "ShareString": "s", "InlineString": "inlineStr", "Error": "e"}[t], v, f, style), None


def cell_problem(exp, c):
    """None if the saved cell c (or None) is what was asked for; else (tags, text)."""
    if c is None:
        if exp.kind == "empty" and exp.formula is None and exp.style == "0":
            return None
        return {"C02", "C03", "C25", "C15"}, "missing, expected %r" % exp
    if c.s != exp.style:
        return {"C03", "C07"}, "style %s, expected %s" % (c.s, exp.style)
    if exp.formula is None:
        if c.f is not None:
            return {"C02", "C03"}, "has formula %r, expected none" % c.f.text()
    else:
        if c.f is None or c.f.text() != exp.formula or c.f.attrs.get((NS_XML, "space")) is None and False:
            return {"C02", "C03"}, "formula %r, expected %r" % (c.f.text() if c.f is not None else None, exp.formula)
        if any(k[0] == "" and k[1] in ("t", "ref", "si") for k in c.f.attrs):
            return {"C03", "C04"}, "formula with attributes %r" % (c.f.attrs,)
    if exp.kind == "empty":
        if c.v not in (None, "") or c.node.first("is") is not None:
            return {"C02", "C03"}, "value %r of type %s, expected none" % (c.v, c.t)
        return None
    if exp.kind == "n":
        good = c.t == "n" and c.v == exp.value
        return None if good else ({"C02", "C03", "C28"}, "t=%s v=%r, expected number %r" % (c.t, c.v, exp.value))
    if exp.kind == "b":
        good = c.t == "b" and c.v in ("0", "1", "true", "false") and BOOL.get(c.v, c.v) == exp.value
        return None if good else ({"C02", "C03", "C28"}, "t=%s v=%r, expected boolean %r" % (c.t, c.v, exp.value))
    if exp.kind == "e":
        return None if c.t == "e" and c.v == exp.value else ({"C02", "C03", "C28"}, "t=%s v=%r, expected error %r" % (c.t, c.v, exp.value))
    if exp.kind == "text":
        if c.t not in ("s", "str", "inlineStr"):
            return {"C02", "C03", "C28"}, "t=%s v=%r, expected text %r" % (c.t, c.v, exp.value)
    elif c.t != exp.kind:
        return {"C02", "C03", "C28"}, "t=%s v=%r, expected t=%s %r" % (c.t, c.v, exp.kind, exp.value)
    if (c.text or "") != exp.value:
        return {"C02", "C03"} | ({"C06"} if c.t == "s" else set()), "text %r, expected %r" % (c.text, exp.value)
    return None


# ------------------------------------------------------------------ styles

NUMFMT = {"General": 0, "Integer": 1, "DecimalTwoPlaces": 2, "ThousandsSeparator": 3, "ThousandsSeparatorTwoDecimals": 4,
          "CurrencyNoDecimals": 5, "CurrencyNoDecimalsRed": 6, "CurrencyTwoDecimals": 7, "CurrencyTwoDecimalsRed": 8,
          "Percentage": 9, "PercentageTwoDecimals": 10, "Scientific": 11, "FractionOneDigit": 12, "FractionTwoDigits": 13,
          "DateMMDDYY": 14, "DateDMmmYY": 15, "DateDMmm": 16, "DateMmmYY": 17, "Time12Hour": 18, "Time12HourWithSeconds": 19,
          "Time24Hour": 20, "Time24HourWithSeconds": 21, "DateTimeMMDDYY": 22, "AccountingNoDecimals": 37,
          "AccountingNoDecimalsRed": 38, "AccountingTwoDecimals": 39, "AccountingTwoDecimalsRed": 40,
          "AccountingNegativeInParentheses": 41, "AccountingTwoDecimalsNegativeInParentheses": 42,
          "AccountingAlignedSymbols": 43, "AccountingAlignedSymbolsTwoDecimals": 44, "TimeMinutesSeconds": 45,
          "TimeHoursMinutesSeconds": 46, "ElapsedTimeWithFractions": 47, "ScientificOneDecimal": 48, "TextFormat": 49}
BORDER = {"None": None, "Thin": "thin", "Thick": "thick", "Dotted": "dotted", "Double": "double", "Dashed": "dashed",
          "DashDot": "dashDot", "DashDotDot": "dashDotDot", "Medium": "medium", "MediumDashed": "mediumDashed",
          "MediumDashDot": "mediumDashDot", "MediumDashDotDot": "mediumDashDotDot", "SlantDashDot": "slantDashDot", "Hair": "hair"}
HALIGN = {"None": None, "LEFT": "left", "CENTER": "center", "RIGHT": "right", "JUSTIFY": "justify"}
VALIGN = {"None": None, "Top": "top", "Middle": "center", "Bottom": "bottom"}


def style_texts(st):
    out = [st.get("font_family"), st.get("custom_number_format"), st.get("background_color"), st.get("foreground_color")]
    out.append((st.get("text_color") or [None, None])[1])
    for sd in ("left", "right", "top", "bottom", "diagonal"):
        out.append(((st.get("border_" + sd) or {}).get("color") or [None, None])[1])
    return [x for x in out if x is not None]


def style_refused(st):
    if any(not xml_ok(x) for x in style_texts(st)):
        return True
    return st.get("number_format") == "Custom" and st.get("custom_number_format") is None


def style_expected(st):
    """Normal form of the requested formatting."""
    def col(c):
        return (c[0].lower(), c[1])
    nf = st.get("number_format", "General")
    out = {"numfmt": ("code", st["custom_number_format"]) if nf == "Custom" else ("id", NUMFMT[nf])}
    out["font"] = (bool(st.get("is_bold")), bool(st.get("is_italic")),
                   "double" if st.get("is_double_underline") else "single" if st.get("is_underline") else None,
                   float(st.get("font_size", 11)), col(st.get("text_color") or ["Theme", "1"]), st.get("font_family", "Calibri"))
    fg, bg = st.get("foreground_color"), st.get("background_color")
    out["fill"] = ("none", None, None) if fg is None and bg is None else ("solid", fg if fg is not None else bg, bg)
    b = []
    for sd in ("left", "right", "top", "bottom", "diagonal"):
        x = st.get("border_" + sd) or {}
        s = BORDER[x.get("style", "None")]
        b.append((s, col(x["color"]) if s and x.get("color") else None))
    out["border"] = tuple(b)
    out["align"] = (HALIGN[st.get("horizontal_alignment", "None")], VALIGN[st.get("vertical_alignment", "None")], bool(st.get("is_wrap_text")))
    return out


def style_actual(styles, idx):
    """The same normal form of cell format idx in the saved stylesheet; anything beyond it under 'extra'."""
    xf = styles.xfs[idx]
    out, extra = {}, []
    nid = xf.get("numFmtId", "0")
    out["numfmt"] = ("code", styles.numfmts[nid]) if nid in styles.numfmts else ("id", int(nid) if nid.isdigit() else nid)

    def colour(n):
        if n is None:
            return None
        ks = [k[1] for k in n.attrs]
        if ks == ["auto"]:
            return None
        if len(ks) != 1:
            return ("mixed", repr(n))
        return (ks[0], n.get(ks[0]))

    def flag(n):
        return n is not None and BOOL.get(n.get("val", "1"), n.get("val", "1")) != "0"

    def entry(lst, name):
        i = int(xf.get(name, "0"))
        return lst[i]
    f = entry(styles.fonts, "fontId")
    u = f.first("u")
    uval = None if u is None else u.get("val", "single")
    uval = None if uval == "none" else uval
    sz = f.first("sz")
    try:
        size = float(sz.get("val"))
    except (AttributeError, TypeError, ValueError):
        size = None
    out["font"] = (flag(f.first("b")), flag(f.first("i")), uval, size, colour(f.first("color")), f.first("name").get("val") if f.first("name") is not None else None)
    for k in f.elems():
        if k.tag not in ("b", "i", "u", "sz", "color", "name", "family", "scheme", "charset"):
            extra.append("font <%s>" % k.tag)
        if k.tag == "scheme" and k.get("val") not in (None, "none") and f.first("name") is not None:
            extra.append("font scheme %s overrides the name" % k.get("val"))
    if len([k for k in f.elems() if k.tag == "b"]) > 1:
        extra.append("two <b>")
    fl = entry(styles.fills, "fillId")
    pf = fl.first("patternFill")
    if pf is None:
        out["fill"] = ("gradient", None, None)
    else:
        def rgb(n):
            c = colour(n)
            return None if c is None else c[1] if c[0] == "rgb" else c
        out["fill"] = (pf.get("patternType", "none"), rgb(pf.first("fgColor")), rgb(pf.first("bgColor")))
    bd = entry(styles.borders, "borderId")
    b = []
    for sd in ("left", "right", "top", "bottom", "diagonal"):
        n = bd.first(sd)
        s = None if n is None else n.get("style")
        s = None if s == "none" else s
        b.append((s, colour(n.first("color")) if n is not None and s else None))
    out["border"] = tuple(b)
    for k in ("diagonalUp", "diagonalDown"):
        if b[4][0] and BOOL.get(bd.get(k, "0"), bd.get(k, "0")) != "0":
            extra.append("border " + k)
    for k in bd.elems():
        if k.tag not in ("left", "right", "top", "bottom", "diagonal", "start", "end"):
            extra.append("border <%s>" % k.tag)
    al = xf.first("alignment")
    h = al.get("horizontal") if al is not None else None
    v = al.get("vertical") if al is not None else None
    w = al is not None and BOOL.get(al.get("wrapText", "0"), al.get("wrapText", "0")) == "1"
    out["align"] = (None if h in (None, "general") else h, v, w)
    if al is not None:
        for k in al.attrs:
            if k[1] not in ("horizontal", "vertical", "wrapText"):
                extra.append("alignment %s" % k[1])
    if xf.first("protection") is not None:
        extra.append("protection")
    for k in ("quotePrefix", "pivotButton"):
        if BOOL.get(xf.get(k, "0"), xf.get(k, "0")) != "0":
            extra.append(k)
    # a facet is applied unless the format says otherwise
    for k in ("applyNumberFormat", "applyFont", "applyFill", "applyBorder", "applyAlignment"):
        if BOOL.get(xf.get(k, "1"), xf.get(k, "1")) == "0":
            extra.append("%s=0" % k)
    # without the flag, readers differ in whether the format or the cell style it is based on decides
    base = styles.style_xfs[int(xf.get("xfId", "0"))] if xf.get("xfId", "0").isdigit() and int(xf.get("xfId", "0")) < len(styles.style_xfs) else None
    for k, i in (("applyNumberFormat", "numFmtId"), ("applyFont", "fontId"), ("applyFill", "fillId"), ("applyBorder", "borderId")):
        if base is not None and xf.get(k) is None and xf.get(i, "0") != "0" and base.get(i, "0") != xf.get(i, "0"):
            extra.append("%s missing though the cell style has another %s" % (k, i))
    if base is not None and xf.get("applyAlignment") is None and al is not None and (base.first("alignment") is None or canon(base.first("alignment")) != canon(al)):
        extra.append("applyAlignment missing though the cell style is aligned otherwise")
    return out, extra


BUILTIN = {0: "General", 1: "0", 2: "0.00", 3: "#,##0", 4: "#,##0.00", 9: "0%", 10: "0.00%", 11: "0.00E+00", 48: "##0.0E+0", 49: "@"}


def style_match(exp, act):
    bad = []
    for k in ("numfmt", "font", "border", "align"):
        if exp[k] != act[k]:
            if k == "numfmt" and exp[k][0] == "code" and act[k][0] == "id" and BUILTIN.get(act[k][1]) == exp[k][1]:
                continue
            bad.append("%s is %r, requested %r" % (k, act[k], exp[k]))
    e, a = exp["fill"], act["fill"]
    if e[0] == "none":
        if a[0] != "none":
            bad.append("fill is %r, requested none" % (a,))
    elif a != e:
        bad.append("fill is %r, requested %r" % (a, e))
    return bad


# ------------------------------------------------------------------ documents

class SheetM:
    def __init__(self, name, rec=None, sheet=None):
        self.name = name
        self.rec = rec            # entry of the source's sheet list
        self.src = sheet          # Sheet of the source
        self.state = rec["state"] if rec else "visible"
        self.cells = {}           # (row, col) -> Exp
        self.rows = {}            # row -> {attr: v}
        self.cols = {}            # col -> {attr: v} | None
        self.open = None
        self.touched = rec is None
        self.had = set()


class DocM:
    def __init__(self, kind, pkg, monitor):
        self.kind, self.pkg = kind, pkg
        self.sheets, self.deleted = [], []
        self.active = None
        self.active_gone = False
        self.view = {}
        self.styles = []          # (id, setting)
        self.texts = set()        # shared texts written
        self.t_open = None
        self.dead = False
        self.book = None
        if kind == "excel":
            if pkg is not None:
                self.book = Book(pkg)
                for s in self.book.sheets:
                    sh = self.book.sheet(s["part"]) if s["type"] == "worksheet" and s["part"] else None
                    self.sheets.append(SheetM(s["name"], s, sh))
            else:
                self.sheets.append(SheetM(None))

    def by_name(self, name):
        for s in self.sheets:
            if s.name == name:
                return s
        return None

    def nameless(self):
        return next((s for s in self.sheets if s.name is None), None)

    def unsure(self, name):
        """Could be the name of a new sheet the library named."""
        return self.nameless() is not None and GENERIC.match(name) is not None

    def clash(self, name, but=None):
        return any(s is not but and (s.name or "").lower() == name.lower() for s in self.sheets)


class Replay:
    """One case. `ops` are the requested calls, `events` the recorded results."""

    def __init__(self, base, packages=None, opts=None):
        self.base = base
        self.discs = []
        self.docs, self.handles, self.styles = {}, {}, {}
        self.files = {}          # path as used -> snapshot path
        self.pk = packages if packages is not None else {}
        self.stats = dict(calls=0, refused=0, saves=0, sheets=0, cells=0, opened=0)
        self.diverged = False
        self.failed_before = False
        self.saved = []          # (doc key, path, Package or None)
        self.opts = opts or {}

    def bad(self, tags, code, text):
        self.discs.append(Disc(tags, code, text))

    def package(self, path):
        p = self.files.get(path, path)
        if p not in self.pk:
            self.pk[p] = Package(os.path.join(self.base, p))
        return self.pk[p]

    # ---- expectations of calls: returns (expected, apply) with expected in {"ok", "err", None}
    def plan(self, op):
        k = op["op"]
        d = self.docs.get(op.get("doc", "d"))
        h = self.handles.get(op.get("h", "h"))
        if k == "open":
            return self.plan_open(op)
        if k == "save":
            if d.kind == "excel" and any(s.open for s in d.sheets):
                return "err", lambda ev: self.end_doc(op, False)
            return op.get("expect", "ok"), lambda ev: self.end_doc(op, ev["r"] == "ok")
        if k == "drop_doc":
            return "ok", lambda ev: self.end_doc(op, None)
        if k in NEUTRAL:
            def other(ev):
                if "alias" in op and ev["r"] == "ok":
                    self.files[op["alias"][0]] = op["alias"][1]
            return None, other
        if k == "close":
            def close(ev):
                _, s = self.handles.pop(op.get("h", "h"))
                s.open = None
            return "ok", close
        if k in ("add_sheet", "get_sheet", "rename", "active", "hide", "list", "style", "visibility", "minimize", "hide_tabs", "hide_vscroll", "hide_hscroll"):
            return self.plan_book(op, d)
        return self.plan_sheet(op, h)

    def plan_open(self, op):
        kind = op.get("kind", "excel")
        path = op.get("path")
        expect = op.get("expect", "ok")
        if path is not None and not os.path.exists(os.path.join(self.base, self.files.get(path, path))):
            expect = "err"   # an earlier save was refused

        def go(ev):
            if ev["r"] != "ok":
                return
            pkg = self.package(path) if path is not None else None
            doc = DocM(kind, pkg, self)
            doc.key = op.get("doc", "d")
            doc.t_open = ev.get("ts")
            self.docs[doc.key] = doc
            self.stats["opened"] += 1
        return expect, go

    def plan_book(self, op, d):
        k = op["op"]
        if k == "list":
            def chk(ev):
                names = ev["v"]
                if len(names) == len(d.sheets):
                    for s, n in zip(d.sheets, names):
                        if s.name is None and n and not d.clash(n, s):
                            s.name = n
                want = [s.name for s in d.sheets]
                if names != want:
                    self.bad({"C09", "C23", "C25"} | ({"C17"} if self.failed_before else set()), "list", "listed %r, expected %r" % (names, want))
                    self.diverged = True
            return "ok", chk
        if k == "add_sheet":
            n = op.get("name")
            good = n is None or (xml_ok(n) and not d.clash(n))

            def add(ev):
                s = SheetM(n)
                d.sheets.append(s)
                s.open = op.get("h", "h")
                self.rebind(op, d, s)
            if n == "" or n is not None and good and d.unsure(n):
                return None, add
            return ("ok" if good else "err"), add
        if k == "get_sheet":
            s = d.by_name(op["name"])
            good = s is not None and s.open is None and (s.rec is None or s.src is not None)
            unsure = s is None and d.clash(op["name"])
            if s is None and d.unsure(op["name"]):
                s, good, unsure = d.nameless(), True, True

            def get(ev):
                t = s if s is not None else [x for x in d.sheets if (x.name or "").lower() == op["name"].lower()][0]
                t.open = op.get("h", "h")
                t.touched = True
                self.rebind(op, d, t)
            return (None if unsure else "ok" if good else "err"), get
        if k == "rename":
            s = d.by_name(op["old"])
            new = op["new"]
            if s is None and d.unsure(op["old"]):
                return None, lambda ev: setattr(d.nameless(), "name", new)
            if s is None:
                return "err", None
            if not xml_ok(new) or d.clash(new, s) or new == "":
                return ("err" if new != "" else None), (lambda ev: setattr(s, "name", new))
            if new == op["old"]:
                return None, lambda ev: None
            if d.unsure(new):
                return None, lambda ev: setattr(s, "name", new)
            return "ok", lambda ev: setattr(s, "name", new)
        if k == "active":
            s = d.by_name(op["name"])
            if s is None and d.unsure(op["name"]):
                s = d.nameless()
                return None, lambda ev: setattr(d, "active", s)
            return ("ok" if s else "err"), lambda ev: setattr(d, "active", s)
        if k == "hide":
            s = d.by_name(op["name"])
            if s is None and d.unsure(op["name"]):
                s = d.nameless()
                return None, lambda ev: setattr(s, "state", "hidden")
            return ("ok" if s else "err"), lambda ev: setattr(s, "state", "hidden")
        if k == "style":
            if style_refused(op["style"]):
                return "err", None

            def st(ev):
                self.styles[op["id"]] = str(ev["v"])
                d.styles.append((ev["v"], op["style"]))
            return "ok", st
        on = bool(op.get("on"))
        attr, val = {"visibility": ("visibility", "visible" if on else "hidden"), "minimize": ("minimized", "1" if on else "0"),
                     "hide_tabs": ("showSheetTabs", "0" if on else "1"), "hide_vscroll": ("showVerticalScroll", "0" if on else "1"),
                     "hide_hscroll": ("showHorizontalScroll", "0" if on else "1")}[k]
        return "ok", lambda ev: d.view.__setitem__(attr, val)

    def learn(self, op, names):
        """The driver looked names up by position; new sheets get their names from the library."""
        d = self.docs.get(op.get("doc", "d"))
        if d is None:
            return
        for k, n in names.items():
            i = op[k]["nth"]
            if i < len(d.sheets) and d.sheets[i].name is None and n and not d.clash(n, d.sheets[i]):
                d.sheets[i].name = n
            want = d.sheets[i].name if i < len(d.sheets) else ""
            if want != n:
                self.bad({"C09", "C25"}, "list", "listed %r as sheet %d, expected %r" % (n, i, want))

    def rebind(self, op, d, s):
        h = op.get("h", "h")
        old = self.handles.get(h)
        if old is not None and old[1] is not s:
            old[1].open = None
        self.handles[h] = (d, s)

    def plan_sheet(self, op, h):
        k = op["op"]
        d, s = h
        gone = d.dead or s not in d.sheets
        if k == "delete_sheet":
            def dele(ev):
                self.handles.pop(op.get("h", "h"), None)
                s.open = None
                if ev["r"] == "ok" and not d.dead:
                    d.sheets.remove(s)
                    d.deleted.append(s)
            return (None if gone else "ok"), dele
        if k in ("row_ref", "row_idx"):
            if k == "row_ref":
                at = parse_cell(op["ref"])
            else:
                at = (op["row"], op["col"]) if 1 <= op["row"] <= MAXR and 1 <= op["col"] <= MAXC else None
            cells = op.get("cells", [])
            if at is None:
                return (None if gone or not cells else "err"), None
            if at == "odd":
                m = re.match(r"^([A-Za-z]+)0*([0-9]+)\Z", op["ref"])
                expect = None
                at = (int(m.group(2)), col_num(m.group(1)))
            else:
                expect = "ok"
            if at[1] + len(cells) - 1 > MAXC:
                return (None if gone else "err"), None
            exps = []
            for c in cells:
                e, why = norm_cell(c, self.styles.get(c.get("s"), "0") if c.get("s") else "0")
                if e is None:
                    return (None if gone else "err"), None
                exps.append(e)

            def write(ev):
                if gone:
                    return
                for i, e in enumerate(exps):
                    s.cells[(at[0], at[1] + i)] = e
                    if e.kind in ("text", "s"):
                        d.texts.add(e.value)
                self.stats["cells"] += len(exps)
            return (None if gone else expect), write
        if k == "row_props":
            r, p = op["row"], op["p"]
            ht = p.get("height")
            if not 1 <= r <= MAXR or (ht is not None and bad_size(ht)):
                return (None if gone else "err"), None
            a = {}
            if p.get("style"):
                a["s"], a["customFormat"] = self.styles.get(p["style"], "0"), "1"
            if ht is not None:
                a["ht"], a["customHeight"] = f32(ht), "1"
            for q, t in (("hidden", "hidden"), ("thick_top", "thickTop"), ("thick_bottom", "thickBot")):
                if p.get(q):
                    a[t] = "1"
            return (None if gone else "ok"), (lambda ev: None if gone else s.rows.__setitem__(r, a))
        if k in ("col_ref", "col_idx"):
            if k == "col_ref":
                c = parse_col(op["ref"])
                expect = None if c == "odd" else "ok"
                if c == "odd":
                    c = col_num(re.match(r"[A-Za-z]+", op["ref"]).group(0))
            else:
                c = op["col"] if 1 <= op["col"] <= MAXC else None
                expect = "ok"
            p = op.get("p")
            w = p.get("width") if p else None
            if c is None or (w is not None and bad_size(w)):
                return (None if gone else "err"), None
            a = None
            if p is not None:
                a = {}
                if w is not None:
                    a["width"], a["customWidth"] = f32(w), "1"
                if p.get("hidden"):
                    a["hidden"] = "1"
                if p.get("best_fit"):
                    a["bestFit"] = "1"
                if p.get("style"):
                    a["style"] = self.styles.get(p["style"], "0")

            def setcol(ev):
                if not gone:
                    s.cols[c] = a
            return (None if gone else expect), setcol
        raise KeyError(k)

    def end_doc(self, op, ok):
        key = op.get("doc", "d")
        d = self.docs.pop(key)
        d.dead = True
        if ok:
            self.files.pop(op["path"], None)
            self.saved.append((d, op))

    # ---- run
    def run(self, ops, events):
        for ev in events:
            if "i" not in ev:
                continue
            op = ops[ev["i"]]
            self.step(op, ev)
            if self.diverged:
                break

    def step(self, op, ev):
        if "names" in ev:
            self.learn(op, ev["names"])
            op = dict(op, **ev["names"])
        k = op["op"]
        r = ev["r"]
        if r == "skip":
            return
        self.stats["calls"] += 1
        if r == "panic":
            self.bad(OP_TAGS.get(k, set()) | {"C16"}, "panic", "%s panicked: %s" % (brief(op), (ev.get("m") or "")[:300]))
            self.diverged = True
            return
        if k not in ("open", "add_sheet", "get_sheet") and not self.exists(op):
            return
        try:
            expect, apply = self.plan(op)
        except (XmlError, zipfile.BadZipFile, OSError) as ex:
            raise
        if r == "err":
            self.stats["refused"] += 1
            if expect == "ok":
                tags = set(OP_TAGS.get(k, set()))
                if self.failed_before:
                    tags |= {"C17"}
                self.bad(tags, "refused", "%s was refused: %s" % (brief(op), (ev.get("m") or "")[:300]))
                self.diverged = True
                return
            self.failed_before = True
            if k in ("save", "delete_sheet") and apply:
                apply(ev)
            return
        if expect == "err":
            self.bad(OP_TAGS.get(k, set()) | {"C17"}, "accepted", "%s was accepted" % brief(op))
            self.diverged = True
            return
        if apply:
            apply(ev)
        if k == "save" and r == "ok":
            d, sop = self.saved[-1]
            nxt = sop.get("snap", sop["path"])
            self.check_saved(d, sop, nxt, ev)

    def exists(self, op):
        k = op["op"]
        if k in ("row_ref", "row_idx", "row_props", "col_ref", "col_idx", "close", "delete_sheet"):
            return op.get("h", "h") in self.handles
        if k in NEUTRAL:
            return True
        return op.get("doc", "d") in self.docs

    def check_saved(self, d, op, path, ev):
        self.stats["saves"] += 1
        if op.get("unchecked"):
            return
        try:
            pkg = Package(os.path.join(self.base, path))
        except (zipfile.BadZipFile, OSError, zipfile.zlib.error, NotImplementedError, RuntimeError, EOFError) as ex:
            self.bad({"C01", "C18", "C03", "C05"}, "zip", "saved file is not readable: %r" % ex)
            self.diverged = True
            return
        self.pk[path] = pkg
        try:
            self.discs += compare_save(d, pkg, ev, self.stats)
        except XmlError as ex:
            self.bad({"C01", "C14", "C03"}, "xml", "saved package cannot be read: %s" % ex)
            self.diverged = True


GENERIC = re.compile(r"(?i)sheet ?\d+\Z")


def bad_size(x):
    return not math.isfinite(x) or x < 0 or x >= 3.4028236e38


def f32(x):
    """The value a 32-bit float argument has."""
    return repr(struct.unpack("f", struct.pack("f", x))[0])


def same_f32(exp, act, name):
    """A size that was set is right if it is the nearest to what was asked for; spelled with any number of digits."""
    e, a = exp.get(("", name)), act.get(("", name))
    try:
        if e is not None and a is not None and f32(float(e)) == f32(float(a)):
            act[("", name)] = e
    except (ValueError, OverflowError):
        pass


def brief(op):
    return "%s(%s)" % (op["op"], ", ".join("%s=%s" % (k, repr(v)[:160]) for k, v in op.items() if k not in ("op",)))


# ------------------------------------------------------------------ comparison of a saved package

def compare_save(d, pkg, ev, stats):
    out = []

    def bad(tags, code, text):
        out.append(Disc(tags, code, text))
    out += pkgcheck.check(pkg, d.pkg, d.kind)
    if any(x.code in ("no-content-types", "main-part", "workbook") for x in out):
        return out
    compare_parts(d, pkg, bad)
    compare_rels(d, pkg, bad)
    compare_core(d, pkg, ev, bad)
    if d.kind == "excel":
        compare_book(d, pkg, bad, stats)
    return out


def managed_parts(d):
    """Parts of the source the library maintains in this session."""
    src = d.pkg
    m = {src.find("[Content_Types].xml")}
    core = core_part(src)
    if core:
        m.add(core)
    if d.kind == "excel":
        b = d.book
        for p in (b.part, b.sst_part, b.style_part, b.chain_part, src.rel_part(b.part, "/theme")):
            if p:
                m.add(p)
        for s in d.sheets + d.deleted:
            if s.rec and s.rec["part"] and (s.touched or s in d.deleted):
                m.add(s.rec["part"])
    return m


def reused_parts(d, pkg):
    """Parts a new sheet lives in although a deleted sheet had that name."""
    got = Book(pkg).sheets
    if len(got) != len(d.sheets):
        return set()
    return {g["part"] for s, g in zip(d.sheets, got) if s.rec is None and g["part"]}


def core_part(pkg):
    for r in pkg.rels(""):
        if r.type == REL_CORE and r.part:
            return pkg.find(r.part)
    return None


def compare_parts(d, pkg, bad):
    src = d.pkg
    if src is None:
        return
    managed = managed_parts(d)
    gone = {s.rec["part"] for s in d.deleted if s.rec}
    if d.kind == "excel":
        gone -= reused_parts(d, pkg)
    gone_rels = {rels_name(p).lower() for p in gone if p}
    for name, data in src.parts.items():
        if name in gone or name.lower() in gone_rels:
            if pkg.find(name):
                bad({"C23"}, "deleted-part", "part %r of a deleted sheet is still there" % name)
            continue
        is_rels = rels_owner(name) is not None
        if name in managed or is_rels:
            continue
        if name not in pkg.parts:
            bad({"C05", "C04"}, "part-lost", "part %r is missing%s" % (name, " (found %r)" % pkg.find(name) if pkg.find(name) else ""))
            continue
        sheet = any(s.rec and s.rec["part"] == name for s in d.sheets) if d.kind == "excel" else False
        if pkg.parts[name] != data:
            if sheet:
                if canon(pkg.xml(name)) != canon(src.xml(name)):
                    bad({"C04", "C05", "C14"}, "untouched-sheet", "worksheet part %r changed without being opened" % name)
            else:
                bad({"C05"}, "part-bytes", "part %r: %d bytes, was %d%s" % (name, len(pkg.parts[name]), len(data), first_diff(pkg.parts[name], data)))
        if pkg.content_type(name) != src.content_type(name):
            bad({"C05", "C01"}, "part-content-type", "part %r: %r, was %r" % (name, pkg.content_type(name), src.content_type(name)))
    for name in managed:
        if name == src.find("[Content_Types].xml") or name in gone or name not in src.parts:
            continue
        if name in pkg.parts and pkg.content_type(name) != src.content_type(name):
            bad({"C05", "C01"}, "part-content-type", "part %r: %r, was %r" % (name, pkg.content_type(name), src.content_type(name)))
    known = set(src.parts)
    for name in pkg.parts:
        if name in known or rels_owner(name) is not None:
            continue
        ct = pkg.content_type(name) or ""
        if not any(x in ct for x in ("worksheet+xml", "styles+xml", "sharedStrings+xml", "theme+xml", "core-properties+xml")):
            bad({"C05", "C01"}, "part-new", "part %r (%s) appeared" % (name, ct))


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return ", first difference at %d" % i
    return ""


def compare_rels(d, pkg, bad):
    src = d.pkg
    if src is None:
        return
    gone = {(s.rec["part"] or "").lower() for s in d.deleted if s.rec}
    reused = {x.lower() for x in reused_parts(d, pkg)} if d.kind == "excel" else set()
    new_ok = {OD + "worksheet", OD + "styles", OD + "sharedStrings", OD + "theme", OD + "calcChain"}
    empty_ok = set()
    if d.kind == "excel":
        b = d.book
        if b.sst_part and not b.sst:
            empty_ok.add(b.sst_part.lower())
        if b.chain_part:
            empty_ok.add(b.chain_part.lower())  # judged with the chain itself
    owners = {""}
    for name in src.parts:
        o = rels_owner(name)
        if o is not None:
            owners.add(o)
    n_new_sheets = sum(1 for s in d.sheets if s.rec is None) if d.kind == "excel" else 0
    main = src.main_part() or ""
    for o in owners:
        if o.lower() in gone or o.lower() in empty_ok and pkg.find(o) is None:
            continue
        before = src.rels(o)
        after = pkg.rels(o)
        am = {}
        for r in after:
            am.setdefault(r.id, r)
        for r in before:
            if r.part is not None and (r.part.lower() in gone and o == main):
                if r.part.lower() in reused:
                    continue
                if any(x.part and x.part.lower() == r.part.lower() for x in after):
                    bad({"C23", "C26"}, "rel-deleted", "%r still has a relationship to the deleted %r" % (o, r.part))
                continue
            x = am.pop(r.id, None)
            if x is None:
                if r.part is not None and r.part.lower() in empty_ok and pkg.find(r.part) is None:
                    continue
                bad({"C26", "C04"} | ({"C23"} if d.kind == "excel" and d.deleted else set()), "rel-lost", "%r lost %r" % (o, r))
                continue
            same_target = (x.target == r.target) if r.mode == "External" else (x.part or "").lower() == (r.part or "").lower() and frag(x.target) == frag(r.target)
            if x.type != r.type or x.mode != r.mode or not same_target:
                bad({"C26", "C04"}, "rel-changed", "%r: %r, was %r" % (o, x, r))
        sheets = 0
        for r in am.values():
            if o == main and d.kind == "excel" and r.type in new_ok:
                sheets += r.type == OD + "worksheet"
                if r.type != OD + "worksheet" and any(q.type == r.type for q in before):
                    bad({"C26", "C01"}, "rel-new", "%r has a second relationship %r" % (o, r))
                continue
            if o == "" and r.type in (REL_CORE, REL_OFFICE) and not any(q.type == r.type for q in before):
                continue
            bad({"C26"}, "rel-new", "%r has an unexpected new %r" % (o, r))
        if o == main and d.kind == "excel" and sheets != n_new_sheets:
            bad({"C26", "C09", "C23"}, "rel-sheets", "%d new worksheet relationships for %d new sheets" % (sheets, n_new_sheets))


def frag(t):
    return t.split("#", 1)[1] if "#" in t else None


W3C = re.compile(r"^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.\d+)?(Z|[+-]\d\d:\d\d)$")


def w3c_time(t):
    import calendar
    m = W3C.match(t or "")
    if not m:
        return None
    y, mo, dd, h, mi, s = (int(x) for x in m.groups()[:6])
    try:
        if not (1 <= mo <= 12 and 1 <= dd <= calendar.monthrange(y, mo)[1] and h < 24 and mi < 60 and s < 61):
            return None
    except (ValueError, calendar.IllegalMonthError):
        return None
    off = 0
    if m.group(7) != "Z":
        sign = 1 if m.group(7)[0] == "+" else -1
        off = sign * (int(m.group(7)[1:3]) * 60 + int(m.group(7)[4:6])) * 60
    return calendar.timegm((y, mo, dd, h, mi, s)) - off


def compare_core(d, pkg, ev, bad):
    part = core_part(pkg)
    if part is None:
        bad({"C22", "C01"}, "core-missing", "no core properties part")
        return
    if pkg.content_type(part) != "application/vnd.openxmlformats-package.core-properties+xml":
        bad({"C22", "C01"}, "core-type", "core properties have content type %r" % pkg.content_type(part))
    new = pkg.xml(part)
    now = [k for k in new.elems() if k.ns == NS_DCT and k.tag == "modified"]
    end, start = ev["ts"], ev.get("t0", ev["ts"] - 180)
    if start > end:
        start = end - 180  # the clock of the machine was set
    if len(now) != 1:
        bad({"C22"}, "core-modified", "%d modified elements" % len(now))
    else:
        t = w3c_time(now[0].text())
        if t is None:
            bad({"C22"}, "core-modified", "modified is %r" % now[0].text())
        elif not (start - 1.5 <= t <= end + 2):
            bad({"C22"}, "core-modified", "modified is %r, saved from %s to %s" % (now[0].text(), start, end))
        if d.pkg is None and now[0].get("type", ns="http://www.w3.org/2001/XMLSchema-instance") != "dcterms:W3CDTF":
            pass
    created = [k for k in new.elems() if k.ns == NS_DCT and k.tag == "created"]
    src_part = core_part(d.pkg) if d.pkg else None
    old_created = None
    if src_part and src_part in d.pkg.parts:
        old = d.pkg.xml(src_part)
        oc = [k for k in old.elems() if k.ns == NS_DCT and k.tag == "created"]
        old_created = oc[0].text() if oc and oc[0].text().strip() else None
        skip = {(NS_DCT, "modified"), (NS_DCT, "created")}
        a = [canon(k) for k in old.elems() if (k.ns, k.tag) not in skip]
        b = [canon(k) for k in new.elems() if (k.ns, k.tag) not in skip]
        if sorted(a) != sorted(b):
            bad({"C22"}, "core-lost", "core properties changed: %s" % diff_list(sorted(a), sorted(b)))
        om = [k for k in old.elems() if k.ns == NS_DCT and k.tag == "modified"]
        for o, n in ((om, now), (oc, created)):
            if o and n and canon(o[0])[2] != canon(n[0])[2]:
                bad({"C22", "C14"}, "core-attrs", "attributes of %s changed" % o[0].tag)
    if old_created is not None:
        if len(created) != 1 or created[0].text() != old_created:
            bad({"C22"}, "core-created", "created is %r, was %r" % ([c.text() for c in created], old_created))
    elif created:
        t = w3c_time(created[0].text())
        if len(created) != 1 or t is None or not end - 180 <= t <= end + 2:
            bad({"C22"}, "core-created", "created is %r, saved at %s" % ([c.text() for c in created], end))
    elif d.pkg is None:
        bad({"C22"}, "core-created", "a new document has no creation time")


def diff_list(a, b):
    for x in a:
        if x not in b:
            return "lost or changed %s" % short(x)
    for x in b:
        if x not in a:
            return "new %s" % short(x)
    return "order or number of %d/%d entries" % (len(a), len(b))


def short(x, n=300):
    s = repr(x).replace(NS_MAIN, "m")
    return s[:n]


def diff_canon(a, b, path=""):
    """Where two canonical elements differ."""
    if isinstance(a, str) or isinstance(b, str):
        return "%s: %s instead of %s" % (path, short(b, 120), short(a, 120))
    if a[:2] != b[:2]:
        return "%s: element %r instead of %r" % (path, b[:2], a[:2])
    p = path + "/" + a[1]
    if a[2] != b[2]:
        return "%s: attributes %s instead of %s" % (p, short(b[2], 300), short(a[2], 300))
    if len(a[3]) != len(b[3]):
        return "%s: %d children instead of %d" % (p, len(b[3]), len(a[3]))
    for x, y in zip(a[3], b[3]):
        if x != y:
            return diff_canon(x, y, p)
    return p


# ---- workbook

def compare_book(d, pkg, bad, stats):
    book = Book(pkg)
    src = d.book
    got = book.sheets
    for s, g in zip(d.sheets, got):
        if s.name is None:
            s.name = g["name"]
    want = [s.name for s in d.sheets]
    names = [g["name"] for g in got]
    if names != want:
        bad({"C09", "C23", "C25", "C03"}, "sheets", "saved sheets %r, expected %r" % (names, want))
        return
    used_parts = set()
    for s, g in zip(d.sheets, got):
        if g["state"] != s.state:
            bad({"C09"}, "sheet-state", "sheet %r is %s, expected %s" % (s.name, g["state"], s.state))
        if s.rec:
            if g["part"] is None or g["part"].lower() != (s.rec["part"] or "").lower():
                bad({"C09", "C26", "C23", "C03"}, "sheet-identity", "sheet %r is part %r, was %r" % (s.name, g["part"], s.rec["part"]))
                continue
            if g["id"] != s.rec["id"] or g["extra"] != s.rec["extra"]:
                bad({"C09", "C23"}, "sheet-identity", "sheet %r: %r, was %r" % (s.name, g["extra"], s.rec["extra"]))
        elif src is not None and g["part"] is not None and d.pkg.find(g["part"]) and g["part"] not in {x.rec["part"] for x in d.deleted if x.rec}:
            bad({"C09", "C05", "C25"}, "sheet-overwrites", "new sheet %r uses part %r of the source" % (s.name, g["part"]))
    if src is not None and src.part != book.part:
        bad({"C27", "C26", "C05"}, "workbook-moved", "workbook is %r, was %r" % (book.part, src.part))
    compare_views(d, book, bad)
    if src is not None:
        a = [canon(k) for k in src.node.elems() if k.tag not in ("bookViews", "sheets", "definedNames")]
        b = [canon(k) for k in book.node.elems() if k.tag not in ("bookViews", "sheets", "definedNames")]
        if a != b:
            bad({"C14", "C04", "C09", "C10"}, "workbook-content", diff_list(a, b))
        p = child_order(src.node, book.node, pkgcheck.WB_ORDER, pkgcheck.WB_MULTI)
        if p:
            bad({"C13", "C04", "C14"}, "workbook-order", "children of the workbook in another order: %s" % p)
        if canon_attrs(src.node) != canon_attrs(book.node):
            bad({"C14", "C04"}, "workbook-attrs", "attributes of workbook %s instead of %s" % (short(canon_attrs(book.node)), short(canon_attrs(src.node))))
        sa = src.node.first("sheets"), book.node.first("sheets")
        if sa[0] is not None and sa[1] is not None and canon_attrs(sa[0]) != canon_attrs(sa[1]):
            bad({"C14"}, "workbook-attrs", "attributes of sheets changed")
        pos = {}
        for i, s in enumerate(d.sheets):
            if s.rec:
                pos[src.sheets.index(s.rec)] = i
        exp = []
        for at, text in src.defined_names():
            at = dict(at)
            l = at.get(("", "localSheetId"))
            if l is not None:
                if int(l) not in pos:
                    continue
                at[("", "localSheetId")] = str(pos[int(l)])
            exp.append((at, text))
        if exp != book.defined_names():
            bad({"C04", "C09", "C23"}, "defined-names", "%r, expected %r" % (book.defined_names()[:6], exp[:6]))
    theme = (d.pkg.rel_part(src.part, "/theme") if src else None)
    if theme and theme in d.pkg.parts:
        if theme not in pkg.parts:
            bad({"C14", "C05", "C08"}, "theme-lost", "theme part %r is missing" % theme)
        elif canon(d.pkg.xml(theme)) != canon(pkg.xml(theme)):
            bad({"C14", "C04", "C08"}, "theme", diff_canon(canon(d.pkg.xml(theme)), canon(pkg.xml(theme))))
    compare_sst(d, book, bad)
    compare_styles(d, book, bad)
    compare_chain(d, book, bad)
    shared = {}
    for s, g in zip(d.sheets, got):
        if g["type"] != "worksheet" or g["part"] is None or (s.rec and s.src is None):
            continue
        if s.src is not None and not s.touched and pkg.parts.get(g["part"]) == d.pkg.parts.get(s.rec["part"]):
            continue
        stats["sheets"] += 1
        compare_sheet(d, s, book.sheet(g["part"]), bad, shared)
    for text, idx in shared.items():
        if len(idx) > 1:
            bad({"C06"}, "sst-share", "text %r is written through entries %r" % (text[:80], sorted(idx)))


def canon_attrs(n):
    return canon(n)[2]


def norm_view(v):
    out = {}
    for k, x in v.items():
        if k[0] == "":
            x = BOOL.get(x, x)
            if VIEW_DEFAULTS.get(k[1]) == x:
                continue
        out[k] = x
    return out


def further(n):
    """activeTab, firstSheet and the rest of a window."""
    out = []
    for k in ("activeTab", "firstSheet"):
        x = n.get(k, "0").strip(" \t\r\n")
        out.append(int(x) if x.isascii() and x.isdigit() else x)
    c = canon(n)
    rest = tuple((ns, k, BOOL.get(x, x)) for ns, k, x in c[2] if k not in ("activeTab", "firstSheet"))
    return out[0], out[1], (c[1], rest, c[3])


def compare_views(d, book, bad):
    src = d.book
    base = src.views() if src else []
    got = book.views()
    exp = dict(base[0]) if base else {}
    for k, v in d.view.items():
        exp[("", k)] = v
    g0 = dict(got[0]) if got else {}
    n = len(d.sheets)

    def index_of(rec_index):
        if src is None:
            return None
        try:
            rec = src.sheets[rec_index]
        except IndexError:
            return None
        for i, s in enumerate(d.sheets):
            if s.rec is rec:
                return i
        return None
    for key in ("activeTab", "firstSheet"):
        a = int(exp.pop(("", key), "0") or 0)
        g = g0.pop(("", key), "0").strip(" \t\r\n")
        g = str(int(g)) if g.isascii() and g.isdigit() else g
        if key == "activeTab" and d.active is not None and d.active in d.sheets:
            want = d.sheets.index(d.active)
            if g != str(want):
                bad({"C09", "C10"}, "active", "activeTab=%s, expected %d (%r)" % (g, want, d.active.name))
        elif src is not None and index_of(a) is not None:
            if g != str(index_of(a)):
                bad({"C10", "C09", "C23"}, key, "%s=%s, expected %d" % (key, g, index_of(a)))
        elif not (g.isdigit() and int(g) < max(1, n)):
            bad({"C10", "C09", "C23"}, key, "%s=%s of %d sheets" % (key, g, n))
    if norm_view(exp) != norm_view(g0):
        bad({"C10"}, "window", "window %r, expected %r" % (pretty(norm_view(g0)), pretty(norm_view(exp))))
    if base:
        bv, gv = src.node.first("bookViews"), book.node.first("bookViews")
        a = [further(k) for k in bv.elems("workbookView")[1:]]
        b = [further(k) for k in gv.elems("workbookView")[1:]] if gv is not None else []
        if [x[2] for x in a] != [x[2] for x in b]:
            bad({"C10"}, "further-windows", "further windows %s, expected %s" % (short([x[2] for x in b]), short([x[2] for x in a])))
        else:
            for i, (x, y) in enumerate(zip(a, b)):
                for j, key in enumerate(("activeTab", "firstSheet")):
                    want = index_of(x[j]) if isinstance(x[j], int) else x[j]
                    if want is None and not (isinstance(y[j], int) and y[j] < max(1, n)) or want is not None and y[j] != want:
                        bad({"C10", "C09", "C23"}, "further-" + key, "%s=%s of window %d, expected %s" % (key, y[j], i + 2, want if want is not None else "less than %d" % n))
        ka = [canon(k) for k in bv.elems("workbookView")[0].elems()]
        kb = [canon(k) for k in gv.elems("workbookView")[0].elems()] if gv is not None and gv.elems("workbookView") else []
        if ka != kb:
            bad({"C10", "C14"}, "window-children", "children of workbookView changed")
    elif len(got) > 1:
        bad({"C10"}, "further-windows", "%d windows appeared" % len(got))


def pretty(a):
    return {k[1]: v for k, v in sorted(a.items())}


def compare_sst(d, book, bad):
    old = d.book.sst if d.book else []
    new = book.sst
    if len(new) < len(old):
        bad({"C06", "C04", "C02"}, "sst-lost", "%d shared strings, had %d" % (len(new), len(old)))
        return
    for i, o in enumerate(old):
        if canon(o) != canon(new[i]):
            bad({"C06", "C04", "C02", "C14"}, "sst-changed", "entry %d: %s" % (i, diff_canon(canon(o), canon(new[i]))))
            return
    plain = {}
    for i, o in enumerate(old):
        k = o.elems()
        if len(k) == 1 and k[0].tag == "t":
            t = t_text(k[0])
            if t == t.strip() or k[0].get("space", None, NS_XML) == "preserve":
                plain.setdefault(t, i)
    for i in range(len(old), len(new)):
        k = new[i].elems()
        if len(k) != 1 or k[0].tag != "t":
            bad({"C06"}, "sst-new", "new entry %d is %s" % (i, short(canon(new[i]))))
            continue
        t = t_text(k[0])
        if t in plain:
            bad({"C06"}, "sst-duplicate", "new entry %d repeats the text of entry %d: %r" % (i, plain[t], t[:80]))
        plain[t] = i
        if t not in d.texts:
            bad({"C06", "C17", "C20"}, "sst-unwritten", "new entry %d %r was never written" % (i, t[:80]))
    if d.book and d.book.sst_part and book.sst_part != d.book.sst_part and (old or new):
        bad({"C27", "C06"}, "sst-moved", "shared strings are %r, were %r" % (book.sst_part, d.book.sst_part))


def compare_styles(d, book, bad):
    st = book.styles()
    old = d.book.styles() if d.book else None
    if old is not None and old.node is not None:
        if book.style_part != d.book.style_part:
            bad({"C27", "C08"}, "styles-moved", "styles are %r, were %r" % (book.style_part, d.book.style_part))
        for tag, a, b in (("cellXfs", old.xfs, st.xfs), ("cellStyleXfs", old.style_xfs, st.style_xfs)):
            if len(b) < len(a):
                bad({"C08", "C04"}, "styles-lost", "%d %s, had %d" % (len(b), tag, len(a)))
                continue
            for i, x in enumerate(a):
                p, q = old.resolve_xf(x), st.resolve_xf(b[i])
                if p != q:
                    k = [k for k in p if p[k] != q[k]][0]
                    bad({"C08", "C07", "C04"}, "style-changed", "%s %d: %s is %s, was %s" % (tag, i, k, short(q[k]), short(p[k])))
                    break
        for tag in ("cellStyles", "dxfs", "tableStyles", "colors", "extLst"):
            a, b = old.node.first(tag), st.node.first(tag) if st.node is not None else None
            ca = canon(a) if a is not None else None
            cb = canon(b) if b is not None else None
            if ca != cb:
                bad({"C08", "C14"}, "styles-" + tag, "%s: %s" % (tag, "lost" if cb is None else "appeared" if ca is None else diff_canon(ca, cb)))
        for i, code in old.numfmts.items():
            if st.numfmts.get(i) != code:
                bad({"C08", "C07"}, "numfmt-changed", "number format %s is %r, was %r" % (i, st.numfmts.get(i), code))
        if canon_attrs(old.node) != canon_attrs(st.node):
            bad({"C14", "C08"}, "styles-attrs", "attributes of styleSheet changed")
    prior = getattr(d.pkg, "style_ids", {})
    ids = {}
    for sid, setting in d.styles:
        exp = style_expected(setting)
        key = repr(sorted(exp.items()))
        if not (isinstance(sid, int) and 0 <= sid < len(st.xfs)):
            bad({"C07"}, "style-id", "style id %r of %d formats" % (sid, len(st.xfs)))
            continue
        try:
            act, extra = style_actual(st, sid)
        except (IndexError, ValueError, AttributeError, KeyError) as ex:
            bad({"C07", "C01"}, "style-dangling", "format %d cannot be resolved: %r" % (sid, ex))
            continue
        diff = style_match(exp, act) + extra
        if diff:
            bad({"C07", "C28"}, "style-wrong", "style id %d: %s" % (sid, "; ".join(diff)[:500]))
        if prior.get(key, sid) != sid:
            bad({"C07"}, "style-again", "settings saved as format %d by this library got id %d in the file read back" % (prior[key], sid))
        if key in ids and ids[key] != sid:
            bad({"C07"}, "style-split", "equal settings got ids %d and %d" % (ids[key], sid))
        ids[key] = sid
    rev = {}
    for key, sid in ids.items():
        if sid in rev and rev[sid] != key:
            bad({"C07"}, "style-merged", "different settings share id %d" % sid)
        rev[sid] = key
    book.pkg.style_ids = dict(prior, **ids)
    nold = len(old.xfs) if old is not None else 1
    if len(st.xfs) > nold + len(d.styles) and old is not None and old.node is not None:
        bad({"C07", "C19"}, "styles-grow", "%d formats for %d existing and %d requested" % (len(st.xfs), nold, len(d.styles)))


def compare_chain(d, book, bad):
    old = d.book.calc_chain() if d.book else None
    new = book.calc_chain()
    if not old:
        if new:
            for r, i, _ in new:
                if not chain_ok(d, book, r, i):
                    bad({"C23", "C01"}, "chain-stale", "calcChain entry %s of sheet id %s has no formula" % (r, i))
        return
    by_id = {}
    for s in d.sheets:
        if s.rec:
            by_id[s.rec["id"]] = s
    exp, opt = [], set()
    for r, i, rest in old:
        s = by_id.get(i)
        if s is None and any(x.rec and x.rec["id"] == i for x in d.deleted):
            continue
        if s is not None:
            e = s.cells.get(parse_ref(r))
            if e is not None:
                if e.formula is not None:
                    opt.add((r, i))
                continue
        exp.append((r, i, rest))
    got = [x for x in (new or []) if (x[0], x[1]) not in opt]
    new_formulas = set()
    for s, g in zip(d.sheets, book.sheets):
        for k, e in s.cells.items():
            if e.formula is not None:
                new_formulas.add((ref(*k), g["id"]))
    got = [x for x in got if (x[0], x[1]) not in new_formulas]
    if got != exp:
        lost = [x for x in exp if x not in got]
        extra = [x for x in got if x not in exp]
        if lost:
            bad({"C23", "C04", "C03"}, "chain-lost", "calcChain lost %r" % lost[:4])
        elif extra:
            bad({"C23", "C04", "C03"}, "chain-stale", "calcChain has %r" % extra[:4])
        else:
            bad({"C04", "C14"}, "chain-order", "calcChain order changed")


def chain_ok(d, book, r, i):
    for s in book.sheets:
        if s["id"] == i and s["type"] == "worksheet" and s["part"]:
            c = book.sheet(s["part"]).cells.get(parse_ref(r))
            return c is not None and c.f is not None
    return False


# ---- worksheet

def child_order(old, new, order, multi):
    """Children in both files follow each other as before (judged where the source had them in the schema's order)."""
    if any(pkgcheck.order_problems(old, order, multi, "")):
        return None
    a, b = [(k.ns, k.tag) for k in old.elems()], [(k.ns, k.tag) for k in new.elems()]
    x, y = [t for t in a if t in b], [t for t in b if t in a]
    if len([t for t in a if t[1] == "cols"]) > 1:
        # several <cols> mean the same as one; what stood next to them may stand on either side of it
        x, y = ([t for t in ts if t[1] in order] for ts in (x, y))
        x, y = ([t for i, t in enumerate(ts) if i == 0 or t != ts[i - 1] or t[1] != "cols"] for ts in (x, y))
    return diff_list([t for _, t in x], [t for _, t in y]) if x != y else None


def compare_sheet(d, s, g, bad, shared):
    src = s.src
    where = "sheet %r" % s.name
    if src is not None:
        if canon_attrs(src.node) != canon_attrs(g.node):
            bad({"C04", "C14"}, "worksheet-attrs", "%s: attributes %s instead of %s" % (where, short(canon_attrs(g.node)), short(canon_attrs(src.node))))
        a, b = src.others(), g.others()
        if a != b:
            for x, y in zip(a, b):
                if x != y:
                    bad({"C04", "C14"}, "worksheet-content", "%s: %s" % (where, diff_canon(x, y)))
                    break
            else:
                bad({"C04", "C14"}, "worksheet-content", "%s: %s" % (where, diff_list(a, b)))
        p = child_order(src.node, g.node, pkgcheck.WS_ORDER, pkgcheck.WS_MULTI)
        if p:
            bad({"C04", "C13", "C14"}, "worksheet-order", "%s: children in another order: %s" % (where, p))
    # cells
    keys = set(s.cells) | set(g.cells) | (set(src.cells) if src else set())
    n = 0
    for k in sorted(keys):
        e = s.cells.get(k)
        c = g.cells.get(k)
        if e is not None:
            p = cell_problem(e, c)
            if p:
                bad(p[0], "cell", "%s %s: %s" % (where, ref(*k), p[1]))
                n += 1
            elif c is not None and c.t == "s" and e.kind in ("s", "text"):
                shared.setdefault(e.value, set()).add(c.v)
        else:
            o = src.cells.get(k) if src else None
            if o is None:
                bad({"C03", "C15", "C25", "C20", "C17", "C04"}, "cell-extra", "%s %s: %r appeared" % (where, ref(*k), c))
                n += 1
            elif c is None:
                bad({"C04", "C03", "C02", "C25"}, "cell-lost", "%s %s: %r is missing" % (where, ref(*k), o))
                n += 1
            elif o.canon != c.canon:
                bad({"C04", "C03", "C02", "C14"}, "cell-changed", "%s %s: %s" % (where, ref(*k), diff_canon(o.canon, c.canon)))
                n += 1
        if n > 4:
            break
    # rows
    for r in sorted(set(s.rows) | set(g.rows) | (set(src.rows) if src else set())):
        base = dict(src.rows.get(r, {})) if src else {}
        if r in s.rows:
            for k in ROW_PROP_ATTRS:
                base.pop(("", k), None)
            for k, v in s.rows[r].items():
                base[("", k)] = v
        e, a = norm_row(base), norm_row(g.rows.get(r, {}))
        if r in s.rows:
            same_f32(e, a, "ht")
        if e != a:
            bad({"C12", "C04"} if r not in s.rows else {"C12"}, "row", "%s row %d: %r, expected %r" % (where, r, pretty(a), pretty(e)))
            break
    if src is not None:
        for r in sorted(set(src.row_rest) | set(g.row_rest)):
            a, b = src.row_rest.get(r), g.row_rest.get(r)
            if a != b:
                bad({"C04", "C14", "C12"}, "row-content", "%s row %d: %s instead of %s" % (where, r, short(b), short(a)))
                break
        if list(src.data_rest[0]) != list(g.data_rest[0]) or src.data_rest[1] and src.data_rest[1] != g.data_rest[1]:
            bad({"C04", "C14"}, "sheetdata-content", "%s: sheetData has %s instead of %s" % (where, short(g.data_rest), short(src.data_rest)))
    # columns
    def effective(cols, over):
        pts = {1, MAXC + 1}
        for mn, mx, _ in cols:
            pts |= {mn, mx + 1}
        for c in over:
            pts |= {c, c + 1}
        return pts

    def at(cols, c):
        for mn, mx, a in cols:
            if mn <= c <= mx:
                return norm_col(a)
        return None
    sc = src.cols if src else []
    pts = effective(sc, s.cols) | effective(g.cols, ())
    for c in sorted(p for p in pts if p <= MAXC):
        if c in s.cols:
            e = s.cols[c]
            e = norm_col({("", k): v for k, v in e.items()}) if e is not None else None
        else:
            e = at(sc, c)
        a = at(g.cols, c)
        if c in s.cols and e and a:
            same_f32(e, a, "width")
        if (e or None) != (a or None):
            bad({"C11", "C04"} if c not in s.cols else {"C11", "C25"} if e and not a else {"C11"}, "column", "%s column %d: %r, expected %r" % (where, c, pretty(a or {}), pretty(e or {})))
            break
    if s.touched:
        p = pkgcheck.dimension_problem(g)
        if p:
            bad({"C13"}, "dimension", "%s: %s" % (where, p))
