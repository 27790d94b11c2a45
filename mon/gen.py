"""Seeded generators of API histories. They steer towards interesting states with a rough shadow of the documents;
whether a call must succeed is decided by the model alone, so a wrong guess here only costs coverage."""
import os
import fixtures
from pkg import Package, Book, XmlError, col_name, ref

TEXTS = fixtures.TEXTS + [
    "a", "a ", " a", "  ", "\t", "\n", "\r", "\r\n", "\n\n x", "0", "1", "-1", "+7", ".5", "5.", "1e400", "nan", "NaN", "inf", "Infinity", "0x10",
    "1 ", " 1", "1_000", "1,5", "٣", "１", "true", "false", "True", "FALSE", "TRUE", "-0", "1E+05", "1e-320", "123456789012345678901234567890",
    "'quoted", "_x000D_y"[:2] + "y", "&", "&amp;", "&#10;", "<", ">", "<![CDATA[x]]>", "]]>", "<!-- c -->", "<?pi?>", "\"", "'", "é" * 40, "\U0001F469\u200d\U0001F4BB",
    "\ufeffbom", "\u200b", "\u3000", "\u0085", "\u2028x", "\ufffd", "\U0010ffff", "\ue000", "\u007f", "\u0080", "=SUM(A1)", "#N/A", "#DIV/0!", "2024-01-01", "12:30", "50%", "$5", "x\ty\nz", "é" * 450, "a" + "日本" * 400, "\U0001F600" * 300]
BAD_TEXTS = ["\u0000", "a\u0001", "\u0008", "\u000b", "\u000c", "\u001f", "x\ufffe", "\uffff", "tail\u0002"]
NUMBERS = ["0", "1", "-1", "3.14159", "1e5", "1E-7", "-0.5", ".5", "5.", "+7", "00012", "1e308", "123456789012345678", "0.1", "2.2250738585072014E-308", "-0", "4503599627370497.5", "100", "65536", "0." + "1234567890" * 6, "9" * 45, "0" * 300 + "7", "1" * 280 + "." + "0" * 200 + "e-3"]
NOT_NUMBERS = ["abc", "", "nan", "inf", "1e400", "0x10", " 1", "1 ", "1,5", "1_0", "--1", "1e", "e5", ".", "+", "٣", "1" * 400 + "x", "1" * 300 + "." + "5" * 300 + " ", "12" * 150 + "é" * 200]
BOOLS = ["true", "false", "1", "0", "True", "FALSE", "yes", "", "TRUE", "no"]
FORMULAS = ["SUM(A1:B2)", "A1+B1", "\"a\"&B2", "IF(A1<5,\"<\",\">\")", "'My Sheet'!A1", "", " A1 ", "1", "=A1", "=SUM(B1:B2)", "NOW()", "A1\n+2", "LEN(\"x  y\")"]
TYPES = ["Auto", "Auto", "Auto", "Number", "Boolean", "String", "ShareString", "InlineString", "Error"]
BAD_REFS = ["", "A", "1", "A0", "A00", "XFE1", "ZZZ1", "A1048577", "AAAA1", "A-1", "A1:B2", "$A$1", "A 1", "Ａ1", "é1", "A1.5", "A99999999999", "R1C1", "Sheet1!A1",
            " A1", "A1 ", "A१", "1A", "A1B", "a", "AA", "XFD1048577", "XFE1048576", "A4294967297", "A18446744073709551617", "FXSHRXX1", "\u0000A1", "A1\n", "@1", "[1", "`1", "A+1", "AB+12", "A-0", "+A1", "A+0001", "A1+", "XFD+1048576"]
BAD_COLS = ["", "XFE", "AAAA", "ZZZ", "1", "é", "A B", "$A", "A:B", " A", "-", "FXSHRXX", "A0", "XFE1", "A1048577"]
NAMES = ["Data", "data", "Sheet1", "sheet1", "sheet2", "Sheet2", "My Sheet", "Ünï", "ünï", "日本", "A&B", "x<y>", "it's", "Last", "sheet10", "Tab \"q\"", "  sp  ", "R1C1", "Sheet7", "Sum 2024", "a", "b", "c"]
BORDERS = ["None", "Thin", "Thick", "Dotted", "Double", "Dashed", "DashDot", "DashDotDot", "Medium", "MediumDashed", "MediumDashDot", "MediumDashDotDot", "SlantDashDot", "Hair"]
SIDES = ["left", "right", "top", "bottom", "diagonal"]


def numfmts():
    import model
    return list(model.NUMFMT) + ["Custom"]


def color(rng):
    k = rng.randrange(3)
    return [["Indexed", str(rng.choice([0, 8, 10, 64]))], ["Theme", str(rng.choice([0, 1, 4, 9]))], ["Rgb", rng.choice(["FFFF0000", "FF00FF00", "80123456", "FF0000FF"])]][k]


def style(rng, rich=0.5):
    st = {}

    def maybe(p=None):
        return rng.random() < (rich if p is None else p)
    if maybe():
        st["number_format"] = rng.choice(numfmts())
        if st["number_format"] == "Custom":
            st["custom_number_format"] = rng.choice(["0.000", "#,##0.0", "yyyy-mm-dd", "YYYY-MM-DD", "0.00E+00", "0.00e+00", "[red]0", "[Red]0", " 0.000", "0.0000", "[Red]0;[Blue]-0", '0" <&> "', "General", '"it\'s" 0', "@", '0 "Kg"', '0 "kg"', '0 "kg" ', "\\k0", "0%", "0.00%", "m/d/yyyy"])
        elif maybe(0.1):
            st["custom_number_format"] = "0.0000"
    for sd in SIDES:
        if maybe(rich * 0.5):
            b = {"style": rng.choice(BORDERS)}
            if maybe(0.6):
                b["color"] = color(rng)
            st["border_" + sd] = b
    if maybe():
        st["font_family"] = rng.choice(["Calibri", "Arial", "Times & Co", "ＭＳ ゴシック", "A <b>"])
    if maybe():
        st["font_size"] = rng.choice([1, 8, 10, 11, 12, 36, 255])
    if maybe():
        st["text_color"] = color(rng)
    for k in ("is_bold", "is_italic", "is_underline", "is_double_underline", "is_wrap_text"):
        if maybe(rich * 0.6):
            st[k] = True
    if maybe(rich * 0.7):
        st["background_color"] = rng.choice(["FFFFFF00", "FF112233", "FF00FF00"])
    if maybe(rich * 0.7):
        st["foreground_color"] = rng.choice(["FFFFFF00", "FF112233", "FF00FF00"])
    if maybe():
        st["horizontal_alignment"] = rng.choice(["None", "LEFT", "CENTER", "RIGHT", "JUSTIFY"])
    if maybe():
        st["vertical_alignment"] = rng.choice(["None", "Top", "Middle", "Bottom"])
    return st


def bad_style(rng):
    st = style(rng)
    bad = rng.choice(["\u0001", "0\u0002", "\ufffe", "a\u001fb", "\uffff"])
    k = rng.randrange(6)
    if k == 0:
        st["number_format"] = "Custom"
        st.pop("custom_number_format", None)
    elif k == 1:
        st["font_family"] = bad
    elif k == 2:
        st["number_format"], st["custom_number_format"] = "Custom", bad
    elif k == 3:
        st[rng.choice(["background_color", "foreground_color"])] = bad
    elif k == 4:
        st["text_color"] = [rng.choice(["Rgb", "Theme", "Indexed"]), bad]
    else:
        st["border_" + rng.choice(SIDES)] = {"style": rng.choice([b for b in BORDERS if b != "None"]), "color": [rng.choice(["Rgb", "Theme", "Indexed"]), bad]}
    return st


def one_edit(rng, st):
    """A setting differing from st in one facet (or, with luck, none)."""
    st = {k: (dict(v) if isinstance(v, dict) else v) for k, v in st.items()}
    o = style(rng, 0.9)
    texts = [k for k in ("font_family", "custom_number_format") if st.get(k) and (k[0] == "f" or st.get("number_format") == "Custom")]
    if rng.random() < 0.25:
        # one text of it in another spelling only
        k = rng.choice(texts) if texts else "font_family"
        t = st.get(k, "Calibri")
        st[k] = rng.choice([t.swapcase(), t.upper(), t.lower(), t + " ", " " + t, t[:-1], t + "0", t.replace(" ", "  "), t.replace('"', "'"), t[::-1]])
    elif o:
        k = rng.choice(sorted(o))
        st[k] = o[k]
    if st.get("number_format") == "Custom" and "custom_number_format" not in st:
        st["custom_number_format"] = "0.00000"
    return st


W = dict(row=10, style=2, row_props=2, col=2, open=5, close=3, add=2, rename=1, hide=1, active=1, delete=1, view=1, list=1, dup=0.3)
PROFILES = {
    "mix": dict(),
    "cells": dict(w=dict(row=24, style=2, row_props=1, col=0.5, open=5, close=4, add=1.5, rename=0.4, hide=0.2, active=0.2, delete=0.5, view=0.1, list=0.2), gens=(1, 4)),
    "text": dict(w=dict(row=24, style=0.5, open=4, close=3, add=1), gens=(1, 3), hostile=0.9, new=0.6),
    "keep": dict(new=0.0, gens=(1, 2), n=(0, 12), bad=0.02),
    "sst": dict(w=dict(row=20, open=5, close=5, add=2, delete=1), fix=dict(sst=True), texty=True, gens=(1, 4), new=0.3),
    "styles": dict(w=dict(style=20, row=5, row_props=2, col=2, open=3, close=2, add=0.3), gens=(1, 3), n=(10, 40), new=0.3, near=0.7),
    "sheets": dict(w=dict(row=3, add=8, rename=6, hide=4, active=4, delete=4, open=6, close=6, list=5, view=0.5), gens=(1, 4), n=(8, 30), bad=0.18),
    "views": dict(w=dict(view=14, active=4, add=2, delete=1, row=2, open=2, close=2, hide=1), gens=(1, 4), fix=dict(views=True), new=0.3),
    "cols": dict(w=dict(col=20, style=2, row=3, open=4, close=3), gens=(1, 3), fix=dict(features=None), new=0.35, colsy=True),
    "rows": dict(w=dict(row_props=16, row=9, style=2, open=4, close=3), gens=(1, 3), new=0.35),
    "refs": dict(w=dict(row=22, col=5, open=3, close=2, row_props=2), bad=0.35, edge=0.5, gens=(1, 2), n=(8, 30), new=0.6),
    "bad": dict(bad=0.5, gens=(1, 3), n=(8, 30)),
    "delete": dict(w=dict(delete=7, add=4, row=6, open=6, close=5, rename=1, active=2, hide=1, style=1, list=1), gens=(1, 3), new=0.15, fix=dict(chain=True), min_sheets=3),
    "handles": dict(w=dict(row=14, open=10, close=8, dup=4, add=3, delete=1, list=1), gens=(1, 3), bad=0.2, handlesy=True, n=(8, 30)),
    "rels": dict(w=dict(row=5, add=4, delete=3, open=5, close=4, style=1), new=0.05, gens=(1, 3)),
    "xml": dict(respell=1.0, new=0.0, gens=(1, 2), n=(0, 14), bad=0.02),
    "light": dict(gens=(1, 2), n=(0, 10), bad=0.02, new=0.3),
}


class SheetS:
    def __init__(self, name, chart=False):
        self.name, self.chart, self.h = name, chart, None
        self.avoid, self.hot = set(), set()


def generic(n):
    """A name the library could give a new sheet by itself."""
    return n.lower().startswith("sheet") and n[5:].isdigit()


class Hist:
    def __init__(self, rng, batch, cid, prof, doc="d"):
        self.rng, self.batch, self.cid, self.doc = rng, batch, cid, doc
        self.p = dict(w=W, new=0.35, fix={}, layout="any", gens=(1, 3), n=(4, 22), bad=0.08, inplace=0.15, hostile=0.4, edge=0.12, drop=0.02, respell=0.1, near=0.15)
        self.p.update(PROFILES[prof] if isinstance(prof, str) else prof)
        self.ops, self.files, self.outs = [], [], []
        self.nh = self.ns = self.nf = 0
        self.styles = []
        self.settings = []
        self.sheets = []

    def op(self, kind_, **k):
        k["op"] = kind_
        if self.doc != "d" and kind_ not in ("note", "fds", "heap", "copy", "remove", "ls", "mkdir"):
            k["doc"] = self.doc
        self.ops.append(k)
        return k

    # -------------------------------------------------- sources
    def fixture(self):
        rng = self.rng
        o = self.p["fix"](rng) if callable(self.p["fix"]) else dict(self.p["fix"])
        o = {k: v for k, v in o.items() if v is not None or k == "features"}
        if o.get("features", 1) is None:
            o.pop("features")
        if self.p.get("min_sheets"):
            o.setdefault("sheets", rng.randrange(self.p["min_sheets"], self.p["min_sheets"] + 4))
        if self.p["layout"] == "any":
            o.setdefault("names", rng.choice([None] * 4 + fixtures.NAMES))
            o.setdefault("pfx", rng.choice(["", "", "", "x:", "main:"]))
            o.setdefault("omit_refs", rng.random() < 0.15)
        if rng.random() < self.p["near"]:
            o["near"] = [style(rng, rng.choice([0.15, 0.5, 0.9])) for _ in range(rng.randrange(1, 4))]
            self.settings += o["near"]
            o.setdefault("styles", True)
        pk, meta = fixtures.workbook(rng, o)
        name = "%s_%s%d.xlsx" % (self.cid, self.doc, self.nf)
        self.nf += 1
        lay = fixtures.layout(rng) if self.p["layout"] == "any" else {}
        if rng.random() < self.p["respell"]:
            lay = dict(lay, respell=True)
            lay.pop("bom", None)
        pk.write(self.batch.path(name), lay)
        self.files.append(name)
        self.sheets = []
        for i, n in enumerate(meta["sheet_names"]):
            f = meta["facts"][i]
            s = SheetS(n, f is None)
            if f:
                s.avoid = {(r, c) for r, c, _ in f["shared"]}
            self.sheets.append(s)
        try:
            book = Book(Package(self.batch.path(name)))
            for s, g in zip(self.sheets, book.sheets):
                if not s.chart and g["part"]:
                    sh = book.sheet(g["part"])
                    s.hot = set(sh.cells) | {(r, 1) for r in sh.rows}
                    s.cols = sh.cols
        except XmlError:
            pass
        return name

    def start(self, path=None, first=False):
        self.op("open", path=path)
        self.handles = []
        if path is None:
            self.sheets = [SheetS(None)]   # its name is the library's choice
            self.op("list")
        else:
            for s in self.sheets:
                s.h = None
        self.styles = []

    # -------------------------------------------------- one call
    def pick_sheet(self, f):
        c = [s for s in self.sheets if f(s)]
        return self.rng.choice(c) if c else None

    def handle(self):
        self.nh += 1
        return "%sh%d" % (self.doc, self.nh)

    def need_open(self):
        s = self.pick_sheet(lambda s: s.h)
        if s is None or self.rng.random() < 0.15:
            t = self.pick_sheet(lambda s: not s.h and not s.chart)
            if t is not None:
                self.do_open(t)
                s = t
        return s

    def nm(self, s):
        return s.name if s.name is not None else {"nth": self.sheets.index(s)}

    def do_open(self, s):
        h = self.handle()
        self.op("get_sheet", name=self.nm(s), h=h)
        s.h = h

    def close(self, s):
        self.op("close", h=s.h)
        s.h = None

    def coord(self, s):
        rng = self.rng
        k = rng.random()
        if k < self.p["edge"]:
            return rng.choice([1, 2, 1048575, 1048576, 1048576, 65536, 65537, 32768]), rng.choice([1, 26, 27, 52, 53, 256, 257, 702, 703, 704, 728, 729, 1378, 16383, 16384, 676, 677])
        if k < 0.55 and s.hot:
            r, c = rng.choice(sorted(s.hot))
            r += rng.choice([0, 0, 0, 1, -1])
            c += rng.choice([0, 0, 0, 1, -1, -2])
            return min(max(r, 1), 1048576), min(max(c, 1), 16384)
        return rng.randrange(1, 10), rng.randrange(1, 8)

    def cell(self, bad=False):
        rng = self.rng
        t = rng.choice(TYPES) if not self.p.get("texty") else rng.choice(["Auto", "ShareString", "Auto", "ShareString", "String"])
        c = {}
        if bad:
            if rng.random() < 0.5:
                return {"t": "Number", "v": rng.choice([x for x in NOT_NUMBERS if x != ""])}
            return {"t": rng.choice(["Auto", "String", "ShareString", "InlineString", "Error"]), "v": rng.choice(BAD_TEXTS)} if rng.random() < 0.8 else {"f": "A1&\"\u0001\"", "v": "1"}
        if t != "Auto" or rng.random() < 0.3:
            c["t"] = t
        if t == "Number":
            c["v"] = rng.choice(NUMBERS)
        elif t == "Boolean":
            c["v"] = rng.choice(BOOLS)
        elif t == "Error":
            c["v"] = rng.choice(["#N/A", "#DIV/0!", "#REF!", "#VALUE!", "#NAME?", "#NUM!", "#NULL!"])
        elif t == "Auto" and rng.random() < 0.35:
            c["v"] = rng.choice(NUMBERS + NOT_NUMBERS + BOOLS)
        else:
            c["v"] = rng.choice(TEXTS) if rng.random() < self.p["hostile"] else rng.choice(["alpha", "beta", "gamma", "x%d" % rng.randrange(20)])
        if rng.random() < 0.06:
            c.pop("v")
        if rng.random() < 0.12:
            c["f"] = rng.choice(FORMULAS)
            if c["f"] == "" and rng.random() < 0.9:
                c["f"] = "A1"
        if self.styles and rng.random() < 0.35:
            c["s"] = rng.choice(self.styles)
        return c

    def do_row(self, bad=False):
        rng = self.rng
        s = self.need_open()
        if s is None:
            return
        for _ in range(8):
            r, c = self.coord(s)
            n = rng.choice([0, 1, 1, 2, 3, 5, 8])
            n = min(n, 16385 - c)
            if not any((r, c + i) in s.avoid for i in range(n)):
                break
        else:
            return
        cells = [self.cell() for _ in range(n)]
        by_ref = rng.random() < 0.5
        if bad:
            k = rng.randrange(4)
            if k == 0:
                return self.op("row_ref", h=s.h, ref=rng.choice(BAD_REFS), cells=cells or [self.cell()])
            if k == 1:
                r, c = rng.choice([(0, 1), (1, 0), (1048577, 1), (1, 16385), (4294967295, 65535), (4294967295, 1), (0, 0), (1, 65535), (2097152, 3), (1048577, 16384)])
                return self.op("row_idx", h=s.h, row=r, col=c, cells=cells)
            if k == 2:
                c = rng.choice([16384, 16383, 16380])
                m = 16385 - c + rng.choice([1, 1, 2, 5])
                cells = [self.cell() for _ in range(m)]
                return self.op("row_ref", h=s.h, ref=ref(r, c), cells=cells) if by_ref else self.op("row_idx", h=s.h, row=r, col=c, cells=cells)
            n = max(n, 1)
            c = min(c, 16384 - n)
            cells = [self.cell() for _ in range(n)]
            cells.insert(rng.randrange(len(cells) + 1), self.cell(True))
            cells = cells[:max(1, 16385 - c)]
        if by_ref:
            t = ref(r, c)
            t = t.lower() if rng.random() < 0.15 else "".join(rng.choice([x.lower(), x]) for x in t) if rng.random() < 0.1 else t
            self.op("row_ref", h=s.h, ref=t, cells=cells)
        else:
            self.op("row_idx", h=s.h, row=r, col=c, cells=cells)
        if not bad:
            for i in range(len(cells)):
                s.hot.add((r, c + i))

    def do_row_props(self, bad=False):
        rng = self.rng
        s = self.need_open()
        if s is None:
            return
        r = self.coord(s)[0]
        p = {}
        if rng.random() < 0.5:
            p["height"] = rng.choice([0, 15, 22.5, 409.5, 1.1, 0.1, 100, 15.123456, 20.015625, 0.0009765625, 12.75, 33.333332])
        for k in ("hidden", "thick_top", "thick_bottom"):
            if rng.random() < 0.35:
                p[k] = rng.random() < 0.7
        if self.styles and rng.random() < 0.4:
            p["style"] = rng.choice(self.styles)
        if bad:
            if rng.random() < 0.6:
                r = rng.choice([0, 1048577, 4294967295, 2097152])
            else:
                p["height"] = rng.choice([-1, -0.001, 1e39])
        else:
            s.hot.add((r, 1))
        self.op("row_props", h=s.h, row=r, p=p)

    def do_col(self, bad=False):
        rng = self.rng
        s = self.need_open()
        if s is None:
            return
        c = rng.choice([1, 2, 3, 4, 5, 6, 16383, 16384, 26, 27, 702, 703, rng.randrange(1, 12)])
        cols = getattr(s, "cols", None)
        if cols and rng.random() < 0.6:
            mn, mx, _ = rng.choice(cols)
            c = rng.choice([mn, mx, mn - 1, mx + 1, (mn + mx) // 2])
            c = min(max(c, 1), 16384)
        p = None
        if rng.random() < 0.85:
            p = {}
            if rng.random() < 0.7:
                p["width"] = rng.choice([0, 8.43, 12.5, 255, 1.1, 33.333, 9.140625, 11.42578125, 45.123455, 0.001953125])
            for k in ("hidden", "best_fit"):
                if rng.random() < 0.35:
                    p[k] = rng.random() < 0.7
            if self.styles and rng.random() < 0.35:
                p["style"] = rng.choice(self.styles)
        by_ref = rng.random() < 0.5
        if bad:
            k = rng.randrange(3)
            if k == 0:
                return self.op("col_ref", h=s.h, ref=rng.choice(BAD_COLS), p=p)
            if k == 1:
                return self.op("col_idx", h=s.h, col=rng.choice([0, 16385, 65535, 32768]), p=p)
            p = {"width": rng.choice([-1, -0.5, 1e39])}
        if by_ref:
            t = col_name(c)
            if rng.random() < 0.2:
                t = t.lower()
            elif rng.random() < 0.2:
                t += "1"
            self.op("col_ref", h=s.h, ref=t, p=p)
        else:
            self.op("col_idx", h=s.h, col=c, p=p)

    def do_style(self, bad=False):
        rng = self.rng
        self.ns += 1
        i = "%ss%d" % (self.doc, self.ns)
        if bad:
            return self.op("style", id=i, style=bad_style(rng))
        k = rng.random()
        if self.settings and k < 0.25:
            st = rng.choice(self.settings)
        elif self.settings and k < 0.6:
            st = one_edit(rng, rng.choice(self.settings))
        else:
            st = style(rng, rng.choice([0.15, 0.5, 0.9]))
        self.settings.append(st)
        self.op("style", id=i, style=st)
        self.styles.append(i)

    def do_open_(self, bad=False):
        rng = self.rng
        if bad:
            s = self.pick_sheet(lambda s: s.h or s.chart)
            if s is not None and rng.random() < 0.6:
                return self.op("get_sheet", name=self.nm(s), h=self.handle())
            return self.op("get_sheet", name=rng.choice(["nope", "", "sheet 1", " Data", "missing\u0001", "Sheet99"]), h=self.handle())
        s = self.pick_sheet(lambda s: not s.h and not s.chart)
        if s:
            self.do_open(s)

    def do_dup(self, bad=False):
        s = self.pick_sheet(lambda s: s.h)
        if s is None:
            return
        if self.rng.random() < 0.5:
            return self.op("get_sheet", name=self.nm(s), h=self.handle())
        # close and re-open under the same key
        h = s.h
        self.close(s)
        self.op("get_sheet", name=self.nm(s), h=h)
        s.h = h

    def do_close(self, bad=False):
        s = self.pick_sheet(lambda s: s.h)
        if s:
            self.close(s)

    def fresh_name(self):
        used = {s.name.lower() for s in self.sheets if s.name is not None}
        unsure = any(s.name is None for s in self.sheets)
        c = [n for n in NAMES if n.lower() not in used and not (unsure and generic(n))]
        return self.rng.choice(c) if c else "n%d" % self.rng.randrange(10 ** 6)

    def do_add(self, bad=False):
        rng = self.rng
        if len(self.sheets) > 14 and not bad:
            return
        h = self.handle()
        if bad:
            s = self.pick_sheet(lambda s: s.name is not None)
            n = rng.choice([s.name, s.name.upper(), s.name.lower(), s.name.title()]) if s is not None and rng.random() < 0.8 else "bad\u0001"
            if n.lower() != n and s is not None and n != s.name and n.lower() != s.name.lower():
                n = s.name
            return self.op("add_sheet", name=n, h=h)
        n = None if rng.random() < 0.3 and not self.p.get("named") else self.fresh_name()
        self.op("add_sheet", name=n, h=h)
        if n is None and rng.random() < 0.5:
            self.op("list")
        s = SheetS(n)
        s.h = h
        self.sheets.append(s)
        if rng.random() < 0.3:
            self.close(s)

    def do_rename(self, bad=False):
        rng = self.rng
        if not self.sheets:
            return
        s = rng.choice(self.sheets)
        if bad:
            o = rng.choice(self.sheets)
            if rng.random() < 0.3:
                return self.op("rename", old=self.nm(s), new=rng.choice(["n", "Data", (s.name or "q")]) + rng.choice(BAD_TEXTS))
            if rng.random() < 0.4 or o is s:
                return self.op("rename", old=rng.choice(["nope", "", "Sheet99", (s.name or "") + "x"]), new=self.fresh_name())
            if o.name is None:
                return self.op("rename", old=self.nm(s), new=self.nm(o))
            return self.op("rename", old=self.nm(s), new=rng.choice([o.name, o.name.lower(), o.name.upper()]) if o.name.isascii() else o.name)
        n = self.fresh_name()
        if rng.random() < 0.12 and s.name is not None and s.name.isascii() and s.name.swapcase() != s.name:
            n = s.name.swapcase()   # only the case changes
        self.op("rename", old=self.nm(s), new=n)
        s.name = n

    def do_hide(self, bad=False):
        if bad or not self.sheets:
            return self.op("hide", name=self.rng.choice(["nope", "", "Sheet99"]))
        self.op("hide", name=self.nm(self.rng.choice(self.sheets)))

    def do_active(self, bad=False):
        if bad or not self.sheets:
            return self.op("active", name=self.rng.choice(["nope", "", "Sheet99"]))
        self.op("active", name=self.nm(self.rng.choice(self.sheets)))

    def do_delete(self, bad=False):
        if len(self.sheets) < 2:
            return
        s = self.pick_sheet(lambda s: s.h)
        if s is None or self.rng.random() < 0.5:
            s = self.pick_sheet(lambda s: not s.chart)
            if s is None:
                return
            if not s.h:
                self.do_open(s)
        self.op("delete_sheet", h=s.h)
        self.sheets.remove(s)

    def do_view(self, bad=False):
        self.op(self.rng.choice(["visibility", "minimize", "hide_tabs", "hide_vscroll", "hide_hscroll"]), on=self.rng.random() < 0.5)

    def do_list(self, bad=False):
        self.op("list")

    def step(self):
        rng = self.rng
        w = self.p["w"]
        k = rng.choices(list(w), list(w.values()))[0]
        bad = rng.random() < self.p["bad"]
        getattr(self, {"open": "do_open_"}.get(k, "do_" + k))(bad)

    # -------------------------------------------------- whole case
    def finish(self, last):
        """Close and save (or drop); returns the path to go on with, or None."""
        rng = self.rng
        order = [s for s in self.sheets if s.h]
        rng.shuffle(order)
        leak = self.p["bad"] and order and rng.random() < self.p["bad"] * 0.4
        if not leak:
            for s in order:
                self.close(s)
        if rng.random() < self.p["drop"]:
            self.op("drop_doc")
            return None
        out = "%s_%so%d.xlsx" % (self.cid, self.doc, len(self.outs))
        if leak:
            out = "%s_%sleak%d.xlsx" % (self.cid, self.doc, self.nh)
            self.op("save", path=out)
            for s in order:   # a handle that outlives its document: harmless
                if rng.random() < 0.5:
                    self.op("row_ref", h=s.h, ref="A1", cells=[{"v": "late"}])
                self.close(s)
            return None
        self.outs.append(out)
        if self.inplace:
            # over the file it was opened from
            self.op("save", path=self.cur, snap=out)
            self.op("copy", **{"from": self.cur, "to": out, "alias": [self.cur, out]})
            return out
        self.op("save", path=out)
        return out

    def run(self):
        rng = self.rng
        self.cur, self.inplace = None, False
        if rng.random() >= self.p["new"]:
            self.work(self.fixture(), 0)
        self.start(self.cur)
        for g in range(rng.randint(*self.p["gens"])):
            if g:
                if self.cur is None:
                    break
                self.work(self.cur, g)
                self.start(self.cur)
            for _ in range(rng.randint(*self.p["n"])):
                self.step()
            self.cur = self.finish(False)
        return self.case()

    def work(self, src, g):
        """Some generations work on a copy, so that saving over it leaves the source readable for the monitor."""
        self.cur = src
        self.inplace = self.rng.random() < self.p["inplace"]
        if self.inplace:
            self.cur = "%s_%sw%d.xlsx" % (self.cid, self.doc, g)
            self.op("copy", **{"from": src, "to": self.cur, "alias": [self.cur, src]})

    def case(self):
        return {"id": self.cid, "ops": self.ops, "files": list(self.files)}


def history(rng, batch, cid, prof):
    return Hist(rng, batch, cid, prof).run()


def office_history(rng, batch, cid, respell=0.3):
    """Word or PowerPoint: open, save, re-open, save."""
    kind = rng.choice(["word", "ppt"])
    ext = "docx" if kind == "word" else "pptx"
    ops, files = [], []
    if rng.random() < 0.85:
        pk = fixtures.office(rng, kind)
        src = "%s_src.%s" % (cid, ext)
        lay = fixtures.layout(rng)
        if rng.random() < respell:
            lay = dict(lay, respell=True)
            lay.pop("bom", None)
        pk.write(batch.path(src), lay)
        files.append(src)
    else:
        src = None
    cur = src
    for g in range(rng.randint(1, 3)):
        out = "%s_o%d.%s" % (cid, g, ext)
        ops.append(dict(op="open", kind=kind, path=cur))
        ops.append(dict(op="save", path=out))
        cur = out
    return {"id": cid, "ops": ops, "files": files}
