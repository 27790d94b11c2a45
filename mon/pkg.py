"""Independent reader of OPC packages and SpreadsheetML - shares no code with the library.

zipfile + expat only. Everything here reports what is in the file; it decides nothing.
"""
import posixpath, re, zipfile, zlib
from urllib.parse import unquote
from xml.parsers import expat

NS_MAIN = "http://schemas.openxmlformats.org/spreadsheetml/2006/main"
NS_REL = "http://schemas.openxmlformats.org/package/2006/relationships"
NS_CT = "http://schemas.openxmlformats.org/package/2006/content-types"
NS_R = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"
NS_MC = "http://schemas.openxmlformats.org/markup-compatibility/2006"
NS_XML = "http://www.w3.org/XML/1998/namespace"
NS_XSI = "http://www.w3.org/2001/XMLSchema-instance"
NS_CP = "http://schemas.openxmlformats.org/package/2006/metadata/core-properties"
NS_DC = "http://purl.org/dc/elements/1.1/"
NS_DCT = "http://purl.org/dc/terms/"
OD = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"
REL_OFFICE = OD + "officeDocument"
REL_CORE = "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties"
NS_DVMO = "http://schemas.draviavemal.com/openxml-office"


class XmlError(Exception):
    pass


class Node:
    __slots__ = ("ns", "tag", "attrs", "kids", "scope")

    def __init__(self, ns, tag, attrs, scope):
        self.ns, self.tag, self.attrs, self.scope = ns, tag, attrs, scope
        self.kids = []  # Node | str

    def elems(self, tag=None):
        return [k for k in self.kids if isinstance(k, Node) and (tag is None or k.tag == tag)]

    def first(self, tag):
        for k in self.kids:
            if isinstance(k, Node) and k.tag == tag:
                return k
        return None

    def get(self, name, default=None, ns=""):
        return self.attrs.get((ns, name), default)

    def text(self):
        return "".join(k for k in self.kids if isinstance(k, str))

    def __repr__(self):
        return "<%s %s>" % (self.tag, {k[1]: v for k, v in self.attrs.items()})


QNAME_ATTRS = {(NS_MC, "Ignorable"), (NS_MC, "ProcessContent"), (NS_MC, "MustUnderstand"), ("", "Requires"), (NS_XSI, "type")}


def parse_xml(data):
    """Namespace-aware parse. Raises XmlError if not well-formed or a prefix is unbound."""
    p = expat.ParserCreate(namespace_separator="\x01")
    p.namespace_prefixes = True
    p.buffer_text = True
    p.ordered_attributes = True
    root = []
    stack = []
    pending = {}

    def split(name):
        parts = name.split("\x01")
        if len(parts) == 1:
            return "", parts[0]
        return parts[0], parts[1]

    def start_ns(prefix, uri):
        pending[prefix or ""] = uri or ""

    def start(name, attrs):
        nonlocal pending
        ns, tag = split(name)
        scope = stack[-1].scope if stack else {"xml": NS_XML}
        if pending:
            scope = dict(scope)
            scope.update(pending)
            pending = {}
        d = {}
        for i in range(0, len(attrs), 2):
            d[split(attrs[i])] = attrs[i + 1]
        n = Node(ns, tag, d, scope)
        if stack:
            stack[-1].kids.append(n)
        else:
            root.append(n)
        stack.append(n)

    def end(_):
        stack.pop()

    def chars(t):
        if stack:
            k = stack[-1].kids
            if k and isinstance(k[-1], str):
                k[-1] += t
            else:
                k.append(t)

    def doctype(*a):
        raise XmlError("DOCTYPE is not allowed in an OPC part")

    p.StartNamespaceDeclHandler = start_ns
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = chars
    p.StartDoctypeDeclHandler = doctype
    try:
        p.Parse(data, True)
    except expat.ExpatError as ex:
        raise XmlError(str(ex))
    except (ValueError, UnicodeError) as ex:
        raise XmlError(str(ex))
    return root[0]


def canon(n, drop=()):
    """Infoset as nested tuples: names with namespaces, attributes sorted, prefixes resolved in the
    attributes whose values are prefixes, white space between elements dropped."""
    attrs = []
    for (ns, name), v in n.attrs.items():
        if (ns, name) in drop:
            continue
        if (ns, name) in QNAME_ATTRS:
            toks = []
            for tok in v.split():
                if (ns, name) == (NS_XSI, "type") or ":" in tok:
                    pre, _, loc = tok.rpartition(":")
                    toks.append("{%s}%s" % (n.scope.get(pre, "?unbound " + pre if pre else ""), loc))
                else:
                    toks.append("{%s}" % n.scope.get(tok, "?unbound " + tok))
            v = " ".join(sorted(toks))
        attrs.append((ns, name, v))
    attrs.sort()
    has_elem = any(isinstance(k, Node) for k in n.kids)
    kids = []
    for k in n.kids:
        if isinstance(k, Node):
            kids.append(canon(k, drop))
        elif not has_elem or k.strip(" \t\r\n"):
            kids.append(k)
    return (n.ns, n.tag, tuple(attrs), tuple(kids))


class Rel:
    __slots__ = ("id", "type", "target", "mode", "part")

    def __init__(self, id, type, target, mode, part):
        self.id, self.type, self.target, self.mode, self.part = id, type, target, mode, part

    def key(self):
        return (self.id, self.type, self.target, self.mode)

    def __repr__(self):
        return "Rel%r" % (self.key(),)


def rels_name(part):
    d, b = posixpath.split(part)
    return posixpath.join(d, "_rels", b + ".rels")


def rels_owner(name):
    d, b = posixpath.split(name)
    if posixpath.basename(d).lower() != "_rels" or not b.lower().endswith(".rels"):
        return None
    owner = posixpath.join(posixpath.dirname(d), b[:-5])
    return owner


def resolve(base_part, target):
    t = target.split("#")[0].split("?")[0].replace("\\", "/")
    if t.startswith("/"):
        full = posixpath.normpath(t)
    else:
        full = posixpath.normpath("/" + posixpath.join(posixpath.dirname(base_part), t))
    return full.lstrip("/")


class Package:
    def __init__(self, path):
        self.path = path
        self.problems = []  # (code, text) of the container itself
        if hasattr(path, "read"):
            self.raw = path.read()
        else:
            with open(path, "rb") as f:
                self.raw = f.read()
        z = zipfile.ZipFile(path)
        infos = z.infolist()
        self.names = [i.filename for i in infos]
        self.parts = {}
        for i in infos:
            if i.filename.endswith("/"):
                continue
            if i.flag_bits & 1:
                raise zipfile.BadZipFile("encrypted entry")
            self.parts[i.filename] = z.read(i)  # verifies the CRC
        z.close()
        self._xml = {}
        self.lower = {}
        for n in self.parts:
            self.lower.setdefault(n.lower(), n)

    def find(self, name):
        return self.lower.get(name.lower())

    def named(self, name):
        """Part names stay percent-encoded; a package that stores them decoded is understood too."""
        return name if self.find(name) or not self.find(unquote(name)) else unquote(name)

    def xml(self, name):
        if name not in self._xml:
            self._xml[name] = parse_xml(self.parts[name])
        return self._xml[name]

    def content_types(self):
        n = self.xml(self.find("[Content_Types].xml"))
        defaults, overrides = [], []
        for k in n.elems():
            if k.tag == "Default":
                defaults.append((k.get("Extension"), k.get("ContentType")))
            elif k.tag == "Override":
                overrides.append((k.get("PartName"), k.get("ContentType")))
        return defaults, overrides

    def content_type(self, part):
        defaults, overrides = self.content_types()
        for p, ct in overrides:
            if p is not None and p.lstrip("/").lower() == part.lower():
                return ct
        ext = part.rsplit(".", 1)[-1].lower() if "." in part.rsplit("/", 1)[-1] else ""
        for e, ct in defaults:
            if e is not None and e.lower() == ext:
                return ct
        return None

    def rels(self, part):
        """Relationships of a part ('' = package) in file order."""
        name = self.find(rels_name(part) if part else "_rels/.rels")
        if name is None:
            return []
        out = []
        for k in self.xml(name).elems():
            mode = k.get("TargetMode", "Internal")
            t = k.get("Target", "")
            out.append(Rel(k.get("Id"), k.get("Type"), t, mode,
                           None if mode == "External" else self.named(resolve(part, t))))
        return out

    def rel_part(self, part, type_suffix):
        for r in self.rels(part):
            if r.type and r.part is not None and r.type.lower().endswith(type_suffix.lower()) and r.type.lower()[:-len(type_suffix)] in (NS_R.lower(), "http://purl.oclc.org/ooxml/officedocument/relationships"):
                return self.find(r.part) or r.part
        return None

    def main_part(self):
        return self.rel_part("", "/officeDocument")


# --------------------------------------------------------------------------- SpreadsheetML

CELL_RE = re.compile(r"^([A-Za-z]{1,3})([0-9]{1,7})\Z", re.A)


def col_num(letters):
    n = 0
    for c in letters.upper():
        n = n * 26 + ord(c) - 64
    return n


def col_name(n):
    s = ""
    while n:
        n, r = divmod(n - 1, 26)
        s = chr(65 + r) + s
    return s


def ref(row, col):
    return "%s%d" % (col_name(col), row)


def parse_ref(t):
    m = CELL_RE.match(t or "")
    if not m:
        return None
    return int(m.group(2)), col_num(m.group(1))


def truthy(v):
    return v in ("1", "true")


def si_plain(si):
    """Text of a string item: t, or the runs; phonetic text is not part of it."""
    out = []
    for k in si.elems():
        if k.tag == "t":
            out.append(t_text(k))
        elif k.tag == "r":
            for t in k.elems("t"):
                out.append(t_text(t))
    return "".join(out)


def t_text(t):
    """What a reader shows for <t>: outer white space only counts with xml:space=preserve."""
    s = t.text()
    if t.get("space", None, NS_XML) == "preserve":
        return s
    return s.strip(" \t\r\n")


def decode_x(s):
    return re.sub(r"_x([0-9A-Fa-f]{4})_", lambda m: chr(int(m.group(1), 16)), s)


class Cell:
    __slots__ = ("t", "v", "f", "s", "canon", "text", "node")

    def __repr__(self):
        return "Cell(t=%r v=%r f=%r s=%r text=%r)" % (self.t, self.v, self.f, self.s, self.text)


class Sheet:
    """One worksheet part."""

    def __init__(self, book, node, part):
        self.part = part
        self.node = node
        self.rows = {}       # row -> {(ns,name): v} without r / spans
        self.row_order = []
        self.cells = {}      # (row, col) -> Cell
        self.problems = []   # (code, text)
        self.cols = []       # (min, max, attrs)
        self.spans = {}
        self.row_rest = {}   # row -> canonical children that are no cells
        sd = node.first("sheetData")
        self.data_rest = ([canon(k) for k in sd.elems() if k.tag != "row"], canon(sd)[2]) if sd is not None else ([], ())
        row = 0
        for r in (sd.elems("row") if sd is not None else []):
            try:
                row = int(r.get("r")) if r.get("r") is not None else row + 1
            except ValueError:
                self.problems.append(("row", "row number %r" % r.get("r")))
                continue
            if not 1 <= row <= 1048576:
                self.problems.append(("row", "row %d beyond the sheet" % row))
            if self.row_order and row <= self.row_order[-1]:
                self.problems.append(("order", "row %d after row %d" % (row, self.row_order[-1])))
            self.row_order.append(row)
            attrs = dict(r.attrs)
            attrs.pop(("", "r"), None)
            sp = attrs.pop(("", "spans"), None)
            if sp:
                self.spans[row] = sp
            self.rows[row] = attrs
            rest = [canon(k) for k in r.elems() if k.tag != "c"]
            if rest:
                self.row_rest[row] = rest
            col = 0
            last = 0
            for c in r.elems("c"):
                rr = c.get("r")
                if rr is None:
                    col += 1
                else:
                    pr = parse_ref(rr)
                    if pr is None:
                        self.problems.append(("ref", "cell reference %r" % rr))
                        continue
                    if pr[0] != row:
                        self.problems.append(("ref", "cell %s in row %d" % (rr, row)))
                    col = pr[1]
                if not 1 <= col <= 16384:
                    self.problems.append(("ref", "column %d beyond the sheet" % col))
                if col <= last:
                    self.problems.append(("order", "cell %s%d after column %d" % (col_name(col), row, last)))
                last = col
                x = Cell()
                x.node = c
                x.t = c.get("t", "n")
                x.s = c.get("s", "0")
                vn, fn, isn = c.first("v"), c.first("f"), c.first("is")
                x.v = vn.text() if vn is not None else None
                x.f = fn
                x.canon = canon(c, drop={("", "r")})
                x.text = None
                if x.t == "s":
                    try:
                        x.text = book.sst_text(int(x.v))
                    except (TypeError, ValueError, IndexError):
                        self.problems.append(("sst", "cell %s refers to shared string %r of %d" % (ref(row, col), x.v, len(book.sst))))
                elif x.t == "inlineStr":
                    x.text = si_plain(isn) if isn is not None else ""
                elif x.t == "str":
                    x.text = x.v
                self.cells[(row, col)] = x
        for cs in node.elems("cols"):
            for c in cs.elems("col"):
                try:
                    mn, mx = int(c.get("min")), int(c.get("max"))
                except (TypeError, ValueError):
                    self.problems.append(("cols", "column range %r" % c))
                    continue
                a = {k: v for k, v in c.attrs.items() if k not in (("", "min"), ("", "max"))}
                self.cols.append((mn, mx, a))

    def others(self):
        """Canonical children other than rows and columns; of a dimension what is not the range itself."""
        out = []
        for k in self.node.elems():
            if k.tag == "dimension":
                if len(k.attrs) > 1 or any(k.elems()):
                    out.append(canon(k, (("", "ref"),)))
            elif k.tag not in ("sheetData", "cols"):
                out.append(canon(k))
        return out

    def dimension(self):
        d = self.node.first("dimension")
        return d.get("ref") if d is not None else None


COL_DEFAULTS = {"hidden": "0", "bestFit": "0", "customWidth": "0", "style": "0", "outlineLevel": "0",
                "collapsed": "0", "phonetic": "0"}
BOOL = {"true": "1", "false": "0"}


def norm_attrs(a, defaults, floats=()):
    out = {}
    for (ns, name), v in a.items():
        if ns == "":
            v = BOOL.get(v, v)
            if name in floats:
                try:
                    v = repr(float(v))
                except ValueError:
                    pass
            if defaults.get(name) == v:
                continue
        out[(ns, name)] = v
    return out


def norm_col(a):
    return norm_attrs(a, COL_DEFAULTS, ("width",))


ROW_DEFAULTS = {"s": "0", "customFormat": "0", "hidden": "0", "customHeight": "0", "outlineLevel": "0",
                "collapsed": "0", "thickTop": "0", "thickBot": "0", "ph": "0"}


def norm_row(a):
    return norm_attrs(a, ROW_DEFAULTS, ("ht",))


class Book:
    """A workbook package."""

    def __init__(self, pkg):
        self.pkg = pkg
        self.part = pkg.main_part()
        if self.part is None or self.part not in pkg.parts:
            raise XmlError("no workbook part")
        self.node = pkg.xml(self.part)
        self.sst_part = pkg.rel_part(self.part, "/sharedStrings")
        self.style_part = pkg.rel_part(self.part, "/styles")
        self.chain_part = pkg.rel_part(self.part, "/calcChain")
        self.sst = []
        if self.sst_part and self.sst_part in pkg.parts:
            self.sst = pkg.xml(self.sst_part).elems("si")
        self._plain = {}
        rels = {r.id: r for r in pkg.rels(self.part)}
        self.sheets = []  # dict(name, id, rid, state, part, attrs)
        sh = self.node.first("sheets")
        for s in (sh.elems("sheet") if sh is not None else []):
            rid = s.get("id", None, NS_R)
            rel = rels.get(rid)
            part = None
            if rel is not None and rel.part:
                part = pkg.find(rel.part)
            extra = {k: v for k, v in s.attrs.items() if k not in (("", "name"), ("", "state"))}
            self.sheets.append(dict(name=s.get("name"), id=s.get("sheetId"), rid=rid,
                                    state=s.get("state", "visible"), part=part,
                                    type=rel.type.rsplit("/", 1)[-1] if rel is not None and rel.type else None,
                                    extra=extra))
        self._sheets = {}

    def sst_text(self, i):
        if i < 0:
            raise IndexError(i)
        if i not in self._plain:
            self._plain[i] = si_plain(self.sst[i])
        return self._plain[i]

    def sheet(self, part):
        if part not in self._sheets:
            self._sheets[part] = Sheet(self, self.pkg.xml(part), part)
        return self._sheets[part]

    def sheet_by_name(self, name):
        for s in self.sheets:
            if s["name"] == name:
                return self.sheet(s["part"])
        return None

    def views(self):
        bv = self.node.first("bookViews")
        return [dict(v.attrs) for v in bv.elems("workbookView")] if bv is not None else []

    def defined_names(self):
        dn = self.node.first("definedNames")
        return [(dict(d.attrs), d.text()) for d in dn.elems("definedName")] if dn is not None else []

    def calc_chain(self):
        """[(ref, sheetId)] with inherited i resolved, plus other attributes."""
        if not self.chain_part or self.chain_part not in self.pkg.parts:
            return None
        out = []
        i = "0"
        for c in self.pkg.xml(self.chain_part).elems("c"):
            i = c.get("i", i)
            out.append((c.get("r"), i, tuple(sorted((k[1], BOOL.get(v, v)) for k, v in c.attrs.items() if k not in (("", "r"), ("", "i"))))))
        return out

    def styles(self):
        if not hasattr(self, "_styles"):
            self._styles = Styles(self.pkg.xml(self.style_part)) if self.style_part in self.pkg.parts else Styles(None)
        return self._styles


class Styles:
    def __init__(self, node):
        self.node = node
        def coll(tag, item):
            c = node.first(tag) if node is not None else None
            return c.elems(item) if c is not None else []
        self.fonts = coll("fonts", "font")
        self.fills = coll("fills", "fill")
        self.borders = coll("borders", "border")
        self.xfs = coll("cellXfs", "xf")
        self.style_xfs = coll("cellStyleXfs", "xf")
        self.cell_styles = coll("cellStyles", "cellStyle")
        self.dxfs = coll("dxfs", "dxf")
        self.numfmts = {}
        self.numfmt_dups = []
        for n in coll("numFmts", "numFmt"):
            i = n.get("numFmtId")
            if i in self.numfmts:
                self.numfmt_dups.append(i)
            self.numfmts.setdefault(i, n.get("formatCode"))

    def resolve_xf(self, xf):
        """Everything a format denotes, independent of how the tables are laid out."""
        def at(lst, name):
            v = xf.get(name, "0")
            try:
                return canon(lst[int(v)])
            except (ValueError, IndexError):
                return ("dangling", name, v) if lst or v != "0" else None
        nf = xf.get("numFmtId", "0")
        rest = {k: BOOL.get(v, v) for k, v in xf.attrs.items()
                if k[1] not in ("fontId", "fillId", "borderId", "numFmtId", "xfId")}
        return dict(font=at(self.fonts, "fontId"), fill=at(self.fills, "fillId"), border=at(self.borders, "borderId"),
                    numfmt=self.numfmts.get(nf, "#" + nf), rest=tuple(sorted(rest.items())),
                    xfid=xf.get("xfId"), kids=tuple(canon(k) for k in xf.elems()))
