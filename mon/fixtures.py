"""Generator of source packages: valid SpreadsheetML / WordprocessingML / PresentationML packages in the
variety real producers write, built from text (no library, not the code under test)."""
import io, random, zipfile
from pkg import NS_MAIN, NS_R, NS_MC, OD, REL_CORE, REL_OFFICE, col_name

SHT = "application/vnd.openxmlformats-officedocument.spreadsheetml."
CT = {
    "workbook": "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml",
    "worksheet": "application/vnd.openxmlformats-officedocument.spreadsheetml.worksheet+xml",
    "chartsheet": "application/vnd.openxmlformats-officedocument.spreadsheetml.chartsheet+xml",
    "styles": "application/vnd.openxmlformats-officedocument.spreadsheetml.styles+xml",
    "sst": "application/vnd.openxmlformats-officedocument.spreadsheetml.sharedStrings+xml",
    "theme": "application/vnd.openxmlformats-officedocument.theme+xml",
    "calcChain": "application/vnd.openxmlformats-officedocument.spreadsheetml.calcChain+xml",
    "table": "application/vnd.openxmlformats-officedocument.spreadsheetml.table+xml",
    "comments": "application/vnd.openxmlformats-officedocument.spreadsheetml.comments+xml",
    "drawing": "application/vnd.openxmlformats-officedocument.drawing+xml",
    "core": "application/vnd.openxmlformats-package.core-properties+xml",
    "app": "application/vnd.openxmlformats-officedocument.extended-properties+xml",
    "custom": "application/vnd.openxmlformats-officedocument.custom-properties+xml",
    "rels": "application/vnd.openxmlformats-package.relationships+xml",
    "document": "application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml",
    "presentation": "application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml",
    "slide": "application/vnd.openxmlformats-officedocument.presentationml.slide+xml",
    "externalLink": "application/vnd.openxmlformats-officedocument.spreadsheetml.externalLink+xml",
    "vml": "application/vnd.openxmlformats-officedocument.vmlDrawing",
    "printer": "application/vnd.openxmlformats-officedocument.spreadsheetml.printerSettings",
}
X14 = "http://schemas.microsoft.com/office/spreadsheetml/2009/9/main"
X14AC = "http://schemas.microsoft.com/office/spreadsheetml/2009/9/ac"
X15 = "http://schemas.microsoft.com/office/spreadsheetml/2010/11/main"
XR = "http://schemas.microsoft.com/office/spreadsheetml/2014/revision"


def esc(t, attr=False):
    t = t.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")
    if attr:
        t = t.replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;")
    return t


def esc_var(rng, t):
    """Text markup in one of several equivalent spellings."""
    k = rng.random()
    if k < 0.6 or "]]>" in t or "\r" in t:
        return esc(t)
    if k < 0.75 and t:
        return "<![CDATA[%s]]>" % t
    out = []
    for c in t:
        if rng.random() < 0.3 and c not in "\r":
            out.append("&#%d;" % ord(c) if rng.random() < 0.5 else "&#x%X;" % ord(c))
        else:
            out.append({"'": "&apos;", '"': "&quot;"}.get(c, esc(c)) if rng.random() < 0.5 else esc(c))
    if len(out) > 2 and rng.random() < 0.2:
        out.insert(rng.randrange(1, len(out)), "<!-- note -->")
    return "".join(out)


def t_elem(rng, text, pfx=""):
    sp = ' xml:space="preserve"' if text != text.strip(" \t\r\n") or rng.random() < 0.1 else ""
    if rng.random() < (0.04 if sp == "" else 0.2):
        sp = rng.choice(["", ' xml:space="default"'])
    if text == "" and rng.random() < 0.5:
        return "<%st/>" % pfx
    return "<%st%s>%s</%st>" % (pfx, sp, esc_var(rng, text), pfx)


TEXTS = ["alpha", "Beta gamma", "", " lead", "trail ", "two  spaces", "a\nb", "tab\tx", "<b>&amp;</b>", "]]>", "\"q\" 'a'",
         "ünïcödé", "日本語", "😀 smile", "x" * 300, "0012", "TRUE", "1e5", "=A1", "&#65;", "\u00a0nbsp\u00a0", "e\u0301", "a\r\nb", "line\n", "\tin", "out\t", "\r\n both\n ", "\u2028", "100%", "-", "naïve & <tag>"]


class Part:
    def __init__(self, name, ct, data, default_ct=False):
        self.name, self.ct, self.data, self.default_ct = name, ct, data, default_ct
        self.rels = []  # (id, type, logical target or text, mode)
        self.rels_raw = None   # function from the bytes of the .rels as laid out to others


class Pkg:
    """Parts by logical key; `write` lays them out."""

    def __init__(self, rng):
        self.rng = rng
        self.parts = {}
        self.root_rels = []

    def add(self, key, name, ct, data, default_ct=False):
        if isinstance(data, str):
            data = data.encode("utf-8")
        self.parts[key] = Part(name, ct, data, default_ct)
        return self.parts[key]

    def write(self, path, layout=None):
        rng = self.rng
        layout = layout or {}
        spell = layout.get("spell", "plain")
        zf = zipfile.ZipFile(path, "w", zipfile.ZIP_STORED if layout.get("stored") else zipfile.ZIP_DEFLATED)
        entries = []
        defaults = {}
        overrides = []

        def target(owner, key, mode):
            if mode == "External" or key not in self.parts:
                return key
            name = self.parts[key].name
            if layout.get("target_case") and rng.random() < 0.5:
                d, _, b = name.rpartition("/")
                name = rng.choice([name.upper(), d + "/" + b.upper() if d else b.upper(), name.swapcase(), name.title()]) if name.isascii() and "%" not in name else name
            how = spell if spell != "mixed" else rng.choice(["plain", "abs", "dotted", "dotslash"])
            base = owner.rsplit("/", 1)[0] + "/" if "/" in owner else ""
            if how == "abs":
                return "/" + name
            if how == "dotted" and rng.random() < 0.08:   # as many steps up as one likes: the root is its own parent
                return "../" * (base.count("/") + rng.choice([0, 1, 3])) + name
            # relative
            bs = base.split("/")[:-1]
            ns = name.split("/")
            i = 0
            while i < len(bs) and i < len(ns) - 1 and bs[i] == ns[i]:
                i += 1
            rel = "../" * (len(bs) - i) + "/".join(ns[i:])
            if how == "dotslash" and not rel.startswith(".."):
                rel = "./" + rel
            if how == "dotted" and base:
                rel = "../" + bs[-1] + "/" + rel if not rel.startswith("..") else rel
            return rel

        def rels_xml(owner, rels):
            pfx = "r:" if layout.get("rels_prefix") else ""
            ns = 'xmlns%s="http://schemas.openxmlformats.org/package/2006/relationships"' % (":r" if pfx else "")
            out = ['<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<%sRelationships %s>' % (pfx, ns)]
            for rid, typ, key, mode in rels:
                t = target(owner, key, mode)
                m = ' TargetMode="%s"' % mode if mode == "External" or rng.random() < 0.1 else ""
                out.append('<%sRelationship Id="%s" Type="%s" Target="%s"%s/>' % (pfx, rid, typ, esc(t, True), m))
                if layout.get("pretty"):
                    out.append("\n  ")
            out.append("</%sRelationships>" % pfx)
            return "".join(out).encode("utf-8")

        xml_default = layout.get("xml_default", rng.random() < 0.5)
        redundant = rng.random() < 0.5  # leave out overrides that say the same as the default
        defaults["rels"] = CT["rels"]
        if xml_default:
            kinds = sorted({p.ct for p in self.parts.values() if p.ct and p.name.endswith(".xml")})
            defaults["xml"] = rng.choice(kinds) if kinds and rng.random() < 0.3 else rng.choice(["application/xml", "application/xml", "text/xml"])
        entries.append(("_rels/.rels", rels_xml("", self.root_rels)))
        for key, p in self.parts.items():
            entries.append((p.name, p.data))
            ext = p.name.rsplit(".", 1)[-1]
            if p.default_ct:
                defaults.setdefault(ext, p.ct)
            elif p.ct and (defaults.get(ext) != p.ct or not redundant or rng.random() < 0.3):
                overrides.append(("/" + p.name, p.ct))
            if p.rels:
                d, _, b = p.name.rpartition("/")
                x = rels_xml(p.name, p.rels)
                entries.append(((d + "/" if d else "") + "_rels/" + b + ".rels", p.rels_raw(x) if p.rels_raw else x))
        pfx = "ct:" if layout.get("ct_prefix") else ""
        ct = ['<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<%sTypes xmlns%s="http://schemas.openxmlformats.org/package/2006/content-types">' % (pfx, ":ct" if pfx else "")]
        for e, c in defaults.items():
            if layout.get("ext_upper"):
                e = e.upper()
            ct.append('<%sDefault Extension="%s" ContentType="%s"/>' % (pfx, e, c))
        for n, c in overrides:
            if layout.get("override_upper"):
                n = n.upper() if rng.random() < 0.5 else n.title()
            ct.append('<%sOverride PartName="%s" ContentType="%s"/>' % (pfx, esc(n, True), esc(c, True)))
        ct.append("</%sTypes>" % pfx)
        ct_entry = ("[Content_Types].xml", "".join(ct).encode("utf-8"))
        if layout.get("ct_last"):
            entries.append(ct_entry)
        else:
            entries.insert(0, ct_entry)
        if layout.get("shuffle"):
            rng.shuffle(entries)
        if layout.get("dir_entries"):
            dirs = sorted({n.rsplit("/", 1)[0] + "/" for n, _ in entries if "/" in n})
            for d in dirs:
                zf.writestr(zipfile.ZipInfo(d), b"")
        if layout.get("respell"):
            import respell
            # style records are matched as they are written; for twins the redundant declarations would make another record
            skip = self.parts["styles"].name if layout["respell"] == "twin" and "styles" in self.parts else None
            entries = [(n, respell.respell(rng, d) if n != skip and n.endswith((".xml", ".rels")) and d and respell.well_formed(d) else d) for n, d in entries]
        for n, d in entries:
            if layout.get("bom") and n.endswith(".xml") and d.startswith(b"<?xml") and rng.random() < 0.5:
                d = b"\xef\xbb\xbf" + d
            zi = zipfile.ZipInfo(n, date_time=(2020, 1, 2, 3, 4, 6))
            zi.compress_type = zf.compression
            zf.writestr(zi, d)
        zf.close()


# --------------------------------------------------------------------------- XML of the parts

def wrap(rng, root, attrs, body, pfx, extra_ns=(), main=NS_MAIN, pretty=False):
    """<root> with the main namespace as default (pfx '') or bound to a prefix."""
    ns = ['xmlns%s="%s"' % (":" + pfx[:-1] if pfx else "", main)]
    for p, u in extra_ns:
        ns.append('xmlns:%s="%s"' % (p, u))
    rng.shuffle(ns)
    head = rng.choice(['<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n', '<?xml version="1.0" encoding="utf-8"?>', '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\r\n'])
    nl = "\n  " if pretty else ""
    return "%s<%s%s %s%s>%s</%s%s>" % (head, pfx, root, " ".join(ns), " " + attrs if attrs else "", nl.join([""] + body) + ("\n" if pretty else ""), pfx, root)


def core_xml(rng, style="office", created=True, modified=True):
    t = "2019-05-06T07:08:09Z"
    if style == "packaging":  # System.IO.Packaging: core-properties is the default namespace
        cp, root = "", "coreProperties"
        ns = 'xmlns="http://schemas.openxmlformats.org/package/2006/metadata/core-properties"'
    else:
        cp, root = "cp:", "cp:coreProperties"
        ns = 'xmlns:cp="http://schemas.openxmlformats.org/package/2006/metadata/core-properties"'
    dt = "dcterms:" if style != "odd" else "tm:"
    body = ["<dc:title>T &amp; <![CDATA[<x>]]></dc:title>", "<dc:subject/>", "<dc:creator>Ann Author</dc:creator>",
            "<%skeywords>k1, k2</%skeywords>" % (cp, cp), "<dc:description>line1\nline2</dc:description>",
            "<%slastModifiedBy>Bob</%slastModifiedBy>" % (cp, cp), "<%srevision>7</%srevision>" % (cp, cp),
            "<%scategory>cat</%scategory>" % (cp, cp)]
    if rng.random() < 0.5:   # white space is a part of the value, also at its ends
        body += ["<%scontentStatus> draft\n</%scontentStatus>" % (cp, cp), "<dc:language>en </dc:language>", "<%sversion>\t1.0</%sversion>" % (cp, cp), "<dc:identifier>&#13;id&#x2003;</dc:identifier>"]
    if created == "empty":
        body.append('<%screated xsi:type="%sW3CDTF"/>' % (dt, dt))
    elif created:
        w = rng.choice(["2001-02-03T04:05:06Z"] * 3 + ["2001", "2001-02", "2001-02-03", "2001-02-03T04:05+05:30", "2001-02-03T04:05:06.789Z", " 2001-02-03T04:05:06Z\n"])
        body.append('<%screated xsi:type="%sW3CDTF">%s</%screated>' % (dt, dt, w, dt))
    if modified:
        body.append('<%smodified xsi:type="%sW3CDTF">%s</%smodified>' % (dt, dt, t, dt))
    if rng.random() < 0.12:   # names of ours in a vocabulary that is not
        body += ['<v:%s xmlns:v="urn:vendor:meta">2003-04-05T06:07:08Z</v:%s>' % (x, x) for x in rng.sample(["created", "modified", "title"], 2)]
    rng.shuffle(body)
    return ('<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<%s %s xmlns:dc="http://purl.org/dc/elements/1.1/" '
            'xmlns:%s="http://purl.org/dc/terms/" xmlns:dcmitype="http://purl.org/dc/dcmitype/" '
            'xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">%s</%s>' % (root, ns, dt[:-1], "".join(body), root))


def theme_xml():
    return ('<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<a:theme xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" name="My Theme">'
            '<a:themeElements><a:clrScheme name="C"><a:dk1><a:sysClr val="windowText" lastClr="000000"/></a:dk1><a:lt1><a:sysClr val="window" lastClr="FFFFFF"/></a:lt1></a:clrScheme>'
            '<a:fontScheme name="F"><a:majorFont><a:latin typeface="Cambria"/></a:majorFont></a:fontScheme></a:themeElements>'
            '<a:extLst><a:ext uri="{05A4C25C-085E-4340-85A3-A5531E510DB2}"><thm15:themeFamily xmlns:thm15="http://schemas.microsoft.com/office/thememl/2012/main" name="Office"/></a:ext></a:extLst></a:theme>')


def color(rng, p):
    return rng.choice(['<%scolor rgb="FF%06X"/>' % (p, rng.randrange(1 << 24)), '<%scolor theme="%d" tint="-0.249977111117893"/>' % (p, rng.randrange(10)),
                       '<%scolor indexed="%d"/>' % (p, rng.randrange(64)), '<%scolor auto="1"/>' % p])


def near_miss(rng, x):
    """A record that is almost the given one: it means something else in one respect."""
    ways = []
    p = x[1:].split("font")[0].split("fill")[0].split("border")[0].split("xf")[0]

    def into(tag, new):
        return x.replace("</%s%s>" % (p, tag), new.replace("@", p) + "</%s%s>" % (p, tag), 1)

    def attr(tag, a):
        if " " + a.split("=")[0] + "=" in x:
            return x
        return x.replace("<%s%s" % (p, tag), "<%s%s %s" % (p, tag, a), 1)
    if "<%sfont" % p in x:
        ways = [into("font", "<@strike/>"), into("font", "<@outline/>"), x.replace("<%ssz" % p, '<%svertAlign val="superscript"/><%ssz' % (p, p)), x.replace('scheme val="none"', 'scheme val="minor"'),
                attr("color", 'tint="0.5"'), x.replace('"/><%sname' % p, ' "/><%sname' % p), into("font", '<@b val="0"/>'), x.replace('<%sname val="' % p, '<%sname val="x' % p)]
    elif "<%sborder" % p in x:
        ways = [attr("border", 'diagonalUp="1"'), attr("border", 'diagonalDown="1"'), attr("color", 'tint="-0.5"'), into("border", '<@vertical style="thin"/>'), x.replace('style="thin"', 'style="hair"')]
    elif "<%sfill" % p in x:
        ways = [attr("fgColor", 'tint="0.25"'), attr("bgColor", 'tint="0.25"'), x.replace('patternType="solid"', 'patternType="darkGray"'), attr("fgColor", 'indexed="3"')]
    else:
        open_end = x.endswith("</%sxf>" % p)

        def kid(k):
            if k[:6] in x.replace("<" + p, "<@"):
                return x
            k = k.replace("@", p)
            return x.replace("</%sxf>" % p, k + "</%sxf>" % p) if open_end else x[:-2] + ">" + k + "</%sxf>" % p
        ways = [kid('<@protection locked="0"/>'), kid('<@protection hidden="1"/>'), attr("xf", 'quotePrefix="1"'), attr("xf", 'pivotButton="1"'), attr("alignment", 'indent="1"'),
                attr("alignment", 'textRotation="45"'), attr("alignment", 'shrinkToFit="1"'), x.replace('applyFont="1"', 'applyFont="0"'), x.replace('applyNumberFormat="1"', 'applyNumberFormat="0"'),
                x.replace('applyFill="1"', 'applyFill="0"'), x.replace('applyBorder="1"', 'applyBorder="0"'), x.replace('applyAlignment="1"', 'applyAlignment="0"')]
        if not open_end:
            ways += [kid('<@alignment horizontal="center"/>'), kid('<@alignment wrapText="1"/>')]
    ways = [w for w in ways if w != x]
    return rng.choice(ways) if ways else x


def as_written(p, st, nf_id):
    """Records a style setting can be written as (font, fill, border, alignment), with the given prefix."""
    import model
    e = model.style_expected(st)
    b, i, u, size, col, name = e["font"]

    def clr(tag, c):
        return '<%s%s %s="%s"/>' % (p, tag, c[0], esc(c[1], True))
    font = "<%sfont>%s%s%s<%ssz val=\"%s\"/>%s<%sname val=\"%s\"/><%sfamily val=\"2\"/><%sscheme val=\"none\"/></%sfont>" % (
        p, "<%sb/>" % p if b else "", "<%si/>" % p if i else "", "" if u is None else "<%su/>" % p if u == "single" else '<%su val="double"/>' % p, p, "%g" % size, clr("color", col), p, esc(name, True), p, p, p)
    pat, fg, bg = e["fill"]
    kids = ('<%sfgColor rgb="%s"/>' % (p, fg) if fg else "") + ('<%sbgColor rgb="%s"/>' % (p, bg) if bg else "")
    fill = '<%sfill><%spatternFill patternType="%s"%s</%sfill>' % (p, p, pat, ">%s</%spatternFill>" % (kids, p) if kids else "/>", p)
    sides = []
    for sd, (s, c) in zip(("left", "right", "top", "bottom", "diagonal"), e["border"]):
        a = ' style="%s"' % s if s else ""
        sides.append("<%s%s%s>%s</%s%s>" % (p, sd, a, clr("color", c), p, sd) if c else "<%s%s%s/>" % (p, sd, a))
    border = "<%sborder>%s</%sborder>" % (p, "".join(sides), p)
    h, v, w = e["align"]
    al = (' wrapText="1"' if w else "") + (' vertical="%s"' % v if v else "") + (' horizontal="%s"' % h if h else "")
    return font, fill, border, al


def styles_xml(rng, pfx="", pretty=False, rich=True, near=()):
    p = pfx
    nfs = []
    ids = rng.sample(range(164, 220), rng.randrange(0, 5)) if rich else []
    if ids and rng.random() < 0.4:
        first = rng.choice([164, 164, 164 + len(ids), 163 + len(ids), 165, 160, 100])
        ids = list(range(first, first + len(ids)))    # without gaps, in any order
        rng.shuffle(ids)
    for i in ids:
        nfs.append('<%snumFmt numFmtId="%d" formatCode="%s"/>' % (p, i, esc(rng.choice(['0.000', '#,##0\\ "€"', 'yyyy\\-mm\\-dd', '[Red]0;[Blue]-0', '0.00" <x>"', '@"z"', 'YYYY-MM-DD', '0.00E+00', '[red]0', '[Red]0 ']) + "" , True)))
    fonts = ['<%sfont><%ssz val="11"/><%scolor theme="1"/><%sname val="Calibri"/><%sfamily val="2"/><%sscheme val="minor"/></%sfont>' % ((p,) * 7)]
    for _ in range(rng.randrange(0, 5) if rich else 0):
        b = []
        for t in ["b", "i", "strike", "outline", "shadow", "condense"]:
            if rng.random() < 0.25:
                b.append("<%s%s%s/>" % (p, t, rng.choice(["", ' val="1"', ' val="0"', ' val="true"'])))
        if rng.random() < 0.3:
            b.append('<%su%s/>' % (p, rng.choice(["", ' val="double"', ' val="singleAccounting"', ' val="none"'])))
        if rng.random() < 0.2:
            b.append('<%svertAlign val="superscript"/>' % p)
        b.append('<%ssz val="%s"/>' % (p, rng.choice(["10", "10.5", "11", "36"])))
        b.append(color(rng, p))
        b.append('<%sname val="%s"/>' % (p, rng.choice(["Arial", "Calibri", "Times &amp; Co", "ＭＳ Ｐゴシック"])))
        if rng.random() < 0.5:
            b.append('<%sfamily val="%d"/>' % (p, rng.randrange(1, 5)))
        if rng.random() < 0.3:
            b.append('<%scharset val="128"/>' % p)
        fonts.append("<%sfont>%s</%sfont>" % (p, "".join(b), p))
    fills = ['<%sfill><%spatternFill patternType="none"/></%sfill>' % (p, p, p), '<%sfill><%spatternFill patternType="gray125"/></%sfill>' % (p, p, p)]
    for _ in range(rng.randrange(0, 4) if rich else 0):
        if rng.random() < 0.3:
            fills.append('<%sfill><%sgradientFill degree="90"><%sstop position="0">%s</%sstop><%sstop position="1">%s</%sstop></%sgradientFill></%sfill>' % (p, p, p, color(rng, p), p, p, color(rng, p), p, p, p))
        else:
            fg = color(rng, p).replace("color", "fgColor", 1)
            bg = '<%sbgColor indexed="64"/>' % p
            fills.append('<%sfill><%spatternFill patternType="%s">%s%s</%spatternFill></%sfill>' % (p, p, rng.choice(["solid", "darkGray", "lightUp", "mediumGray"]), fg, bg if rng.random() < 0.7 else "", p, p))
    borders = ["<%sborder><%sleft/><%sright/><%stop/><%sbottom/><%sdiagonal/></%sborder>" % ((p,) * 7)]
    for _ in range(rng.randrange(0, 4) if rich else 0):
        sides = []
        for sd in ["left", "right", "top", "bottom", "diagonal"]:
            if rng.random() < 0.5:
                sides.append('<%s%s style="%s">%s</%s%s>' % (p, sd, rng.choice(["thin", "medium", "hair", "double", "slantDashDot"]), color(rng, p), p, sd))
            elif rng.random() < 0.8:
                sides.append("<%s%s/>" % (p, sd))
        at = rng.choice(["", ' diagonalUp="1"', ' outline="0"', ' diagonalUp="1" diagonalDown="1"'])
        borders.append("<%sborder%s>%s</%sborder>" % (p, at, "".join(sides), p))

    def xf(with_id):
        nf = rng.choice([0, 0, 1, 2, 9, 14, 22, 49] + ids)
        a = 'numFmtId="%d" fontId="%d" fillId="%d" borderId="%d"' % (nf, rng.randrange(len(fonts)), rng.randrange(len(fills)), rng.randrange(len(borders)))
        if with_id is not None:
            a += ' xfId="%d"' % with_id
        for t in ["applyNumberFormat", "applyFont", "applyFill", "applyBorder", "quotePrefix", "pivotButton"]:
            if rng.random() < 0.25:
                a += ' %s="%s"' % (t, rng.choice("10"))
        k = ""
        if rng.random() < 0.5:
            k += '<%salignment %s/>' % (p, rng.choice(['horizontal="center"', 'vertical="top" wrapText="1"', 'textRotation="90"', 'indent="2" horizontal="left"', 'readingOrder="2" shrinkToFit="1"', 'horizontal="centerContinuous" vertical="distributed"']))
        if rng.random() < 0.3:
            k += '<%sprotection %s/>' % (p, rng.choice(['locked="0"', 'hidden="1"', 'locked="0" hidden="1"']))
        return "<%sxf %s>%s</%sxf>" % (p, a, k, p) if k else "<%sxf %s/>" % (p, a)

    sxf = ['<%sxf numFmtId="0" fontId="0" fillId="0" borderId="0"/>' % p] + [xf(None) for _ in range(rng.randrange(0, 3) if rich else 0)]
    cxf = ['<%sxf numFmtId="0" fontId="0" fillId="0" borderId="0" xfId="0"/>' % p] + [xf(rng.randrange(len(sxf))) for _ in range(rng.randrange(0, 9) if rich else 0)]
    if rich and len(cxf) > 2 and rng.random() < 0.3:
        cxf.append(cxf[1])  # duplicates are legal and both in use
    for st in near:
        if st.get("number_format") == "Custom":
            nf = max([163] + ids) + 1
            ids.append(nf)
            code = st["custom_number_format"]
            nfs.append('<%snumFmt numFmtId="%d" formatCode="%s"/>' % (p, nf, esc(rng.choice([code, code.swapcase(), code + " ", code]), True)))
        else:
            import model
            nf = model.NUMFMT[st.get("number_format", "General")]
        fo, fi, bo, al = as_written(p, st, nf)
        off = rng.choice(["font", "fill", "border", "xf", "xf", "xf", "style", "none"])
        at = []
        for kind, x, lst in (("font", fo, fonts), ("fill", fi, fills), ("border", bo, borders)):
            if off == kind:
                x = near_miss(rng, x)
            if x in lst and rng.random() < 0.8:
                at.append(lst.index(x))
            else:
                at.append(len(lst))
                lst.append(x)
        xs = []
        for kind in ("style", "xf"):
            x = '<%sxf numFmtId="%d" fontId="%d" fillId="%d" borderId="%d"%s%s%s%s%s%s' % (
                p, nf, at[0], at[1], at[2], "" if kind == "style" else ' xfId="%d"' % len(sxf), ' applyNumberFormat="1"' if nf else "", ' applyFont="1"' if at[0] else "",
                ' applyFill="1"' if at[1] else "", ' applyBorder="1"' if at[2] else "", ' applyAlignment="1"><%salignment%s/></%sxf>' % (p, al, p) if al else "/>")
            xs.append(near_miss(rng, x) if off == kind else x)
        sxf.append(xs[0])
        cxf.append(xs[1])
        if rng.random() < 0.3:
            cxf.append(near_miss(rng, xs[1]))
    body = []

    def coll(tag, items, extra=""):
        if items:
            cnt = ' count="%d"' % len(items) if rng.random() < 0.8 else ""
            body.append("<%s%s%s%s>%s</%s%s>" % (p, tag, cnt, extra, "".join(items), p, tag))
    coll("numFmts", nfs)
    coll("fonts", fonts, rng.choice(["", ' x14ac:knownFonts="1"']) )
    coll("fills", fills)
    coll("borders", borders)
    coll("cellStyleXfs", sxf)
    coll("cellXfs", cxf)
    cs = ['<%scellStyle name="Normal" xfId="0" builtinId="0"/>' % p]
    for i in range(1, len(sxf)):
        cs.append('<%scellStyle name="Style %d &amp;" xfId="%d"%s/>' % (p, i, i, rng.choice(["", ' customBuiltin="1" builtinId="%d"' % (15 + i), ' hidden="1"'])))
    if rng.random() < 0.85:
        coll("cellStyles", cs)
    dx = []
    for _ in range(rng.randrange(0, 3) if rich else 0):
        dx.append('<%sdxf><%sfont><%sb/>%s</%sfont><%sfill><%spatternFill><%sbgColor rgb="FFFFC7CE"/></%spatternFill></%sfill></%sdxf>' % (p, p, p, color(rng, p), p, p, p, p, p, p, p))
    if dx or rng.random() < 0.5:
        body.append('<%sdxfs count="%d">%s</%sdxfs>' % (p, len(dx), "".join(dx), p) if dx else '<%sdxfs count="0"/>' % p)
    if rng.random() < 0.7:
        body.append('<%stableStyles count="0" defaultTableStyle="TableStyleMedium2" defaultPivotStyle="PivotStyleLight16"/>' % p)
    if rich and rng.random() < 0.3:
        body.append('<%scolors><%sindexedColors><%srgbColor rgb="00000000"/></%sindexedColors><%smruColors><%scolor rgb="FF123456"/></%smruColors></%scolors>' % ((p,) * 8))
    if rich and rng.random() < 0.5:
        body.append('<%sextLst><%sext uri="{EB79DEF2-80B8-43e5-95BD-54CBDDF9020C}" xmlns:x14="%s"><x14:slicerStyles defaultSlicerStyle="SlicerStyleLight1"/></%sext></%sextLst>' % (p, p, X14, p, p))
    return wrap(rng, "styleSheet", 'mc:Ignorable="x14ac"', body, p, [("mc", NS_MC), ("x14ac", X14AC)], pretty=pretty), len(cxf), len(dx)


def rich_si(rng, p):
    def rpr():
        return "<%srPr><%sb/><%ssz val=\"11\"/><%scolor rgb=\"FFFF0000\"/><%srFont val=\"Calibri\"/></%srPr>" % ((p,) * 6)
    runs = "".join("<%sr>%s%s</%sr>" % (p, rpr() if rng.random() < 0.7 else "", t_elem(rng, rng.choice(TEXTS) + "r", p), p) for _ in range(rng.randrange(1, 4)))
    ph = ""
    if rng.random() < 0.3:
        ph = '<%srPh sb="0" eb="1">%s</%srPh><%sphoneticPr fontId="0" type="noConversion"/>' % (p, t_elem(rng, "ふり", p), p, p)
    return runs + ph


def sst_xml(rng, pfx, texts, pretty=False):
    """texts: list of plain texts; some entries become rich or phonetic. Returns xml."""
    p = pfx
    out = []
    for t in texts:
        if isinstance(t, tuple):
            k = t[0]
            if k == "rich":
                out.append("<%ssi>%s</%ssi>" % (p, rich_si(rng, p), p))
            elif k == "phon":
                out.append('<%ssi>%s<%srPh sb="0" eb="2">%s</%srPh><%sphoneticPr fontId="0"/></%ssi>' % (p, t_elem(rng, t[1], p), p, t_elem(rng, "カナ", p), p, p, p))
            else:
                out.append("<%ssi/>" % p if rng.random() < 0.5 else "<%ssi></%ssi>" % (p, p))
        else:
            out.append("<%ssi>%s</%ssi>" % (p, t_elem(rng, t, p), p))
    a = rng.choice(["", 'count="%d" uniqueCount="%d"' % (len(out) + 3, len(out)), 'uniqueCount="%d"' % len(out)])
    if rng.random() < 0.15:
        out.append('<%sextLst><%sext uri="{x}"/></%sextLst>' % (p, p, p))
    return wrap(rng, "sst", a, out, p, pretty=pretty)


class SheetSpec:
    pass


ODD_NAMES = ["\u00c0b", "\u00d6", "\u00d8x", "\u00f6", "\u00f8y", "\u00ff", "\u0131", "\u540d\u524d", "\uac00", "\u0436\u0436", "x.y", "x-1", "_", "_1", "a\u00b7b", "a\u0300",
             "\u00e9\u00d6", "Z.", "xmlx", "a\u00f6\u00d6\u00d8\u00f8"]


def other_r(rng, data):
    """The namespace of relationship ids bound to another prefix, or bound where it is used alone."""
    k = rng.random()
    if k < 0.75:
        return data
    new = rng.choice([b"rel", b"r", b"rx", b"r1"])
    if k < 0.85:
        return data.replace(b"xmlns:r=", b"xmlns:%s=" % new).replace(b" r:id=", b" %s:id=" % new)
    decl = b' xmlns:%s="%s"' % (new, NS_R.encode())
    data = data.replace(b' xmlns:r="%s"' % NS_R.encode(), b' xmlns:r="urn:r"' if rng.random() < 0.3 else b"")
    return data.replace(b' r:id="', decl + b" " + new + b':id="')


def odd_names(rng, p):
    """An extension whose elements and attributes have unusual, correct names."""
    if rng.random() < 0.15:
        # the same prefix for other namespaces and back
        u = ["urn:one", "urn:two"]
        x = rng.choice(["<a:leaf a:k=\"1\" k=\"2\"/>", "<a:leaf/>", "<leaf xmlns=\"\"/>", "<leaf xmlns=\"urn:d\"><a:in/></leaf>"])
        for i in range(rng.randrange(2, 6)):
            w = rng.choice(u)
            x = '<a:l%d xmlns:a="%s"%s>%s</a:l%d>' % (i, w, rng.choice(["", ' a:q="%d"' % i, ' xmlns=""', ' xmlns="urn:d"', ' xmlns:b="%s" b:z="0"' % w]), x + rng.choice(["", "<a:after/>"]), i)
        return '<%sext uri="{chain}">%s</%sext>' % (p, x, p)
    if rng.random() > 0.25:
        return ""
    ns = rng.sample([n for n in ODD_NAMES if n != "xmlx"], 5)
    pre, a, b, c, d = ns
    if rng.random() < 0.3:
        return '<%sext uri="{many}">%s</%sext>' % (p, "".join('<xr%d:leaf xmlns:xr%d="urn:xr%d" xr%d:a="%d"/>' % (k, k, k, k, k) for k in range(rng.choice([3, 300, 1200]))), p)
    return '<%sext uri="{odd}" xmlns:%s="urn:odd" %s="1" %s:%s="2"><%s:%s %s="3"><%s xmlns="urn:o2" xmlx="4"/><%s:%s/></%s:%s></%sext>' % (p, pre, a, pre, b, pre, b, c, d, pre, a, pre, b, p)


def gen_cells(rng, sst_n, n_xf, dense):
    """{(row, col): kind} and shared formula groups etc. as (row -> list of (col, xml-producing fn))"""
    rows = {}
    nrows = rng.choice([0, 1, 3, 8]) if not dense else 20
    base = rng.choice([1, 1, 1, 5, 100, 1048560])
    for _ in range(nrows):
        r = base + rng.randrange(0, 12)
        cols = set()
        for _ in range(rng.randrange(0, 6)):
            cols.add(rng.choice([1, 2, 3, 4, 5, 26, 27, 52, 702, 703, 16383, 16384, rng.randrange(1, 60)]))
        rows[r] = sorted(cols)
    return dict(sorted(rows.items()))


def sheet_xml(rng, pfx, sst_n, n_xf, n_dxf, opts):
    """Worksheet text; returns (xml, rels needed, facts)."""
    p = pfx
    pretty = opts.get("pretty")
    feats = opts.get("features")

    def on(name, prob):
        if feats is not None:
            return name in feats
        return rng.random() < prob
    rels = []
    body = []
    facts = {"formulas": [], "shared": [], "array": []}
    if on("sheetPr", 0.4):
        body.append('<%ssheetPr%s>%s</%ssheetPr>' % (p, rng.choice(["", ' codeName="Sheet_1"', ' filterMode="1"']), rng.choice(['<%stabColor rgb="FF00FF00"/>' % p, '<%soutlinePr summaryBelow="0"/><%spageSetUpPr fitToPage="1"/>' % (p, p)]), p))
    rows = gen_cells(rng, sst_n, n_xf, opts.get("dense"))
    if on("dimension", 0.7):
        body.append('<%sdimension ref="%s"/>' % (p, rng.choice(["A1", "A1:B2", "A1:XFD1048576"]) + rng.choice(["", "", "", '" xr:uid="{2}'])))
    if on("sheetViews", 0.7):
        sel = rng.choice([
            '<%ssheetView workbookViewId="0"/>' % p,
            '<%ssheetView tabSelected="1" showGridLines="0" zoomScale="85" zoomScaleNormal="85" workbookViewId="0"><%spane xSplit="1" ySplit="2" topLeftCell="B3" activePane="bottomRight" state="frozen"/><%sselection pane="topRight" activeCell="B1" sqref="B1"/><%sselection pane="bottomLeft"/><%sselection pane="bottomRight" activeCell="D9" sqref="D9 E10:F11"/></%ssheetView>' % ((p,) * 6),
            '<%ssheetView view="pageBreakPreview" rightToLeft="1" showFormulas="1" workbookViewId="0"><%sselection activeCell="C3" sqref="C3:D4"/><%sextLst><%sext uri="{q}"><q:v xmlns:q="urn:q" a="1"/></%sext></%sextLst></%ssheetView>' % ((p,) * 7),
            '<%ssheetView workbookViewId="0"><%sselection activeCell="A1" sqref="A1"/></%ssheetView><%ssheetView workbookViewId="1" zoomScale="50"/>' % ((p,) * 4)])
        body.append("<%ssheetViews>%s</%ssheetViews>" % (p, sel, p))
    if on("sheetFormatPr", 0.7):
        body.append('<%ssheetFormatPr defaultRowHeight="15" %s/>' % (p, rng.choice(['x14ac:dyDescent="0.25"', 'customHeight="1" outlineLevelRow="2"', 'baseColWidth="8"'])))
    if on("cols", 0.5):
        out = []
        c = 1
        for _ in range(rng.randrange(1, 6)):
            mn = c + rng.choice([0, 0, 1, 3])
            mx = mn + rng.choice([0, 0, 1, 4, 20, 16384])
            mx = min(mx, 16384)
            if mn > 16384:
                break
            a = rng.choice(['width="12.5" customWidth="1"', 'width="13.333333333333334" customWidth="1"', 'width="1.0E1" bestFit="1"', 'width="9.140625" style="%d"' % rng.randrange(n_xf), 'width="0" hidden="1" customWidth="1"', 'width="20" bestFit="1" customWidth="1"', 'width="9" outlineLevel="1" collapsed="1"', 'width="33.33" phonetic="1" hidden="true"'])
            if rng.random() < 0.1:
                a += ' xr:uid="{3}"'
            out.append('<%scol min="%d" max="%d" %s/>' % (p, mn, mx, a))
            c = mx + 1
            if c > 16384:
                break
        if len(out) > 1 and rng.random() < 0.15:
            k = rng.randrange(1, len(out))
            body.append("<%scols>%s</%scols>" % (p, "".join(out[:k]), p))
            out = out[k:]
        body.append("<%scols>%s</%scols>" % (p, "".join(out), p))
    # cells
    rowsx = []
    si_next = 0
    shared = None
    prev_row = 0
    omit_refs = opts.get("omit_refs")
    unordered = not omit_refs and rng.random() < opts.get("unordered", 0.05)
    for r, cols in rows.items():
        ra = ""
        if not (omit_refs and r == prev_row + 1):
            ra += ' r="%d"' % r
        prev_row = r
        if rng.random() < 0.3:
            ra += rng.choice([' ht="22.5" customHeight="1"', ' ht="15.123456789012345"', ' s="%d" customFormat="1"' % rng.randrange(n_xf), ' hidden="1"', ' outlineLevel="2" collapsed="1"', ' thickTop="1" thickBot="1"', ' x14ac:dyDescent="0.25"', ' ht="15.75" x14ac:dyDescent="0.3" ph="1"', ' hidden="true"', ' xr:uid="{4}" hidden="0"',
                              ' s="%d" customFormat="true"' % rng.randrange(n_xf), ' s="%d"' % rng.randrange(n_xf), ' s="%d" customFormat="0"' % rng.randrange(n_xf), ' customHeight="true" ht="31"', ' ht="18"', ' ht="18" customHeight="false"', ' collapsed="1"', ' outlineLevel="0" collapsed="true"',
                              ' outlineLevel="7"', ' thickTop="true" thickBot="0"', ' ph="true"', ' customFormat="1"', ' hidden="false" collapsed="0"'])
        if cols and rng.random() < 0.4:
            ra += ' spans="%d:%d"' % (cols[0], cols[-1])
        cx = []
        prev_c = 0
        for c in cols:
            a = ""
            if not (omit_refs and c == prev_c + 1):
                a += ' r="%s%d"' % (col_name(c), r)
            prev_c = c
            if rng.random() < 0.4:
                a += ' s="%d"' % rng.randrange(n_xf)
            k = rng.random()
            if k < 0.22 and sst_n:
                cx.append('<%sc%s t="s"><%sv>%d</%sv></%sc>' % (p, a, p, rng.randrange(sst_n), p, p))
            elif k < 0.42:
                cx.append('<%sc%s%s><%sv>%s</%sv></%sc>' % (p, a, rng.choice(["", ' t="n"']), p, rng.choice(["1", "-2.5", "1E-7", "0.1", "123456789012345678", "44927.5", "1.7976931348623157E308", "0"]), p, p))
            elif k < 0.47:
                cx.append('<%sc%s t="b"><%sv>%s</%sv></%sc>' % (p, a, p, rng.choice("01"), p, p))
            elif k < 0.51:
                cx.append('<%sc%s t="e"><%sv>%s</%sv></%sc>' % (p, a, p, rng.choice(["#DIV/0!", "#N/A", "#REF!"]), p, p))
            elif k < 0.58:
                cx.append('<%sc%s t="inlineStr"><%sis>%s</%sis></%sc>' % (p, a, p, rich_si(rng, p) if rng.random() < 0.4 else t_elem(rng, rng.choice(TEXTS), p), p, p))
            elif k < 0.62:
                cx.append('<%sc%s t="d"><%sv>2024-02-29T12:34:56Z</%sv></%sc>' % (p, a, p, p, p))
            elif k < 0.75:
                f = rng.choice(["SUM(A1:B2)", "A1&\"x\"", "IF(A1<B1,1,2)", "'My Sheet'!A1", "NOW()"])
                fa = rng.choice(["", "", ' ca="1"'])
                st = rng.random() < 0.3
                cx.append('<%sc%s%s><%sf%s>%s</%sf>%s</%sc>' % (p, a, ' t="str"' if st else "", p, fa, esc(f), p, ("<%sv>%s</%sv>" % (p, esc_var(rng, rng.choice(["res ", " x", "a\nb"])) if st else "42", p)) if rng.random() < 0.85 else "", p))
                facts["formulas"].append((r, c))
            elif k < 0.80:
                cx.append('<%sc%s cm="1"><%sf t="array" ref="%s%d:%s%d" aca="1">%s</%sf><%sv>3</%sv></%sc>' % (p, a, p, col_name(c), r, col_name(c), r, esc("SUM(A1:A3*B1:B3)"), p, p, p, p))
                facts["formulas"].append((r, c))
                facts["array"].append((r, c))
            elif k < 0.86:
                if shared is None or rng.random() < 0.4:
                    shared = si_next
                    si_next += 1
                    cx.append('<%sc%s><%sf t="shared" ref="%s%d:%s%d" si="%d">A1+1</%sf><%sv>2</%sv></%sc>' % (p, a, p, col_name(c), r, col_name(min(c + 3, 16384)), min(r + 9, 1048576), shared, p, p, p, p))
                    facts["shared"].append((r, c, shared))
                else:
                    cx.append('<%sc%s><%sf t="shared" si="%d"/><%sv>3</%sv></%sc>' % (p, a, p, shared, p, p, p))
                    facts.setdefault("shared_dep", []).append((r, c, shared))
                facts["formulas"].append((r, c))
            elif k < 0.88:
                cx.append('<%sc%s><%sf t="dataTable" ref="%s%d" dt2D="1" dtr="1" r1="A1" r2="A2"/><%sv>3</%sv></%sc>' % (p, a, p, col_name(c), r, p, p, p))
                facts["formulas"].append((r, c))
            elif k < 0.90:
                cx.append('<%sc%s vm="1" ph="1"><%sv>5</%sv><%sextLst><%sext uri="{c}"/></%sextLst></%sc>' % ((p, a) + (p,) * 6))
            elif k < 0.92:
                cx.append('<%sc%s t="str"><%sv>%s</%sv></%sc>' % (p, a, p, esc_var(rng, rng.choice(TEXTS).replace("\r", "")), p, p))
            else:
                cx.append("<%sc%s/>" % (p, a) if rng.random() < 0.7 else "<%sc%s></%sc>" % (p, a, p))
        if unordered and rng.random() < 0.7:
            if len(cx) > 2 and rng.random() < 0.5:
                # all but the last pair out of order
                cx = cx[-3:-2] + cx[:-3] + cx[-2:] if rng.random() < 0.5 else cx[1:2] + cx[:1] + cx[2:]
            else:
                rng.shuffle(cx)
        if rng.random() < 0.1:
            cx.append('<%sextLst><%sext uri="{row}"/></%sextLst>' % (p, p, p))
        if rng.random() < 0.03:
            cx.append('<mc:AlternateContent><mc:Choice Requires="x15"><x15:any/></mc:Choice></mc:AlternateContent>')
        rowsx.append(("<%srow%s>%s</%srow>" % (p, ra, "".join(cx), p)) if cx else "<%srow%s/>" % (p, ra))
    if unordered and rng.random() < 0.4:
        rng.shuffle(rowsx)
    body.append(("<%ssheetData>%s</%ssheetData>" % (p, ("\n" if pretty else "").join(rowsx), p)) if rowsx or rng.random() < 0.5 else "<%ssheetData/>" % p)
    if on("calcPr", 0.15):
        body.append('<%ssheetCalcPr fullCalcOnLoad="1"/>' % p)
    if on("protection", 0.25):
        body.append('<%ssheetProtection password="CC1A" sheet="1" objects="1" scenarios="1"/>' % p)
    rare = rng.random() < 0.15
    few = 0.6 if rare else 0.04
    if on("protectedRanges", few):
        body.append('<%sprotectedRanges><%sprotectedRange sqref="A1:B2 D4" name="R &amp; 1" password="CC1A"/></%sprotectedRanges>' % ((p,) * 3))
    if on("scenarios", few):
        body.append('<%sscenarios current="0"><%sscenario name="s" locked="1" count="1" user="me" comment="a&#10;b"><%sinputCells r="A1" val=" 5 "/></%sscenario></%sscenarios>' % ((p,) * 5))
    if on("autoFilter", 0.25):
        body.append('<%sautoFilter ref="A1:C9"><%sfilterColumn colId="0"><%sfilters><%sfilter val="a &amp; b"/></%sfilters></%sfilterColumn></%sautoFilter>' % ((p,) * 7))
    if on("sortState", few):
        body.append('<%ssortState ref="A2:C9"><%ssortCondition ref="B2:B9" descending="1"/></%ssortState>' % ((p,) * 3))
    if on("dataConsolidate", few):
        body.append('<%sdataConsolidate function="average" topLabels="1"><%sdataRefs count="1"><%sdataRef ref="A1:B2" sheet="Data"/></%sdataRefs></%sdataConsolidate>' % ((p,) * 5))
    if on("customViews", few):
        body.append('<%scustomSheetViews><%scustomSheetView guid="{21E13FD1-0E3C-4D6A-A1D5-1D1E5F9D1A11}" scale="75" state="hidden"><%spane xSplit="1" topLeftCell="B1" activePane="topRight" state="frozen"/><%sselection pane="topRight" activeCell="B2" sqref="B2"/>'
                    '<%srowBreaks count="1" manualBreakCount="1"><%sbrk id="2" max="16383" man="1"/></%srowBreaks><%spageMargins left="1" right="1" top="1" bottom="1" header="0" footer="0"/><%sautoFilter ref="A1:B2"/></%scustomSheetView></%scustomSheetViews>' % ((p,) * 11))
    if on("mergeCells", 0.4):
        body.append('<%smergeCells count="2"><%smergeCell ref="B2:C3"/><%smergeCell ref="E5:E9"/></%smergeCells>' % ((p,) * 4))
    if on("phoneticPr", few):
        body.append('<%sphoneticPr fontId="0" type="noConversion"/>' % p)
    if on("condfmt", 0.4) and n_dxf:
        for k in range(rng.randrange(20, 40) if rng.random() < 0.12 else 0):   # more children of the root than any small sort handles in place
            body.append('<%sconditionalFormatting sqref="C%d"><%scfRule type="expression" dxfId="0" priority="%d"><%sformula>C%d&gt;%d</%sformula></%scfRule></%sconditionalFormatting>' % (p, k + 1, p, k + 3, p, k + 1, k, p, p, p))
        body.append('<%sconditionalFormatting sqref="A1:A9"><%scfRule type="cellIs" dxfId="0" priority="2" operator="lessThan"><%sformula>%s</%sformula></%scfRule></%sconditionalFormatting>' % (p, p, p, esc('IF(A1<2,"a","b")'), p, p, p))
        body.append('<%sconditionalFormatting sqref="B1:B9 D1:D9"><%scfRule type="colorScale" priority="1"><%scolorScale><%scfvo type="min"/><%scfvo type="max"/><%scolor rgb="FFF8696B"/><%scolor rgb="FF63BE7B"/></%scolorScale></%scfRule></%sconditionalFormatting>' % ((p,) * 10))
    if on("dataval", 0.3):
        body.append('<%sdataValidations count="1"><%sdataValidation type="list" allowBlank="1" showErrorMessage="1" errorTitle="E &amp; T" error="a&#10;b&#9;c" sqref="F1:F5"><%sformula1>"a,b ""c"""</%sformula1></%sdataValidation></%sdataValidations>' % ((p,) * 6))
    if on("hyperlinks", 0.35):
        rels.append(("hl", OD + "hyperlink", "http://example.com/a?b=1&c=%20d#frag", "External"))
        for k in range(rng.choice([0, 0, 1, 3])):
            rels.append(("again%d" % k, OD + "hyperlink", rng.choice(["http://example.com/a?b=1&c=%20d#frag", "worksheets/sheet1.xml", "../media/image1.png"]), "External"))
        rels.append(("hl2", OD + "hyperlink", "mailto:a@b.example?subject=x y", "External"))
        body.append('<%shyperlinks><%shyperlink ref="A1" r:id="@hl@" tooltip="t &lt; u&#9;v&#10;w&#13;&#10;x&#13; \'"/><%shyperlink ref="B1" r:id="@hl2@" display="m"/><%shyperlink ref="C1" location="\'My Sheet\'!A1"/></%shyperlinks>' % ((p,) * 5))
    if on("print", 0.5):
        body.append('<%sprintOptions horizontalCentered="1"/>' % p)
        body.append('<%spageMargins left="0.7" right="0.7" top="0.75" bottom="0.75" header="0.3" footer="0.3"/>' % p)
        if rng.random() < 0.6:
            rels.append(("ps", OD + "printerSettings", "printer", "Internal"))
            body.append('<%spageSetup paperSize="9" orientation="landscape" r:id="@ps@"/>' % p)
        body.append('<%sheaderFooter differentFirst="1"><%soddHeader>&amp;L&amp;"Arial,Bold"Left &amp;P</%soddHeader><%soddFooter xml:space="preserve"> &amp;R x </%soddFooter></%sheaderFooter>' % ((p,) * 6))
    if on("breaks", 0.2):
        body.append('<%srowBreaks count="1" manualBreakCount="1"><%sbrk id="5" max="16383" man="1"/></%srowBreaks>' % ((p,) * 3))
        body.append('<%scolBreaks count="1" manualBreakCount="1"><%sbrk id="3" max="1048575" man="1"/></%scolBreaks>' % ((p,) * 3))
    if on("customProps", few):
        rels.append(("cp", OD + "customProperty", "custprop", "Internal"))
        body.append('<%scustomProperties><%scustomPr name="p" r:id="@cp@"/></%scustomProperties>' % ((p,) * 3))
    if on("watches", few):
        body.append('<%scellWatches><%scellWatch r="A1"/></%scellWatches>' % ((p,) * 3))
    if on("ignored", 0.2):
        body.append('<%signoredErrors><%signoredError sqref="A1" numberStoredAsText="1"/></%signoredErrors>' % ((p,) * 3))
    if on("smartTags", few):
        body.append('<%ssmartTags><%scellSmartTags r="A1"><%scellSmartTag type="0" deleted="1"/></%scellSmartTags></%ssmartTags>' % ((p,) * 5))
    if on("drawing", 0.35):
        rels.append(("dr", OD + "drawing", "drawing", "Internal"))
        body.append('<%sdrawing r:id="@dr@"/>' % p)
    if on("comments", 0.3):
        rels.append(("cm", OD + "comments", "comments", "Internal"))
        rels.append(("vm", OD + "vmlDrawing", "vml", "Internal"))
        body.append('<%slegacyDrawing r:id="@vm@"/>' % p)
    if on("headerDrawing", few):
        rels.append(("hf", OD + "vmlDrawing", "vmlhf", "Internal"))
        body.append('<%slegacyDrawingHF r:id="@hf@"/>' % p)
    if on("picture", few):
        rels.append(("pi", OD + "image", "picture", "Internal"))
        body.append('<%spicture r:id="@pi@"/>' % p)
    if on("ole", few):
        rels.append(("ol", OD + "oleObject", "ole", "Internal"))
        ole = '<%soleObjects>%%s</%soleObjects>' % (p, p)
        one = '<%soleObject progId="Package" dvAspect="DVASPECT_ICON" shapeId="1025" r:id="@ol@"/>' % p
        body.append(ole % ('<mc:AlternateContent><mc:Choice Requires="x14ac">%s</mc:Choice><mc:Fallback>%s</mc:Fallback></mc:AlternateContent>' % (one, one)) if rng.random() < 0.5 else ole % one)
    if on("controls", few):
        rels.append(("ct", OD + "ctrlProp", "control", "Internal"))
        c = '<%scontrols><%scontrol shapeId="1026" name="C &lt;1" r:id="@ct@"/></%scontrols>' % ((p,) * 3)
        body.append('<mc:AlternateContent><mc:Choice Requires="x14ac">%s</mc:Choice></mc:AlternateContent>' % c if rng.random() < 0.6 else c)
    if on("webPublish", few):
        body.append('<%swebPublishItems count="1"><%swebPublishItem id="1" divId="d" sourceType="sheet" destinationFile="C:\\x.htm"/></%swebPublishItems>' % ((p,) * 3))
    if on("tables", 0.3):
        rels.append(("tb", OD + "table", "table", "Internal"))
        body.append('<%stableParts count="1"><%stablePart r:id="@tb@"/></%stableParts>' % ((p,) * 3))
    if on("extLst", 0.4):
        body.append('<%sextLst><%sext uri="{78C0D931-6437-407d-A8EE-F0AAD7539E65}" xmlns:x14="%s"><x14:conditionalFormattings><x14:conditionalFormatting xmlns:xm="http://schemas.microsoft.com/office/excel/2006/main"><x14:cfRule type="expression" priority="3" id="{0}"><xm:f>A1&lt;&gt;"x"</xm:f></x14:cfRule><xm:sqref>G1:G5</xm:sqref></x14:conditionalFormatting></x14:conditionalFormattings></%sext>'
                    '<%sext uri="{x}"><mc:AlternateContent><mc:Choice Requires="x15"><x15:w xmlns:x15="%s">1</x15:w></mc:Choice><mc:Fallback/></mc:AlternateContent></%sext>%s</%sextLst>' % (p, p, X14, p, p, X15, p, odd_names(rng, p), p))
    if rng.random() < few / 3:
        body.insert(rng.randrange(len(body) + 1), '<mc:AlternateContent><mc:Choice Requires="x15"><x15:any/></mc:Choice></mc:AlternateContent>')
    root_attr = 'mc:Ignorable="x14ac xr" xr:uid="{00000000-0001-0000-0000-000000000000}"'
    xml = wrap(rng, "worksheet", root_attr, body, p, [("r", NS_R), ("mc", NS_MC), ("x14ac", X14AC), ("xr", XR), ("x15", X15)], pretty=pretty)
    return xml, rels, facts


PNG = bytes.fromhex("89504e470d0a1a0a0000000d4948445200000001000000010806000000" "1f15c4890000000d49444154789c6360000002000001e221bc330000000049454e44ae426082")


NAMES = [None, "odd", "root", "guid", "rels", "deep", "percent"]


def workbook(rng, opts=None):
    """A whole workbook package. opts: sheets, chain, sst, styles, pfx, layout, features, ..."""
    o = dict(opts or {})
    pk = Pkg(rng)
    pfx = o.get("pfx", "")
    pretty = o.get("pretty", rng.random() < 0.3)
    names = {"workbook": "xl/workbook.xml", "styles": "xl/styles.xml", "sst": "xl/sharedStrings.xml", "theme": "xl/theme/theme1.xml",
             "calcChain": "xl/calcChain.xml", "core": "docProps/core.xml", "app": "docProps/app.xml"}
    sheet_fmt = "xl/worksheets/sheet%d.xml"
    if o.get("names") == "odd":
        names.update(workbook="content/Book.main.xml", styles="content/fmt/My Styles.xml".replace(" ", "_"), sst="strings/pool.xml", theme="look/thème1.xml".replace("è", "e"),
                     calcChain="content/order.xml", core="meta/props.xml", app="meta/more.xml")
        sheet_fmt = "content/pages/p%d.data.xml"
    elif o.get("names") == "root":
        names.update(workbook="workbook.xml", styles="styles.xml", sst="sharedStrings.xml", theme="theme.xml", calcChain="calcChain.xml", core="core.xml", app="app.xml")
        sheet_fmt = "sheet%d.xml"
    elif o.get("names") == "guid":
        names.update(workbook="xl/workbook22.xml", sst="xl/sharedStrings7.xml", styles="xl/styles3.xml", calcChain="xl/calcChain9.xml",
                     core="package/services/metadata/core-properties/0123456789abcdef.psmdcp")
        sheet_fmt = "xl/worksheets/sheet%d0.xml"
    elif o.get("names") == "rels":
        names.update(workbook="my_rels/x_rels/book_rels.xml", styles="my_rels/x_rels/_relsstyles.xml", sst="my_rels/strings.rels.xml", theme="theme_rels.xml", core="doc_rels/core.xml", app="doc_rels/_rels2/app.xml",
                     calcChain="my_rels/chain_rels/calc.xml")
        sheet_fmt = "my_rels/x_rels/pages_rels/_rels.%d.xml"
    elif o.get("names") == "deep":
        names.update(workbook="a/b/c/d/e/workbook.xml", styles="a/b/styles.xml", sst="a/b/c/d/e/f/g/strings.xml", theme="z/theme.xml", core="a/core.xml", calcChain="a/b/c/d/calc.xml")
        sheet_fmt = "a/b/c/x/sheet%d.xml"
    elif o.get("names") == "percent":
        names.update(workbook="my%20dir/b%C3%BCch.xml", styles="my%20dir/st(1)!'$&,;=@~.xml", sst="my%20dir/+s-t.xml", theme="%E6%97%A5/theme.xml", core="doc%20Props/core.xml", calcChain="my%20dir/c%23.xml")
        sheet_fmt = "my%%20dir/sheets%%20/%d%%25.xml"
    with_styles = o.get("styles", rng.random() < 0.92)
    if with_styles:
        sx, n_xf, n_dxf = styles_xml(rng, pfx, pretty, o.get("rich_styles", True), o.get("near", ()))
    else:
        sx, n_xf, n_dxf = None, 1, 0
    with_sst = o.get("sst", rng.random() < 0.85)
    texts = []
    if with_sst:
        for _ in range(200 if o.get("many_strings") else rng.randrange(25, 60) if rng.random() < 0.07 else rng.randrange(0, 12)):
            k = rng.random()
            texts.append(("rich",) if k < 0.15 else ("phon", rng.choice(TEXTS) + "ph") if k < 0.22 else ("empty",) if k < 0.27 else rng.choice(TEXTS))
        if o.get("unique_sst"):
            seen = set()
            texts = [t for t in texts if isinstance(t, tuple) or not (t in seen or seen.add(t))]
    n_sheets = o.get("sheets", rng.choice([1, 1, 2, 3, 4, 6]))
    pool = ["Sheet1", "Data", "My Sheet", "Ünï", "日本", "A&B", "x<y>", "it's", "Sheet2", "sheet10", "Tab 'q'", "Last", "  sp  ", "Sheet7", "R1C1"]
    sheet_names = o.get("sheet_names") or rng.sample(pool, n_sheets)
    states = [rng.choice(["visible", "visible", "visible", "hidden", "veryHidden"]) for _ in range(n_sheets)]
    states[0] = "visible"
    ids = o.get("sheet_ids") or sorted(rng.sample(range(1, max(60, 2 * n_sheets)), n_sheets)) if rng.random() < 0.5 else list(range(1, n_sheets + 1))
    if rng.random() < 0.2:
        rng.shuffle(ids)
    wb_rels = []
    sheets_x = []
    all_facts = []
    rid_style = rng.choice(["rId%d", "rId%d", "rId%d", "R%d", "id_%d", "rId%d0", "case", "high"])
    num = [0]

    def rid():
        num[0] += 1
        if rid_style == "case":   # ids that differ in case alone
            return ("rId%d", "RID%d")[num[0] % 2] % ((num[0] + 1) // 2)
        if rid_style == "high":   # around the ends of integer types, first of all
            return "rId%d" % ([65536, 1, 4294967296, 65535, 4294967295, 255, 2147483647, 18446744073709551615, 9223372036854775807, 2, 99999999999999999999999][num[0] - 1] if num[0] < 12 else num[0] + 1000)
        return rid_style % num[0]
    order = list(range(n_sheets))
    file_no = list(range(1, n_sheets + 1))
    if rng.random() < 0.3:
        rng.shuffle(file_no)
    chartsheet = o.get("chartsheet", rng.random() < 0.08) and n_sheets > 1
    used_extra = set()
    for i in order:
        key = "sheet%d" % i
        r = rid()
        if chartsheet and i == n_sheets - 1:
            pk.add(key, "xl/chartsheets/sheet%d.xml" % (i + 1), CT["chartsheet"],
                   '<?xml version="1.0"?><chartsheet xmlns="%s" xmlns:r="%s"><sheetViews><sheetView workbookViewId="0"/></sheetViews></chartsheet>' % (NS_MAIN, NS_R))
            wb_rels.append((r, OD + "chartsheet", key, "Internal"))
            all_facts.append(None)
        else:
            xml, srels, facts = sheet_xml(rng, pfx, len(texts), n_xf, n_dxf, dict(o, pretty=pretty))
            part = pk.add(key, sheet_fmt % file_no[i], CT["worksheet"], "")
            for k, (tag, typ, tgt, mode) in enumerate(srels):
                srid = rng.choice(["rId%d", "rel%d"]) % (k + 1)
                while any(srid == x[0] for x in part.rels):
                    srid += "x"
                xml = xml.replace("@%s@" % tag, srid)
                if mode == "Internal":
                    ek = "%s_%d" % (tgt, i)
                    if tgt == "printer":
                        pk.add(ek, "xl/printerSettings/printerSettings%d.bin" % (i + 1), CT["printer"], bytes(rng.randrange(256) for _ in range(40)), default_ct=True)
                    elif tgt == "drawing":
                        d = pk.add(ek, "xl/drawings/drawing%d.xml" % (i + 1), CT["drawing"],
                                   '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\r\n<xdr:wsDr xmlns:xdr="http://schemas.openxmlformats.org/drawingml/2006/spreadsheetDrawing" xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main"><!-- keep --> <xdr:absoluteAnchor/></xdr:wsDr>')
                        pk.add("image%d" % i, "xl/media/image%d.png" % (i + 1), "image/png", PNG + bytes([i]), default_ct=True)
                        d.rels.append(("rId1", OD + "image", "image%d" % i, "Internal"))
                        d.rels.append(("rId2", OD + "hyperlink", "#'My Sheet'!A1", "External"))
                        if rng.random() < 0.3:
                            d.rels.append(("rId3", OD + "image", "image%d" % i, "Internal"))
                            d.rels.append(("rId4", OD + "hyperlink", "#'My Sheet'!A1", "External"))
                    elif tgt == "comments":
                        pk.add(ek, "xl/comments%d.xml" % (i + 1), CT["comments"],
                               '<?xml version="1.0"?><comments xmlns="%s"><authors><author>me</author></authors><commentList><comment ref="A1" authorId="0"><text><t xml:space="preserve"> c </t></text></comment></commentList></comments>' % NS_MAIN)
                    elif tgt == "vml":
                        pk.add(ek, "xl/drawings/vmlDrawing%d.vml" % (i + 1), CT["vml"], "<xml xmlns:v=\"urn:schemas-microsoft-com:vml\">\n <v:shape id='s'/>\n</xml>", default_ct=True)
                    elif tgt == "custprop":
                        pk.add(ek, "xl/customProperty%d.bin" % (i + 1), SHT + "customProperty", b"\x01\x00custom", default_ct=True)
                    elif tgt == "vmlhf":
                        pk.add(ek, "xl/drawings/vmlDrawingHF%d.vml" % (i + 1), CT["vml"], "<xml xmlns:v=\"urn:schemas-microsoft-com:vml\"/>", default_ct=True)
                    elif tgt == "picture":
                        pk.add(ek, "xl/media/back%d.png" % (i + 1), "image/png", PNG + b"bg", default_ct=True)
                    elif tgt == "ole":
                        pk.add(ek, "xl/embeddings/oleObject%d.ole" % (i + 1), "application/vnd.openxmlformats-officedocument.oleObject", b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1" + bytes(50), default_ct=True)
                    elif tgt == "control":
                        pk.add(ek, "xl/ctrlProps/ctrlProp%d.xml" % (i + 1), "application/vnd.ms-excel.controlproperties+xml", '<?xml version="1.0"?><formControlPr xmlns="http://schemas.microsoft.com/office/spreadsheetml/2009/9/main" objectType="Button"/>')
                    elif tgt == "table":
                        pk.add(ek, "xl/tables/table%d.xml" % (i + 1), CT["table"],
                               '<?xml version="1.0"?><table xmlns="%s" id="%d" name="T%d" displayName="T%d" ref="A1:B3"><tableColumns count="2"><tableColumn id="1" name="a"/><tableColumn id="2" name="b"/></tableColumns></table>' % (NS_MAIN, i + 1, i + 1, i + 1))
                    tgt = ek
                part.rels.append((srid, typ, tgt, mode))
            part.data = xml.encode("utf-8")
            wb_rels.append((r, OD + "worksheet", key, "Internal"))
            all_facts.append(facts)
        st = "" if states[i] == "visible" and rng.random() < 0.9 else ' state="%s"' % states[i]
        sheets_x.append('<%ssheet name="%s" sheetId="%d"%s r:id="%s"/>' % (pfx, esc(sheet_names[i], True), ids[i], st, r))
    if with_styles:
        pk.add("styles", names["styles"], CT["styles"], sx)
        wb_rels.append((rid(), OD + "styles", "styles", "Internal"))
    if with_sst:
        pk.add("sst", names["sst"], CT["sst"], sst_xml(rng, pfx, texts, pretty))
        wb_rels.append((rid(), OD + "sharedStrings", "sst", "Internal"))
    if o.get("theme", rng.random() < 0.8):
        pk.add("theme", names["theme"], CT["theme"], theme_xml())
        wb_rels.append((rid(), OD + "theme", "theme", "Internal"))
    chain = []
    for i, f in enumerate(all_facts):
        if f:
            for (r_, c_) in f["formulas"]:
                chain.append((i, r_, c_))
    if chain and o.get("chain", rng.random() < 0.75):
        if rng.random() < 0.5:
            rng.shuffle(chain)
        out = []
        cur = None
        for (i, r_, c_) in chain:
            a = 'r="%s%d"' % (col_name(c_), r_)
            if cur != ids[i] or rng.random() < 0.3:
                a += ' i="%d"' % ids[i]
                cur = ids[i]
            a += rng.choice(["", "", ' l="1"', ' s="1"', ' a="1"'])
            out.append("<%sc %s/>" % (pfx, a))
        pk.add("calcChain", names["calcChain"], CT["calcChain"], wrap(rng, "calcChain", "", out, pfx, pretty=pretty))
        wb_rels.append((rid(), OD + "calcChain", "calcChain", "Internal"))
    # workbook
    body = []
    if rng.random() < 0.8:
        body.append('<%sfileVersion appName="xl" lastEdited="7" lowestEdited="4" rupBuild="9303"/>' % pfx)
    rare = rng.random() < 0.15
    few = 0.6 if rare else 0.03
    if rng.random() < few:
        body.append('<%sfileSharing userName="me &amp; you" readOnlyRecommended="1"/>' % pfx)
    body.append('<%sworkbookPr %s/>' % (pfx, rng.choice(['date1904="1"', 'defaultThemeVersion="124226"', 'codeName="ThisWorkbook"'])))
    if rng.random() < 0.3:
        body.append('<mc:AlternateContent><mc:Choice Requires="x15"><x15ac:absPath url="C:\\x\\" xmlns:x15ac="http://schemas.microsoft.com/office/spreadsheetml/2010/11/ac"/></mc:Choice></mc:AlternateContent>')
    if rng.random() < few:
        body.append('<xr:revisionPtr xmlns:xr="http://schemas.microsoft.com/office/spreadsheetml/2014/revision" revIDLastSave="0" documentId="8_{0}"/>')
    if rng.random() < 0.3:
        body.append('<%sworkbookProtection lockStructure="1"/>' % pfx)
    vis = [i for i in range(n_sheets) if states[i] == "visible"]
    if o.get("views", rng.random() < 0.8):
        a = ['xWindow="0" yWindow="15" windowWidth="21075" windowHeight="9795"'] if rng.random() < 0.7 else []
        if rng.random() < 0.5:
            a.append('activeTab="%d"' % rng.choice(vis))
        if rng.random() < 0.3:
            lo = 257 if n_sheets > 257 and rng.random() < 0.7 else 0
            a.append('firstSheet="%s"' % (rng.choice(["%d", "%d", "%d", " %d ", "0%d"]) % rng.randrange(lo, n_sheets)))
        for k, vs in [("tabRatio", ["600", "850"]), ("visibility", ["hidden", "visible", "veryHidden"]), ("minimized", ["1", "0", "true"]), ("showHorizontalScroll", ["0", "1", "false"]),
                      ("showVerticalScroll", ["0", "1"]), ("showSheetTabs", ["0", "1"]), ("autoFilterDateGrouping", ["0", "1"])]:
            if rng.random() < 0.25:
                a.append('%s="%s"' % (k, rng.choice(vs)))
        if rng.random() < 0.5:
            a.append('xr2:uid="{00000000-000D-0000-FFFF-FFFF00000000}"')
        v2 = "".join('<%sworkbookView/>' % pfx if rng.random() < 0.15 else '<%sworkbookView xWindow="9"%s%s tabRatio="123"/>' % (pfx, ' activeTab="%d"' % rng.choice(vis) if rng.random() < 0.7 else "", ' firstSheet="%d"' % rng.randrange(n_sheets) if rng.random() < 0.4 else "")
                     for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 3])))
        body.append("<%sbookViews><%sworkbookView %s/>%s</%sbookViews>" % (pfx, pfx, " ".join(a), v2, pfx))
    body.append("<%ssheets>%s</%ssheets>" % (pfx, "".join(sheets_x), pfx))
    if rng.random() < few:
        body.append('<%sfunctionGroups builtInGroupCount="18"><%sfunctionGroup name="my group"/></%sfunctionGroups>' % ((pfx,) * 3))
    if rng.random() < 0.3:
        x = pk.add("ext0", "xl/externalLinks/externalLink1.xml", CT["externalLink"], '<?xml version="1.0"?><externalLink xmlns="%s" xmlns:r="%s"><externalBook r:id="rId1"/></externalLink>' % (NS_MAIN, NS_R))
        x.rels.append(("rId1", OD + "externalLinkPath", "file:///C:\\dir\\other book.xlsx", "External"))
        r = rid()
        wb_rels.append((r, OD + "externalLink", "ext0", "Internal"))
        body.append('<%sexternalReferences><%sexternalReference r:id="%s"/></%sexternalReferences>' % (pfx, pfx, r, pfx))
    if rng.random() < 0.5:
        dn = ['<%sdefinedName name="Glob">%s</%sdefinedName>' % (pfx, esc("'My Sheet'!$A$1:$B$2"), pfx)]
        for i in range(n_sheets):
            if rng.random() < 0.4:
                dn.append('<%sdefinedName name="_xlnm.Print_Area" localSheetId="%d"%s>%s</%sdefinedName>' % (pfx, i, rng.choice(["", ' hidden="1"']), esc("Sheet1!$A$1"), pfx))
        body.append("<%sdefinedNames>%s</%sdefinedNames>" % (pfx, "".join(dn), pfx))
    if rng.random() < 0.6:
        body.append('<%scalcPr calcId="145621" fullCalcOnLoad="1"/>' % pfx)
    if rng.random() < few:
        body.append('<%soleSize ref="A1:F9"/>' % pfx)
    if rng.random() < few:
        body.append('<%scustomWorkbookViews><%scustomWorkbookView name="v" guid="{21E13FD1-0E3C-4D6A-A1D5-1D1E5F9D1A11}" windowWidth="100" windowHeight="90" activeSheetId="%d" showSheetTabs="0"/></%scustomWorkbookViews>' % (pfx, pfx, ids[0], pfx))
    if rng.random() < few:
        x = pk.add("pivot0", "xl/pivotCache/pivotCacheDefinition1.xml", SHT + "pivotCacheDefinition+xml", '<?xml version="1.0"?><pivotCacheDefinition xmlns="%s"><cacheSource type="worksheet"/></pivotCacheDefinition>' % NS_MAIN)
        r = rid()
        wb_rels.append((r, OD + "pivotCacheDefinition", "pivot0", "Internal"))
        body.append('<%spivotCaches><%spivotCache cacheId="3" r:id="%s"/></%spivotCaches>' % (pfx, pfx, r, pfx))
    if rng.random() < few:
        body.append('<%ssmartTagPr embed="1"/>' % pfx)
    if rng.random() < few:
        body.append('<%ssmartTagTypes><%ssmartTagType namespaceUri="urn:x" name="y"/></%ssmartTagTypes>' % ((pfx,) * 3))
    if rng.random() < few:
        body.append('<%swebPublishing codePage="1252"/>' % pfx)
    if rng.random() < few:
        body.append('<%sfileRecoveryPr autoRecover="0"/>' % pfx + ('<%sfileRecoveryPr repairLoad="1"/>' % pfx if rng.random() < 0.4 else ""))
    if rng.random() < few:
        body.append('<%swebPublishObjects count="1"><%swebPublishObject id="1" divId="d" destinationFile="C:\\y.htm"/></%swebPublishObjects>' % ((pfx,) * 3))
    if rng.random() < few / 2:
        # markup compatibility may stand for any child
        body.insert(rng.randrange(len(body) + 1), '<mc:AlternateContent><mc:Choice Requires="x15"><x15:pivotCaches/></mc:Choice><mc:Fallback/></mc:AlternateContent>')
    if rng.random() < 0.4:
        body.append('<%sextLst><%sext uri="{140A7094-0E35-4892-8432-C4D2E57EDEB5}" xmlns:x15="%s"><x15:workbookPr chartTrackingRefBase="1"/></%sext></%sextLst>' % (pfx, pfx, X15, pfx, pfx))
    wb = pk.add("workbook", names["workbook"], CT["workbook"],
                wrap(rng, "workbook", 'mc:Ignorable="x15 xr2"', body, pfx, [("r", NS_R), ("mc", NS_MC), ("x15", X15), ("xr2", "http://schemas.microsoft.com/office/spreadsheetml/2015/revision2")], pretty=pretty))
    wb.data = other_r(rng, wb.data)
    while rng.random() < 0.12:
        # outside the package, whatever the target looks like
        wb_rels.append((rid(), rng.choice([OD + "hyperlink", OD + "attachedTemplate", "http://example.com/rel/x"]), rng.choice(["worksheets/sheet1.xml", "worksheets/sheet2.xml", "/xl/worksheets/sheet1.xml", "styles.xml", "sharedStrings.xml", "file:///C:\\x%20y\\b.xltx", "file:c.xlsx"]), "External"))
    if rng.random() < 0.3:
        rng.shuffle(wb_rels)
    decoys = lambda kinds: [(rid(), "%s/%s" % (rng.choice(["http://vendor.example/2020/relationships", "http://vendor.example", "urn:vendor:rel"]), k), "decoy", "Internal") for k in kinds]
    if rng.random() < 0.12:
        # a vendor's relationships whose types end like the known ones
        pk.add("decoy", "vendor/state.xml", "application/vnd.example+xml", '<state xmlns="urn:vendor"><sst/></state>')
        for r in decoys(rng.sample(["styles", "sharedStrings", "calcChain", "theme", "worksheet", "tableStyles"], 3)):
            wb_rels.insert(rng.choice([0, len(wb_rels)]), r)
    wb.rels = wb_rels
    core = o.get("core", rng.choice(["office", "office", "packaging", "odd", None]))
    rr = []
    if core:
        pk.add("core", names["core"], CT["core"], core_xml(rng, core, o.get("created", rng.choice([True, True, False, "empty"])), o.get("modified", rng.random() < 0.85)))
        rr.append(("rId%d" % rng.choice([2, 9]), REL_CORE, "core", "Internal"))
    rr.append(("rId1", REL_OFFICE, "workbook", "Internal"))
    if rng.random() < 0.6:
        pk.add("app", names["app"], CT["app"], '<?xml version="1.0"?><Properties xmlns="http://schemas.openxmlformats.org/officeDocument/2006/extended-properties"><Application>Microsoft Excel</Application></Properties>')
        rr.append(("rId3", OD + "extended-properties", "app", "Internal"))
    if "decoy" in pk.parts and rng.random() < 0.6:
        for i, r in enumerate(decoys(["officeDocument", "core-properties"])):
            rr.insert(rng.choice([0, len(rr)]), ("vRel%d" % i,) + r[1:])
    if rng.random() < 0.3:
        pk.add("thumb", "docProps/thumbnail.jpeg", "image/jpeg", b"\xff\xd8\xff" + bytes(rng.randrange(256) for _ in range(60)), default_ct=True)
        rr.append(("rId4", "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail", "thumb", "Internal"))
    if rng.random() < 0.3:
        cx = pk.add("cx", "customXml/item1.xml", None, "<?xml version='1.0'?>\n<a  b = 'c' ><!-- ]] --><d/></a >", default_ct=False)
        cx.ct = "application/xml"
        pk.add("cxp", "customXml/itemProps1.xml", "application/vnd.openxmlformats-officedocument.customXmlProperties+xml", '<?xml version="1.0"?><ds:datastoreItem xmlns:ds="urn:ds" ds:itemID="{1}"/>')
        cx.rels.append(("rId1", OD + "customXmlProps", "cxp", "Internal"))
        wb.rels.append((rid(), OD + "customXml", "cx", "Internal"))
    if rng.random() < 0.2:
        pk.add("orphan", rng.choice(["misc/unrelated.dat", "misc/unrelated.dataset", "misc/un.related.heifsequence", "misc/unrelated.x"]), "application/octet-stream", bytes(rng.randrange(256) for _ in range(100)), default_ct=True)
    if o.get("stray", rng.random() < 0.12):
        # parts nobody refers to at the names new sheets would get by counting
        for k in rng.sample([1, 2, 3], rng.choice([1, 2])):
            name = sheet_fmt % (n_sheets + k)
            if any(p.name.lower() == name.lower() for p in pk.parts.values()):
                continue
            how = rng.randrange(3)
            if how == 2:
                pk.add("stray%d" % k, (name.rsplit("/", 1)[0] + "/" if "/" in name else "") + "_rels/" + name.rsplit("/", 1)[-1] + ".rels", CT["rels"],
                       '<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="%shyperlink" Target="http://stray.example/" TargetMode="External"/></Relationships>' % OD, default_ct=True)
            else:
                pk.add("stray%d" % k, name if how else "/".join(name.split("/")[:-1] + [name.split("/")[-1].upper()]), CT["worksheet"], '<worksheet xmlns="%s"><sheetData><row r="1"><c r="A1"><v>13</v></c></row></sheetData></worksheet>' % NS_MAIN)
    if o.get("big"):
        pk.add("big", "xl/media/big.bin", "application/octet-stream", rng.randbytes(o["big"]), default_ct=True)
        wb.rels.append((rid(), OD + "image", "big", "Internal"))
    pk.root_rels = rr
    for part in list(pk.parts.values()):
        again = [r for r in part.rels if r[3] == "Internal" and r[1].rsplit("/", 1)[-1] in ("printerSettings", "drawing", "image", "customXml", "oleObject", "externalLink", "customProperty", "chart")]
        if again and rng.random() < 0.08:   # two ids for one part
            r = rng.choice(again)
            part.rels.insert(rng.randrange(len(part.rels) + 1), ("rIdTwin",) + r[1:])
    meta = dict(sheet_names=sheet_names, states=states, ids=ids, facts=all_facts, n_xf=n_xf, chartsheet=chartsheet, texts=len(texts))
    return pk, meta


def layout(rng, kind="any"):
    if kind == "plain":
        return {}
    return {k: v for k, v in dict(
        spell=rng.choice(["plain", "plain", "abs", "dotted", "dotslash", "mixed"]),
        rels_prefix=rng.random() < 0.12, target_case=rng.random() < 0.1, ct_prefix=rng.random() < 0.12, ext_upper=rng.random() < 0.12, override_upper=rng.random() < 0.1,
        ct_last=rng.random() < 0.3, shuffle=rng.random() < 0.2, dir_entries=rng.random() < 0.15, bom=rng.random() < 0.15,
        stored=rng.random() < 0.15, pretty=rng.random() < 0.2).items() if v}


def office(rng, kind):
    """A Word or PowerPoint package."""
    pk = Pkg(rng)
    if kind == "word":
        d = pk.add("main", "word/document.xml", CT["document"], '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\r\n<w:document xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main"  xmlns:r="%s"><w:body><w:p><w:r><w:t xml:space="preserve"> hi </w:t></w:r></w:p></w:body></w:document>' % NS_R)
        pk.add("st", "word/styles.xml", "application/vnd.openxmlformats-officedocument.wordprocessingml.styles+xml", '<w:styles xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main"/>')
        d.rels += [("rId1", OD + "styles", "st", "Internal"), ("rId2", OD + "hyperlink", "http://x.example/?a=b&c", "External")]
        pk.add("img", "word/media/image1.png", "image/png", PNG, default_ct=True)
        d.rels.append(("rId7", OD + "image", "img", "Internal"))
    else:
        d = pk.add("main", "ppt/presentation.xml", CT["presentation"], '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<p:presentation xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main" xmlns:r="%s"><p:sldIdLst><p:sldId id="256" r:id="rId2"/></p:sldIdLst></p:presentation>' % NS_R)
        s = pk.add("slide", "ppt/slides/slide1.xml", CT["slide"], '<p:sld xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main"><p:cSld/></p:sld>')
        d.rels.append(("rId2", OD + "slide", "slide", "Internal"))
        pk.add("img", "ppt/media/image1.png", "image/png", PNG, default_ct=True)
        s.rels.append(("rId1", OD + "image", "img", "Internal"))
    core = rng.choice(["office", "packaging", "odd", None])
    rr = [("rId1", REL_OFFICE, "main", "Internal")]
    if core:
        pk.add("core", "docProps/core.xml", CT["core"], core_xml(rng, core, rng.choice([True, False, "empty"]), rng.random() < 0.8))
        rr.append(("rId2", REL_CORE, "core", "Internal"))
    pk.add("app", "docProps/app.xml", CT["app"], "<?xml version='1.0'?><Properties xmlns='http://schemas.openxmlformats.org/officeDocument/2006/extended-properties'/>")
    rr.append(("rId3", OD + "extended-properties", "app", "Internal"))
    if rng.random() < 0.5:
        pk.add("cust", "docProps/custom.xml", CT["custom"], "<?xml version='1.0'?><Properties xmlns='http://schemas.openxmlformats.org/officeDocument/2006/custom-properties'/>")
        rr.append(("rId4", OD + "custom-properties", "cust", "Internal"))
    if rng.random() < 0.4:
        pk.add("thumb", "docProps/thumbnail.jpeg", "image/jpeg", b"\xff\xd8\xff" + rng.randbytes(60), default_ct=True)
        rr.append(("rId5", "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail", "thumb", "Internal"))
    for i in range(rng.randrange(0, 4)):
        pk.add("x%d" % i, "any/place%d/data.%s" % (i, rng.choice(["bin", "dat", "xml"])), "application/x-thing-%d" % i, rng.randbytes(rng.randrange(0, 2000)))
    pk.root_rels = rr
    return pk


OPAQUE_DIRS = ["", "misc/", "customXml/", "xl/media/", "xl/embeddings/", "word/media/", "ppt/embeddings/", "_xmlsignatures/", "a/b/c/d/e/f/g/", "xl/worksheets/", "Media Files/", "docProps/", "\u00e9t\u00e9/", "_rels2/", "xl/_other/", "x%20y/"]
OPAQUE_STEMS = ["data", "DATA", "image1", "Sheet 1 copy", "\u65e5\u672c\u8a9e", "b\u00fcro", "pa%20ck", "pct%C3%A9", "dots.in.name", "-", "~tmp", "x" * 120, "sheet1", "workbook", "core", "plus+and&amp", "semi;colon", "(1)", "[trash]", "rels"]
OPAQUE_EXTS = [".bin", ".BIN", ".xml", ".XML", ".Xml", ".dat", ".png", ".JPEG", ".vml", ".emf", ".rdf", "", ".x-y_z", ".xlsx", ".zip", ".tar.gz", ".sigs", ".json", ".\u00e9"]


def opaque_bytes(rng):
    k = rng.randrange(14)
    if k == 0:
        return b""
    if k == 1:
        return rng.randbytes(rng.choice([65535, 65536, 65537, 70000, 200000]))
    if k == 2:
        return b"\x00" * rng.choice([1, 1000, 100000])
    if k == 3:
        return bytes(range(256)) * rng.randrange(1, 40)
    if k == 4:
        return b"<?xml version='1.0'?>\r\n<a  b = 'c' ><!-- ]] --><d/>\ttext &#10; &amp; </a >\n\n"
    if k == 5:
        return b"<not well formed" + rng.randbytes(20)
    if k == 6:
        return "\ufeff<?xml version=\"1.0\" encoding=\"utf-16\"?><a>\u00e9</a>".encode("utf-16-le")
    if k == 7:
        return b"\xef\xbb\xbf<?xml version=\"1.0\"?><worksheet xmlns=\"" + NS_MAIN.encode() + b"\"><sheetData/></worksheet>"
    if k == 8:
        return b"PK\x03\x04" + rng.randbytes(100)
    if k == 9:
        return b"\r\n" * rng.randrange(1, 50)
    if k == 10:
        return b"a" * rng.choice([1, 2, 3, 255, 256, 4095, 4096, 4097, 8192])
    return rng.randbytes(rng.randrange(1, 3000))


def opaque(rng, pk):
    """Adds parts of no kind the library knows: odd names, odd content, referred to from anywhere or nowhere."""
    used = {p.name.lower() for p in pk.parts.values()}
    exts = {}
    added = []
    for i in range(rng.randrange(2, 14)):
        name = rng.choice(OPAQUE_DIRS) + rng.choice(OPAQUE_STEMS) + rng.choice(OPAQUE_EXTS)
        low = name.lower()
        if low in ("docprops/core.xml", "xl/workbook.xml", "xl/worksheets/sheet1.xml"):
            continue    # the names the library gives to parts of its own
        if low in used or low.endswith(".rels") or any(u.startswith(low + "/") or low.startswith(u + "/") for u in used):
            continue
        used.add(low)
        ext = low.rsplit(".", 1)[1] if "." in low.rsplit("/", 1)[-1] else None
        ct = rng.choice(["application/octet-stream", "image/png", "application/vnd.openxmlformats-package.digital-signature-xmlsignature+xml", "application/x-thing; charset=utf-8", "text/xml", "application/xml"])
        default = ext is not None and ext.isascii() and ext.isalnum() and ext not in ("xml", "rels") and rng.random() < 0.5
        if default:
            ct = exts.setdefault(ext, ct)
        p = pk.add("opq%d" % i, name, ct, opaque_bytes(rng), default_ct=default)
        added.append("opq%d" % i)
        if rng.random() < 0.4 and name.isascii():
            for j in range(rng.randrange(1, 4)):
                k = rng.randrange(4)
                if k == 0:
                    p.rels.append(("rId%d" % j, OD + "hyperlink", rng.choice(["http://example.com/?a=1&b=<2>", "mailto:a@b.c", "file:///C:\\dir\\x y.xlsx", "../outside.bin", "#Sheet1!A1"]), "External"))
                elif k == 1 and [a for a in added if pk.parts[a].name.isascii()]:
                    p.rels.append(("R%dx" % j, "http://example.com/rel/" + rng.choice(["a", "b", "A"]), rng.choice([a for a in added if pk.parts[a].name.isascii()]), "Internal"))
                elif k == 2:
                    p.rels.append(("id-%d.z" % j, OD + "image", rng.choice(["http://example.com/x.png", "x.png"]), "External"))
    owners = [p for k, p in pk.parts.items() if not k.startswith("opq")]
    for a in added:
        if rng.random() < 0.7 and pk.parts[a].name.isascii() and "%" not in pk.parts[a].name and " " not in pk.parts[a].name:
            if rng.random() < 0.5:
                pk.root_rels.append(("rOpq" + a[3:], "http://example.com/rel/opaque", a, "Internal"))
            else:
                o = rng.choice(owners)
                o.rels.append(("rOpq" + a[3:], rng.choice(["http://example.com/rel/opaque", OD + "customXml", OD + "package", OD + "oleObject"]), a, "Internal"))
    return added
