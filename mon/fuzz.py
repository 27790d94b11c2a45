"""C16: damaged and hostile packages and arguments; monitors for panics, aborts, CPU time and peak heap."""
import collections, io, json, os, re, struct, zipfile
import fixtures, gen, respell, units
from harness import Disc
from units import U, generator, judge
from pkg import col_name

NUMS = ["", "0", "-1", "1", "2147483647", "2147483648", "4294967295", "4294967296", "-2147483649", "18446744073709551615", "18446744073709551616", "65535", "65536", "16384", "16385", "1048576", "1048577",
        "1e9", "1e400", "NaN", "inf", "-0", "0x10", " 1", "1 ", "+1", "1.5", "\u0663", "99999999999999999999999999", "true", "false", "TRUE", "rId1", "rId999", "A1", "XFD1048576", "A0", "ZZZZ1", "A1048577",
        "1:1", "A1:", ":A1", "A1:B2:C3", "B2:A1", "A1:XFD1048576", "1:3 5:7", "s", "str", "inlineStr", "b", "e", "n", "d", "\u00e9\u00e8", "x" * 3000, "&amp;&lt;", "hidden", "veryHidden", "visible", "solid", "164", "49", "255"]
TARGETS = ["", ".", "..", "/", "//", "../../../../etc/passwd", "/etc/passwd", "workbook.xml", "/xl/workbook.xml", "worksheets/", "worksheets/sheet1.xml", "../[Content_Types].xml", "[Content_Types].xml", "_rels/workbook.xml.rels", "/_rels/.rels",
           "#frag", "?q", "http://x/", "missing.xml", "%2e%2e/x", "a\\b", "styles.xml", "sharedStrings.xml", "./././styles.xml", "x/" * 500 + "y.xml", "\u00fc.xml", "docProps/core.xml", "nul", "file:///etc/passwd"]
TOKEN = re.compile(rb"<!--.*?-->|<!\[CDATA\[.*?\]\]>|<[^>]*>|[^<]+", re.S)
ATTR = re.compile(rb"([\w:.-]+)\s*=\s*(\"[^\"]*\"|'[^']*')")


def hostile_value(rng):
    return rng.choice(NUMS if rng.random() < 0.8 else TARGETS).replace("&", "&amp;").replace('"', "&quot;").replace("<", "&lt;").encode()


def subtree_end(toks, i):
    """Index behind the element that starts at token i."""
    depth = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.startswith(b"<?") or t.startswith(b"<!") or not t.startswith(b"<"):
            continue
        if t.startswith(b"</"):
            depth -= 1
        elif not t.endswith(b"/>"):
            depth += 1
        if depth <= 0:
            return j + 1
    return len(toks)


def mutate_xml(rng, data, others):
    toks = TOKEN.findall(data)
    if len(toks) < 3:
        return data + rng.choice([b"", b"<a/>", b"\x00"])
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        if not toks:
            break
        k = rng.randrange(20)
        i = rng.randrange(len(toks))
        tags = [j for j, t in enumerate(toks) if t.startswith(b"<") and not t.startswith((b"</", b"<?", b"<!"))]
        atags = [j for j in tags if b"=" in toks[j]]
        if k < 7 and atags:
            # a hostile attribute value; leave the declarations of namespaces alone most of the time
            j = rng.choice(atags)
            ms = [m for m in ATTR.finditer(toks[j]) if not m.group(1).startswith(b"xmlns") or rng.random() < 0.1]
            if ms:
                m = rng.choice(ms)
                toks[j] = toks[j][:m.start(2)] + b'"' + hostile_value(rng) + b'"' + toks[j][m.end(2):]
        elif k == 7 and atags:
            j = rng.choice(atags)
            ms = list(ATTR.finditer(toks[j]))
            if ms:
                m = rng.choice(ms)
                toks[j] = toks[j][:m.start()] + toks[j][m.end():]
        elif k == 8 and tags:
            j = rng.choice(tags)
            e = subtree_end(toks, j)
            n = rng.choice([1, 2, 2, 10, 300])
            if (e - j) * n < 20000:
                toks[j:j] = toks[j:e] * n
        elif k == 9 and tags:
            j = rng.choice(tags)
            del toks[j:subtree_end(toks, j)]
        elif k == 10 and len(tags) > 1:
            a, c = sorted(rng.sample(tags, 2))
            ea = subtree_end(toks, a)
            if ea <= c:
                ec = subtree_end(toks, c)
                toks = toks[:a] + toks[c:ec] + toks[ea:c] + toks[a:ea] + toks[ec:]
        elif k == 11 and tags:
            # move a subtree into another element
            j = rng.choice(tags)
            e = subtree_end(toks, j)
            part = toks[j:e]
            del toks[j:e]
            if toks:
                x = rng.randrange(len(toks))
                toks[x:x] = part
        elif k == 12 and tags and others:
            o = TOKEN.findall(rng.choice(others))
            ot = [j for j, t in enumerate(o) if t.startswith(b"<") and not t.startswith((b"</", b"<?", b"<!"))]
            if ot:
                x = rng.choice(ot)
                j = rng.choice(tags)
                toks[j:j] = o[x:subtree_end(o, x)]
        elif k == 13:
            texts = [j for j, t in enumerate(toks) if not t.startswith(b"<") and t.strip()]
            if texts:
                toks[rng.choice(texts)] = hostile_value(rng)
            elif tags:
                toks.insert(rng.choice(tags) + 1, hostile_value(rng))
        elif k == 14:
            del toks[i]
        elif k == 15:
            toks[i:i] = [rng.choice([b"<a>", b"</a>", b"<a/>", b"<x:y/>", b"text", b"<!DOCTYPE a [<!ENTITY x 'y'>]>", b"&x;", b"<![CDATA[", b"]]>", b"<?p ?>", b"<!-- -->", b"\x00", b"\xff\xfe", b"&#0;", b"&#x110000;"])]
        elif k == 16 and tags:
            j = rng.choice(tags)
            m = re.match(rb"<([\w:.-]+)", toks[j])
            if m:
                old, new = m.group(1), rng.choice([b"sheet", b"row", b"c", b"cols", b"col", b"xf", b"si", b"t", b"a", b"sheetData", b"font", b"Relationship", b"Override", b"workbookView"])
                e = subtree_end(toks, j)
                toks[j] = b"<" + new + toks[j][m.end():]
                if e - 1 > j and toks[e - 1] == b"</" + old + b">":
                    toks[e - 1] = b"</" + new + b">"
        elif k == 17 and atags:
            j = rng.choice(atags)
            m = rng.choice(list(ATTR.finditer(toks[j])) or [None])
            if m:
                toks[j] = toks[j][:m.end()] + b" " + rng.choice([m.group(1) + b"2", b"r", b"s", b"t", b"count", b"x:" + m.group(1)]) + b"=" + m.group(2) + toks[j][m.end():]
        elif k == 18:
            out = b"".join(toks)
            x = rng.randrange(len(out))
            return out[:x] + rng.choice([b"", bytes([rng.randrange(256)]), rng.randbytes(5)]) + out[x + rng.choice([0, 1, 1, 10]):]
        elif k == 19 and rng.random() < 0.3:
            n = rng.choice([50, 500, 5000, 30000])
            x = rng.choice(tags) if tags else 0
            toks[x:x] = [b"<d>" * n, b"</d>" * n]
    return b"".join(toks)


def mutate_zip(rng, raw):
    b = bytearray(raw)
    for _ in range(rng.choice([1, 1, 2, 5])):
        k = rng.randrange(7)
        n = len(b)
        if n < 30:
            break
        if k == 0:
            b[rng.randrange(n)] ^= 1 << rng.randrange(8)
        elif k == 1:
            del b[rng.randrange(n):]
        elif k == 2:
            x = rng.randrange(n)
            del b[x:x + rng.choice([1, 4, 100])]
        elif k == 3:
            # a field of the central directory or of the end record
            sigs = [m.start() for m in re.finditer(rb"PK\x01\x02|PK\x05\x06|PK\x03\x04", bytes(b))]
            x = rng.choice(sigs) + rng.choice([4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34, 42])
            v = rng.choice([0, 1, 0xffff, 0xffffffff, 0x7fffffff, 8, 9, 12, 99, rng.getrandbits(32)])
            w = struct.pack("<I", v)[:rng.choice([2, 4])]
            b[x:x + len(w)] = w
        elif k == 4:
            x = rng.randrange(n)
            b[x:x] = rng.randbytes(rng.choice([1, 8, 200]))
        elif k == 5:
            b += rng.choice([b"PK\x05\x06" + b"\0" * 18, rng.randbytes(50), bytes(b[-22:])])
        else:
            x = rng.randrange(n)
            y = rng.randrange(n)
            b[x:x + 16] = b[y:y + 16]
    return bytes(b)


def work(rng, uid, kind, src):
    """Whatever can be opened is listed, edited in many ways, saved, opened again and saved again."""
    ops = [dict(op="open", kind=kind, path=src)]
    ext = src.rsplit(".", 1)[1]
    if kind == "excel":
        ops.append(dict(op="list"))
        pool = []
        for j in range(3):
            h = "h%d" % j
            pool.append([dict(op="get_sheet", name={"nth": j}, h=h), dict(op="row_ref", h=h, ref=rng.choice(["A1", "C2", "XFD1048576", "B5"]), cells=[{"v": "x"}, {"t": "Number", "v": "1"}][:1 + (rng.random() < 0.3)]),
                         dict(op="row_props", h=h, row=rng.choice([1, 2, 5]), p={"height": 9, "hidden": True}), dict(op="col_idx", h=h, col=rng.choice([1, 2, 3, 5]), p=rng.choice([None, {"width": 7}])),
                         dict(op="delete_sheet" if rng.random() < 0.15 else "close", h=h)])
        pool.append([dict(op="style", id="s1", style=gen.style(rng, 0.5)), dict(op="style", id="s2", style={})])
        pool.append([dict(op="add_sheet", name="added", h="n"), dict(op="row_ref", h="n", ref="B2", cells=[{"v": "text", "s": "s1"}] if rng.random() < 0.3 else [{"v": "text"}]), dict(op="close", h="n")])
        pool.append([dict(op="rename", old={"nth": 0}, new="renamed"), dict(op="hide", name={"nth": 1}), dict(op="active", name={"nth": 0})])
        pool.append([dict(op="visibility", on=False), dict(op="minimize", on=True), dict(op="hide_tabs", on=True)])
        rng.shuffle(pool)
        for p in pool[:rng.randint(1, len(pool))]:
            ops += p
    ops.append(dict(op="save", path="%s_o.%s" % (uid, ext)))
    if rng.random() < 0.4:
        ops += [dict(op="open", kind=kind, path="%s_o.%s" % (uid, ext)), dict(op="save", path="%s_p.%s" % (uid, ext))]
    return ops


def base(rng):
    kind = rng.choice(["excel"] * 8 + ["word", "ppt"])
    if kind == "excel":
        pk, _ = fixtures.workbook(rng, {})
    else:
        pk = fixtures.office(rng, kind)
    f = io.BytesIO()
    pk.write(f, fixtures.layout(rng))
    return kind, f.getvalue()


def single_mutants(parts):
    """Every single structural damage of the parts, one per element path and attribute: (part, what, bytes)."""
    seen = set()
    for name in sorted(parts):
        if not name.endswith((".xml", ".rels")):
            continue
        kind = re.sub(r"[0-9]+", "", name)
        data = parts[name]
        toks = TOKEN.findall(data)
        path = []
        yield name, "missing", None
        for t in (b"", b"<a/>", b"<?xml version='1.0'?><a xmlns='urn:x'><b/></a>", data[:len(data) // 2], data * 2):
            yield name, "whole part", t
        for j, t in enumerate(toks):
            if t.startswith((b"<?", b"<!")):
                continue
            if not t.startswith(b"<"):
                key = (kind, tuple(path), "text")
                if t.strip() and key not in seen:
                    seen.add(key)
                    for v in (b"", b" ", b"-1", b"99999999999999999999", b"x", b"1.5", b"NaN", b"&#xE9;\xf0\x9f\x98\x80"):
                        yield name, "text of %s" % b"/".join(path).decode(), b"".join(toks[:j] + [v] + toks[j + 1:])
                continue
            if t.startswith(b"</"):
                if path:
                    path.pop()
                continue
            tag = re.match(rb"<([^\s/>]+)", t).group(1)
            here = tuple(path) + (tag,)
            where = b"/".join(here).decode("utf-8", "replace")
            end = subtree_end(toks, j)
            key = (kind, here)
            if key not in seen:
                seen.add(key)
                sub = toks[j:end]
                yield name, "no " + where, b"".join(toks[:j] + toks[end:])
                yield name, "two " + where, b"".join(toks[:end] + sub + toks[end:])
                yield name, "empty " + where, b"".join(toks[:j] + [b"<" + tag + b"/>"] + toks[end:])
                if end - j > 1:
                    yield name, "childless " + where, b"".join(toks[:j + 1] + toks[end - 1:])
                    yield name, "text in " + where, b"".join(toks[:j + 1] + [b"7"] + toks[j + 1:])
                    yield name, "foreign in " + where, b"".join(toks[:j + 1] + [b"<x:y xmlns:x='urn:x' r='1' s='999'/>"] + toks[j + 1:])
                    yield name, "itself in " + where, b"".join(toks[:j + 1] + sub + toks[j + 1:])
                ren = [b"<x:" + tag + b" xmlns:x='urn:x'" + t[1 + len(tag):]]
                yield name, "other namespace " + where, b"".join(toks[:j] + ren + toks[j + 1:end - 1] + ([b"</x:" + tag + b">"] if end - j > 1 else []) + toks[end:])
            for m in ATTR.finditer(t):
                key = (kind, here, m.group(1))
                if key in seen:
                    continue
                seen.add(key)
                cut = lambda v: b"".join(toks[:j] + [t[:m.start()] + v + t[m.end():]] + toks[j + 1:])
                yield name, "no %s of %s" % (m.group(1).decode(), where), cut(b"")
                for v in ("", "-1", "0", "4294967296", "99999999999999999999", "x", "\u00e9\u20ac", "1.5", " 2 ", "A0", "XFE1", "../..", "a b"):
                    yield name, "%s=%r of %s" % (m.group(1).decode(), v, where), cut(m.group(1) + b'="' + v.encode() + b'"')
        if not name.startswith("_rels") and "media" not in name:
            yield name, "depth", b"".join(toks[:-1] + [b"<d>" * 300 + b"</d>" * 300] + toks[-1:])


@generator
def mutants(rng, b, uid, arg):
    """Every single damage of one workbook with much in it. arg: (workbook, slice, slices)"""
    import random
    which, part, of = arg
    r = random.Random("mutants %d" % which)
    pk, _ = fixtures.workbook(r, dict(sst=True, styles=True, chain=True, theme=True, core="office", sheets=3, chartsheet=which % 3 == 2, pretty=False, views=True))
    f = io.BytesIO()
    pk.write(f, {})
    zi = zipfile.ZipFile(f)
    parts = {i.filename: zi.read(i) for i in zi.infolist() if not i.filename.endswith("/")}
    known = {n: d for n, d in parts.items() if re.search(r"Content_Types|rels$|workbook|sheet|tyles|trings|core|hain|theme", n)}
    cases = []
    for n, (name, what, data) in enumerate(single_mutants(known)):
        if n % of != part:
            continue
        cid = "%s_%d" % (uid, n)
        with zipfile.ZipFile(b.path(cid + ".xlsx"), "w", zipfile.ZIP_STORED) as zo:
            for k, v in parts.items():
                v = data if k == name else v
                if v is not None:
                    zo.writestr(zipfile.ZipInfo(k), v)
        ops = [dict(op="open", path=cid + ".xlsx"), dict(op="list")]
        for j in range(3):
            h = "h%d" % j
            ops += [dict(op="get_sheet", name={"nth": j}, h=h), dict(op="row_ref", h=h, ref="B2", cells=[{"v": "x"}, {"v": "1"}]), dict(op="row_props", h=h, row=1, p={"height": 9}), dict(op="col_idx", h=h, col=2, p={"width": 7}), dict(op="close", h=h)]
        ops += [dict(op="style", id="s1", style={"is_bold": True, "border_left": {"style": "Thin"}}), dict(op="add_sheet", name="added", h="n"), dict(op="row_ref", h="n", ref="B2", cells=[{"v": "text"}]), dict(op="close", h="n"),
                dict(op="rename", old={"nth": 0}, new="renamed"), dict(op="hide", name={"nth": 1}), dict(op="active", name={"nth": 0}), dict(op="hide_tabs", on=True),
                dict(op="get_sheet", name={"nth": 1}, h="d"), dict(op="delete_sheet", h="d"), dict(op="save", path=cid + "_o.xlsx"), dict(op="open", path=cid + "_o.xlsx"), dict(op="list"), dict(op="save", path=cid + "_p.xlsx")]
        cases.append({"id": cid, "ops": ops, "files": [cid + ".xlsx"]})
    return U(uid, "survives", cases, name="mutant")


@generator
def fuzz(rng, b, uid, arg):
    kind, raw = base(rng)
    ext = {"excel": "xlsx", "word": "docx", "ppt": "pptx"}[kind]
    cases = []
    for n in range(6):
        how = rng.random()
        if how < 0.2:
            out = mutate_zip(rng, raw)
        else:
            zi = zipfile.ZipFile(io.BytesIO(raw))
            parts = {i.filename: zi.read(i) for i in zi.infolist() if not i.filename.endswith("/")}
            xmls = [p for p in parts if p.endswith((".xml", ".rels"))]
            core = [p for p in xmls if "sheet" in p.lower() or "workbook" in p.lower() or "tyle" in p or "tring" in p or "rels" in p or "ypes" in p or "core" in p]
            for _ in range(rng.choice([1, 1, 2, 3])):
                p = rng.choice(core if core and rng.random() < 0.85 else xmls)
                k = rng.random()
                if k < 0.86:
                    parts[p] = mutate_xml(rng, parts[p], [parts[x] for x in xmls])
                elif k < 0.9:
                    parts[p] = parts[rng.choice(xmls)]
                elif k < 0.94:
                    parts[p] = rng.choice([b"", b"\x00" * 100, rng.randbytes(200), b"<a/>", b"\xef\xbb\xbf", b"<?xml version='1.0'?>"])
                elif len(parts) > 2:
                    d = parts.pop(p)
                    if rng.random() < 0.3:
                        parts[rng.choice(["", "/", "../up.xml", "/abs.xml", "a\\b.xml", p.upper(), p + "/", "C:\\x.xml", "\u00e9" * 300, "x/" * 200 + "y"])] = d
                    xmls = [x for x in xmls if x in parts]
                    core = [x for x in core if x in parts]
            f = io.BytesIO()
            with zipfile.ZipFile(f, "w", zipfile.ZIP_DEFLATED if rng.random() < 0.8 else zipfile.ZIP_STORED) as zo:
                for name, d in parts.items():
                    zo.writestr(zipfile.ZipInfo(name or "_"), d, zipfile.ZIP_DEFLATED)
                    if rng.random() < 0.01:
                        import warnings
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            zo.writestr(zipfile.ZipInfo(name or "_"), d[:-1])
            out = f.getvalue()
        cid = "%s_%d" % (uid, n)
        with open(b.path("%s.%s" % (cid, ext)), "wb") as f:
            f.write(out)
        cases.append({"id": cid, "ops": work(rng, cid, kind if rng.random() < 0.95 else rng.choice(["excel", "word", "ppt"]), "%s.%s" % (cid, ext)), "files": ["%s.%s" % (cid, ext)]})
    return U(uid, "survives", cases)


def xlsx(b, name, sheet=None, **parts):
    """A small workbook with chosen parts."""
    import random
    pk, _ = fixtures.workbook(random.Random(3), dict(sheets=1, sheet_names=["Data"], chartsheet=False, sst=True, styles=True, chain=False, core="office"))
    if sheet is not None:
        pk.parts["sheet0"].data = sheet
        pk.parts["sheet0"].rels = []
    for k, v in parts.items():
        pk.parts[k].data = v
    pk.write(b.path(name), {})


SHEET = b'<?xml version="1.0"?><worksheet xmlns="' + fixtures.NS_MAIN.encode() + b'">%s</worksheet>'
STUFF = dict(op="row_ref", h="h", ref="B2", cells=[{"v": "x"}])


def shapes():
    """Hostile shapes built on purpose: {name: (sheet or None, {part: data})}."""
    M = fixtures.NS_MAIN.encode()
    d = {}
    for n in (1000, 20000, 200000):
        d["nested%d" % n] = lambda n=n: (SHEET % (b"<sheetData/>" + b"<extLst>" + b"<e>" * n + b"</e>" * n + b"</extLst>"), {})
    d["nested_cell"] = lambda: (SHEET % (b"<sheetData><row r=\"1\"><c r=\"A1\" t=\"inlineStr\"><is>" + b"<r>" * 5000 + b"<t>x</t>" + b"</r>" * 5000 + b"</is></c></row></sheetData>"), {})
    d["unclosed"] = lambda: (SHEET[:-len(b"</worksheet>") - 2] % () + b"<e>" * 100000, {})
    d["attrs"] = lambda: (SHEET % (b"<sheetData/><x " + b" ".join(b'a%d="%d"' % (i, i) for i in range(20000)) + b"/>"), {})
    d["attr_long"] = lambda: (SHEET % (b'<sheetData/><x a="' + b"y" * 3000000 + b'"/>'), {})
    d["name_long"] = lambda: (SHEET % (b"<sheetData/><" + b"n" * 1000000 + b"/>"), {})
    d["laughs"] = lambda: (b'<?xml version="1.0"?><!DOCTYPE w [<!ENTITY a "ha">' + b"".join(b'<!ENTITY %c "%s">' % (98 + i, (b"&%c;" % (97 + i)) * 10) for i in range(9)) + b']><worksheet xmlns="' + M + b'"><sheetData><row><c t="str"><v>&j;</v></c></row></sheetData></worksheet>', {})
    d["external_entity"] = lambda: (b'<?xml version="1.0"?><!DOCTYPE w [<!ENTITY x SYSTEM "file:///etc/passwd">]><worksheet xmlns="' + M + b'"><sheetData><row r="1"><c r="A1" t="str"><v>&x;</v></c></row></sheetData></worksheet>', {})
    d["wide_dimension"] = lambda: (SHEET % b'<dimension ref="A1:XFD1048576"/><cols><col min="1" max="16384" width="9"/></cols><sheetData/>', {})
    d["col_huge"] = lambda: (SHEET % b'<cols><col min="1" max="4294967295" width="9"/><col min="4294967295" max="1"/><col min="0" max="0"/><col/></cols><sheetData/>', {})
    d["col_reverse"] = lambda: (SHEET % b'<cols><col min="9" max="3" width="9"/><col min="5" max="5"/><col min="1" max="16384"/></cols><sheetData/>', {})
    d["row_odd"] = lambda: (SHEET % b'<sheetData><row r="0"/><row r="4294967295"/><row r="5"/><row r="5"/><row r="3"/><row/><row r="-1"/><row r="x"/></sheetData>', {})
    d["row_last"] = lambda: (SHEET % b'<sheetData><row r="1048576"><c r="XFD1048576"/><c/></row><row/></sheetData>', {})
    d["row_last2"] = lambda: (SHEET % b'<sheetData><row r="4294967295"/><row><c/></row></sheetData>', {})
    d["cell_odd"] = lambda: (SHEET % b'<sheetData><row r="1"><c r="XFD1"/><c/><c r="A2"/><c r="ZZZZZZZ1"/><c r=""/><c r="1"/><c r="A"/><c r="\xc3\xa91"/></row></sheetData>', {})
    d["sst_index"] = lambda: (SHEET % b'<sheetData><row r="1"><c r="A1" t="s"><v>4294967295</v></c><c r="B1" t="s"><v>-1</v></c><c r="C1" t="s"><v>x</v></c><c r="D1" t="s"/><c r="E1" t="s"><v></v></c></row></sheetData>', {})
    d["style_index"] = lambda: (SHEET % b'<sheetData><row r="1" s="4294967295" customFormat="1"><c r="A1" s="4294967295"/><c r="B1" s="99999"/><c r="C1" s="-1"/></row></sheetData>', {})
    d["spans"] = lambda: (SHEET % b'<sheetData><row r="1" spans="1:99999999999"><c r="A1"/></row><row r="2" spans="x"/><row r="3" spans="5:1"/></sheetData>', {})
    d["many_rows"] = lambda: (SHEET % (b"<sheetData>" + b"".join(b'<row r="%d"/>' % i for i in range(1, 60001)) + b"</sheetData>"), {})
    d["many_cells"] = lambda: (SHEET % (b"<sheetData>" + b"".join(b'<row r="%d">' % r + b"".join(b'<c r="%s%d"><v>1</v></c>' % (col_name(c).encode(), r) for c in range(1, 101)) + b"</row>" for r in range(1, 401)) + b"</sheetData>"), {})
    d["merges"] = lambda: (SHEET % (b"<sheetData/><mergeCells>" + b"".join(b'<mergeCell ref="A%d:B%d"/>' % (i, i) for i in range(1, 30001)) + b"</mergeCells>"), {})
    st = b'<?xml version="1.0"?><styleSheet xmlns="' + M + b'">%s</styleSheet>'
    d["style_empty"] = lambda: (None, {"styles": st % b""})
    d["style_counts"] = lambda: (None, {"styles": st % b'<fonts count="4294967295"/><fills count="-1"><fill/></fills><borders count="0"><border/></borders><cellXfs count="99999999999"><xf numFmtId="4294967295" fontId="4294967295" fillId="7" borderId="-1" xfId="9"/></cellXfs>'})
    d["style_numfmt"] = lambda: (None, {"styles": st % b'<numFmts count="2"><numFmt numFmtId="4294967295" formatCode="0"/><numFmt numFmtId="65535" formatCode="0.0"/><numFmt/></numFmts><fonts><font/></fonts><fills><fill/></fills><borders><border/></borders><cellXfs><xf/></cellXfs>'})
    d["style_many"] = lambda: (None, {"styles": st % (b"<fonts>" + b"".join(b'<font><sz val="%d"/></font>' % i for i in range(5000)) + b"</fonts><fills><fill/></fills><borders><border/></borders><cellXfs>" + b"".join(b'<xf fontId="%d"/>' % i for i in range(5000)) + b"</cellXfs>")})
    d["style_deep"] = lambda: (None, {"styles": st % (b'<fonts><font/></fonts><fills><fill/></fills><borders><border/></borders><cellXfs><xf>' + b"<a>" * 150000 + b"</a>" * 150000 + b"</xf></cellXfs>")})
    d["font_deep"] = lambda: (None, {"styles": st % (b'<fonts><font/><font>' + b"<a>" * 150000 + b"</a>" * 150000 + b"</font></fonts><fills><fill/></fills><borders><border/></borders><cellXfs><xf/></cellXfs>")})
    d["core_deep"] = lambda: (None, {"core": b'<cp:coreProperties xmlns:cp="http://schemas.openxmlformats.org/package/2006/metadata/core-properties">' + b"<cp:a>" * 150000 + b"</cp:a>" * 150000 + b"</cp:coreProperties>"})
    sst = b'<?xml version="1.0"?><sst xmlns="' + M + b'" %s>%s</sst>'
    d["sst_count"] = lambda: (None, {"sst": sst % (b'count="4294967295" uniqueCount="18446744073709551616"', b"<si/><si><t/></si>")})
    d["sst_many"] = lambda: (None, {"sst": sst % (b"", b"<si><t>same</t></si>" * 60000)})
    d["sst_deep"] = lambda: (None, {"sst": sst % (b"", b"<si>" + b"<r>" * 150000 + b"</r>" * 150000 + b"</si>")})
    wb = b'<?xml version="1.0"?><workbook xmlns="' + M + b'" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships">%s</workbook>'
    d["book_empty"] = lambda: (None, {"workbook": wb % b""})
    d["book_sheets"] = lambda: (None, {"workbook": wb % b'<bookViews><workbookView activeTab="4294967295" firstSheet="-1" tabRatio="x"/></bookViews><sheets><sheet/><sheet name="A" sheetId="4294967295" r:id="rId999"/><sheet name="a" sheetId="4294967295" r:id="rId1"/><sheet name="" sheetId="0" r:id=""/></sheets>'})
    d["book_ids"] = lambda: (None, {"workbook": wb % b'<sheets><sheet name="Data" sheetId="4294967295" r:id="rId1"/></sheets><definedNames><definedName localSheetId="99">x</definedName><definedName/></definedNames>'})
    d["book_many"] = lambda: (None, {"workbook": wb % (b"<sheets>" + b"".join(b'<sheet name="S%d" sheetId="%d" r:id="rId1"/>' % (i, i) for i in range(1, 3001)) + b"</sheets>")})
    # large content of every kind: work per byte must not grow with the size
    d["big_rows"] = lambda: (SHEET % (b"<sheetData>" + b"".join(b'<row r="%d" ht="9"/>' % i for i in range(1, 200001)) + b"</sheetData>"), {})
    d["big_rows_back"] = lambda: (SHEET % (b"<sheetData>" + b"".join(b'<row r="%d"/>' % i for i in range(60000, 0, -1)) + b"</sheetData>"), {})
    d["big_rows_same"] = lambda: (SHEET % (b"<sheetData>" + b'<row r="7"><c r="A7"/></row>' * 60000 + b"</sheetData>"), {})
    d["big_cells"] = lambda: (SHEET % (b"<sheetData>" + b"".join(b'<row r="%d">' % r + b"".join(b'<c r="%s%d"/>' % (col_name(c).encode(), r) for c in range(1, 16385)) + b"</row>" for r in range(1, 13)) + b"</sheetData>"), {})
    d["big_cells_back"] = lambda: (SHEET % (b"<sheetData><row r=\"1\">" + b"".join(b'<c r="%s1"/>' % col_name(c).encode() for c in range(16384, 0, -1)) + b"</row></sheetData>"), {})
    d["big_merges"] = lambda: (SHEET % (b"<sheetData/><mergeCells>" + b"".join(b'<mergeCell ref="A%d:B%d"/>' % (i, i) for i in range(1, 100001)) + b"</mergeCells>"), {})
    d["big_cols"] = lambda: (SHEET % (b"<cols>" + b"".join(b'<col min="%d" max="%d" width="%d"/>' % (i, i, 5 + i % 9) for i in range(1, 16385)) + b"</cols><sheetData/>"), {})
    d["big_cols_over"] = lambda: (SHEET % (b"<cols>" + b'<col min="1" max="16384" width="9"/>' * 3000 + b"</cols><sheetData/>"), {})
    d["big_attrs"] = lambda: (SHEET % (b"<sheetData/><x " + b" ".join(b'a%d="%d"' % (i, i) for i in range(100000)) + b"/>"), {})
    d["big_cdata"] = lambda: (SHEET % (b'<sheetData><row r="1"><c r="A1" t="str"><v>' + b"<![CDATA[x]]>" * 150000 + b"</v></c></row></sheetData>"), {})
    d["big_refs"] = lambda: (SHEET % (b'<sheetData><row r="1"><c r="A1" t="str"><v>' + b"&amp;x" * 400000 + b"</v></c></row></sheetData>"), {})
    d["big_attr_refs"] = lambda: (SHEET % (b'<sheetData/><x a="' + b"&amp;" * 400000 + b'"/>'), {})
    d["big_comments"] = lambda: (SHEET % (b"<sheetData/>" + b"<!--x-->" * 300000), {})
    d["big_ns_depth"] = lambda: (SHEET % (b"<sheetData/>" + b"".join(b'<p%d:e xmlns:p%d="u%d">' % (i, i, i) for i in range(2000)) + b"".join(b"</p%d:e>" % i for i in range(1999, -1, -1))), {})
    d["big_sst"] = lambda: (None, {"sst": sst % (b"", b"".join(b"<si><t>text %d</t></si>" % i for i in range(150000)))})
    d["big_sst_runs"] = lambda: (None, {"sst": sst % (b"", b"<si>" + b"<r><t>x</t></r>" * 150000 + b"</si>")})
    d["big_styles"] = lambda: (None, {"styles": st % (b"<fonts>" + b"".join(b'<font><sz val="%d"/></font>' % i for i in range(30000)) + b"</fonts><fills><fill/></fills><borders><border/></borders><cellXfs>" + b"".join(b'<xf fontId="%d"/>' % i for i in range(30000)) + b"</cellXfs>")})
    d["big_numfmts"] = lambda: (None, {"styles": st % (b"<numFmts>" + b"".join(b'<numFmt numFmtId="%d" formatCode="0.%d"/>' % (164 + i, i) for i in range(50000)) + b"</numFmts><fonts><font/></fonts><fills><fill/></fills><borders><border/></borders><cellXfs><xf/></cellXfs>")})
    d["big_book"] = lambda: (None, {"workbook": wb % (b"<sheets>" + b"".join(b'<sheet name="S%d" sheetId="%d" r:id="rId1"/>' % (i, i) for i in range(1, 20001)) + b"</sheets>")})
    d["big_names"] = lambda: (None, {"workbook": wb % (b'<sheets><sheet name="Data" sheetId="1" r:id="rId1"/></sheets><definedNames>' + b"".join(b'<definedName name="n%d">Data!A%d</definedName>' % (i, i + 1) for i in range(60000)) + b"</definedNames>")})
    d["big_views"] = lambda: (None, {"workbook": wb % (b"<bookViews>" + b'<workbookView activeTab="0"/>' * 60000 + b'</bookViews><sheets><sheet name="Data" sheetId="1" r:id="rId1"/></sheets>')})
    d["big_sheetviews"] = lambda: (SHEET % (b"<sheetViews>" + b'<sheetView workbookViewId="0"/>' * 60000 + b"</sheetViews><sheetData/>"), {})
    return d


SHAPES = sorted(shapes())


@generator
def shape(rng, b, uid, arg):
    name = arg
    sheet, parts = shapes()[name]()
    src = uid + "_src.xlsx"
    xlsx(b, src, sheet, **parts)
    ops = [dict(op="open", path=src), dict(op="list"), dict(op="get_sheet", name={"nth": 0}, h="h"), STUFF, dict(op="row_props", h="h", row=2, p={"height": 3}), dict(op="col_idx", h="h", col=4, p={"width": 3}),
           dict(op="style", id="s", style={"is_bold": True, "number_format": "Custom", "custom_number_format": "0.000"}), dict(op="close", h="h"),
           dict(op="add_sheet", name="added", h="n"), dict(op="row_ref", h="n", ref="A1", cells=[{"v": "text"}]), dict(op="close", h="n"), dict(op="save", path=uid + "_o.xlsx"),
           dict(op="open", path=uid + "_o.xlsx"), dict(op="save", path=uid + "_p.xlsx")]
    return U(uid, "survives", [{"id": uid, "ops": ops, "files": [src]}], name=name)


@generator
def bomb(rng, b, uid, arg):
    """Highly compressible content: resources follow the uncompressed size, not less and not more."""
    src = uid + "_src.xlsx"
    n = 40_000_000
    if arg == "media":
        pk, _ = fixtures.workbook(rng, dict(sheets=1, chartsheet=False))
        pk.add("zero", "xl/media/zero.bin", "application/octet-stream", b"\0" * n, default_ct=True)
        pk.write(b.path(src), {})
    elif arg == "space":
        xlsx(b, src, SHEET % (b" " * n + b"<sheetData/>"))
    elif arg == "text":
        xlsx(b, src, SHEET % (b'<sheetData><row r="1"><c r="A1" t="str"><v>' + b"y" * n + b"</v></c></row></sheetData>"))
    else:
        xlsx(b, src, SHEET % (b"<sheetData/><x>" + b"<a/>" * 500000 + b"</x>"))
    ops = [dict(op="open", path=src), dict(op="get_sheet", name={"nth": 0}, h="h"), STUFF, dict(op="close", h="h"), dict(op="save", path=uid + "_o.xlsx")]
    return U(uid, "survives", [{"id": uid, "ops": ops, "files": [src]}], name=arg)


TEXTS = ["", "a" * 100000, "\u00e9" * 3000, "\U0001F600" * 5000, "a\x00b", "\x00", "\x1f", "\ufffe", "\uffff", "../../x", "/", "\\", "con", ":", "*?[]/\\", "'", "''", "&<>\"", " ", "\n", "\u202e", "a" * 31, "a" * 32, "Sheet1" * 100]
# Any cut at a fixed number of bytes is inside of a character in most of these
CUTS = [lead * k + "\U0001F600" * n for n in (7, 300, 17000) for lead in "a1" for k in range(4)] + ["\U0001F600" * n + "a" * k for n in (6, 2000) for k in (1, 2, 3)]
NUMS += CUTS[8:10] + CUTS[1:3]
TEXTS += CUTS[:8] + ["\u0130\u0149\u00df\ufb01\u01f0" * 900]
FLOATS = ["NaN", "inf", "-inf", -1, -0.0, 0, 1e-30, 1e30, "1e39", 409.5, 409.6, 255, 256, 3.4e38]
INTS = [0, 1, 2, 16383, 16384, 16385, 32767, 32768, 65535]
ROWS = [0, 1, 1048575, 1048576, 1048577, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1]
REFS = gen.BAD_REFS + gen.BAD_COLS + ["A" * 100000, "A" + "1" * 100000, "A1" * 5000, "\U0001F600", "XFD1048576", "A4294967295", "A4294967296", "A99999999999999999999", "ZZZZZZZZZZZZZZZZZZZZ1", "\u0130\u01311", "\u01311", "ﬁ1"]


@generator
def hostile_args(rng, b, uid, arg):
    ops = []
    if rng.random() < 0.5:
        pk, _ = fixtures.workbook(rng, dict(chartsheet=False))
        src = uid + "_src.xlsx"
        pk.write(b.path(src), {})
        ops.append(dict(op="open", path=src))
        files = [src]
    else:
        ops.append(dict(op="open"))
        files = []
    for p in rng.sample(TEXTS, 2):
        ops.append(dict(op="open", doc="x", path=p or "nothing", kind=rng.choice(["excel", "word", "ppt"])))
    ops.append(dict(op="get_sheet", name={"nth": 0}, h="h"))
    for _ in range(rng.randrange(10, 60)):
        k = rng.randrange(14)
        t = rng.choice(TEXTS) if rng.random() < 0.7 else rng.choice(CUTS)
        if k == 0:
            ops.append(dict(op="add_sheet", name=t, h="t"))
        elif k == 1:
            ops.append(dict(op="rename", old=rng.choice([{"nth": 0}, t]), new=rng.choice([t, "x"])))
        elif k == 2:
            ops.append(dict(op=rng.choice(["hide", "active"]), name=t))
        elif k == 3:
            ops.append(dict(op="get_sheet", name=t, h="t"))
        elif k < 6:
            ops.append(dict(op="row_ref", h="h", ref="B%d" % rng.randrange(1, 9) if rng.random() < 0.5 else rng.choice(REFS) if rng.random() < 0.8 else t, cells=[{"t": rng.choice(gen.TYPES), "v": rng.choice([t, rng.choice(TEXTS)]), "f": rng.choice([None, t])}] * rng.choice([0, 1, 3])))
        elif k < 8:
            n = rng.choice([0, 1, 2, 100, 20000]) if rng.random() < 0.2 else 1
            ops.append(dict(op="row_idx", h="h", row=rng.choice(ROWS), col=rng.choice(INTS), cells=[{"v": "1"} if n > 3 else {"t": rng.choice(gen.TYPES), "v": t}] * n))
        elif k == 8:
            ops.append(dict(op="row_props", h="h", row=rng.choice(ROWS), p={"height": rng.choice(FLOATS), "hidden": rng.choice([None, True])}))
        elif k == 9:
            ops.append(dict(op="col_idx", h="h", col=rng.choice(INTS), p=rng.choice([None, {"width": rng.choice(FLOATS)}])))
        elif k == 10:
            ops.append(dict(op="col_ref", h="h", ref=rng.choice(REFS), p=rng.choice([None, {"width": rng.choice(FLOATS), "best_fit": True}])))
        else:
            st = gen.style(rng, 0.5)
            for key in rng.sample(["font_family", "custom_number_format", "background_color", "foreground_color"], 2):
                st[key] = rng.choice([t, rng.choice(TEXTS)])
            st["text_color"] = [rng.choice(["Indexed", "Theme", "Rgb"]), rng.choice(TEXTS + NUMS)]
            st["font_size"] = rng.choice([0, 255])
            ops.append(dict(op="style", id="s", style=st))
    ops += [dict(op="close", h="h"), dict(op="close", h="t"), dict(op="save", path=rng.choice([uid + "_o.xlsx", uid + "_o.xlsx", "x" * 300, "", "a\x00b", "/dev/full/x"]))]
    return U(uid, "survives", [{"id": uid, "ops": ops, "files": files}])


@generator
def blob(rng, b, uid, arg):
    """Files that are no packages at all."""
    cases = []
    kinds = [b"", b"P", b"PK", b"PK\x03\x04", b"PK\x05\x06" + b"\0" * 18, b"PK\x05\x06" + b"\xff" * 18, b"\0" * 100000, b"<?xml version='1.0'?><a/>", rng.randbytes(10), rng.randbytes(5000), b"PK\x05\x06" + b"\0" * 17, b"\xd0\xcf\x11\xe0" + b"\0" * 2000]
    for i, raw in enumerate(kinds):
        for kind in ("excel", "word", "ppt"):
            cid = "%s_%d%s" % (uid, i, kind)
            with open(b.path(cid + ".bin"), "wb") as f:
                f.write(raw)
            cases.append({"id": cid, "ops": [dict(op="open", kind=kind, path=cid + ".bin"), dict(op="save", path=cid + "_o.bin")], "files": [cid + ".bin"]})
    return U(uid, "survives", cases)


SCALES = ("asc", "desc", "scattered", "row", "props", "cols", "renames", "reopen", "styles", "sheets", "formulas")


@generator
def scale(rng, b, uid, arg):
    """Very many calls on one document: their total cost follows their number."""
    beg, fin = [dict(op="open"), dict(op="add_sheet", name="A", h="h")], [dict(op="close", h="h"), dict(op="save", path=uid + "_o.xlsx")]
    n = 60000
    if arg == "asc":
        mid = [dict(op="row_idx", h="h", row=i + 1, col=1, cells=[{"v": "t%d" % i}]) for i in range(n)]
    elif arg == "desc":
        mid = [dict(op="row_idx", h="h", row=n - i, col=1, cells=[{"v": "t%d" % i}]) for i in range(n)]
    elif arg == "scattered":
        mid = [dict(op="row_idx", h="h", row=1 + i * 7919 % 1048576, col=1 + i % 50, cells=[{"v": "1"}]) for i in range(n)]
    elif arg == "row":
        mid = [dict(op="row_idx", h="h", row=1, col=1 + i * 7919 % 16384, cells=[{"v": "1"}]) for i in range(n)]
    elif arg == "props":
        mid = [dict(op="row_props", h="h", row=1 + i * 7919 % 1000000, p={"height": 5}) for i in range(n)]
    elif arg == "cols":
        mid = [dict(op="col_idx", h="h", col=1 + i * 7919 % 16384, p={"width": 5 + i % 90}) for i in range(n)]
    elif arg == "formulas":
        mid = [dict(op="row_idx", h="h", row=i + 1, col=2, cells=[{"v": "1", "f": "A%d+1" % (i + 1)}]) for i in range(n)]
    elif arg == "renames":
        beg, mid, fin = beg + fin[:1], [dict(op="rename", old="A" if i == 0 else "S%d" % (i - 1), new="S%d" % i) for i in range(n)], fin[1:]
    elif arg == "reopen":
        beg, mid, fin = beg + fin[:1], [x for i in range(3000) for x in (dict(op="get_sheet", name="A", h="h"), dict(op="row_idx", h="h", row=1 + i % 30, col=1, cells=[{"v": "t%d" % i}]), dict(op="close", h="h"))], fin[1:]
    elif arg == "styles":
        mid = [dict(op="style", id="s", style={"custom_number_format": "0.%d" % i, "number_format": "Custom"}) for i in range(2500)]
    else:
        beg, mid, fin = beg[:1], [x for i in range(1200) for x in (dict(op="add_sheet", name="S%d" % i, h="h"), dict(op="close", h="h"))], fin[1:]
    return U(uid, "survives", [{"id": uid, "ops": beg + mid + fin, "files": []}], name=arg, total=True)


def unpacked(path):
    """Bytes a reader has to expect: the file and what its entries unpack to."""
    n = os.path.getsize(path)
    try:
        with zipfile.ZipFile(path) as z:
            for i in z.infolist():
                n += min(i.file_size, 1032 * i.compress_size + 1000)   # deflate cannot do better; a lying header does not count
    except Exception:
        n += 1032 * n if n < 100000 else n
    return n


HEAP_BASE, HEAP_FACTOR = 48 << 20, 180
CPU_BASE, CPU_FACTOR = 8e6, 5.0    # microseconds, and per byte


@judge
def survives(unit, res, d):
    out, st = [], collections.Counter()
    for case in unit["cases"]:
        ev, death = res[case["id"]]
        what = unit["data"].get("name", "")
        size, total = 2000, 0
        for e in ev:
            i = e.get("i")
            if i is None:
                continue
            op = case["ops"][i] if i >= 0 else {"op": "drop"}
            if e["r"] == "panic" and str(e.get("m")).startswith("driver: no "):
                st["calls on handles never made"] += 1     # the script went on after a refusal
                continue
            if e["r"] == "panic":
                st["panics"] += 1
                out.append(Disc({"C16"}, "panic", "%s %s panicked: %s" % (what, json.dumps(op)[:200], e.get("m"))))
                continue
            st["calls answered %s" % e["r"]] += 1
            if op["op"] == "open" and op.get("path") and len(op["path"]) < 200 and "\0" not in op["path"] and os.path.isfile(os.path.join(d, op["path"])):
                size = max(size, unpacked(os.path.join(d, op["path"])))
                st["files opened" if e["r"] == "ok" else "files refused"] += 1
            size += len(json.dumps(op))
            if "peak" in e and e["peak"] > HEAP_BASE + HEAP_FACTOR * size:
                out.append(Disc({"C16"}, "memory", "%s %s took %d MB for %d bytes of content" % (what, op["op"], e["peak"] >> 20, size)))
            total += e.get("cpu", 0)
            if e.get("cpu", 0) > CPU_BASE + CPU_FACTOR * size:
                out.append(Disc({"C16"}, "cpu", "%s %s took %.0f s of CPU time for %d bytes of content" % (what, op["op"], e["cpu"] / 1e6, size)))
            if e["r"] == "ok" and op["op"] == "save":
                st["saves"] += 1
        if unit["data"].get("total"):
            st["long histories"] += 1
            if total > CPU_BASE + 2.0 * size:
                out.append(Disc({"C16"}, "cpu-total", "%d calls (%s) took %.0f s of CPU time for %d bytes of arguments" % (len(case["ops"]), what, total / 1e6, size)))
        if death:
            n = max([e["i"] for e in ev if "i" in e] + [-1]) + 1
            op = case["ops"][n] if n < len(case["ops"]) else {"op": "drop"}
            out.append(Disc({"C16"}, "death", "%s %s: %s" % (what, json.dumps(op)[:200], death)))
    return out, st
