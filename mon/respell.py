"""Other spellings of the same XML information set, and damaged spellings that are not well-formed."""
import re
from pkg import Node, parse_xml, NS_MAIN, NS_XML, XmlError, QNAME_ATTRS


def _text(rng, t):
    if t == "":
        return ""
    k = rng.random()
    if k < 0.2 and "]]>" not in t and "\r" not in t:
        if rng.random() < 0.5:
            t = t.replace("\n", rng.choice(["\r\n", "\r\n", "\r"]))   # one line end to a reader
        return "<![CDATA[%s]]>" % t
    out = []
    for c in t:
        if c == "&":
            out.append(rng.choice(["&amp;", "&#38;", "&#x26;"]))
        elif c == "<":
            out.append(rng.choice(["&lt;", "&#60;", "&#x3C;", "&#x3c;"]))
        elif c == ">":
            out.append(rng.choice(["&gt;", "&#62;"]))
        elif c == "\r":
            out.append(rng.choice(["&#13;", "&#xD;", "&#x0D;"]))
        elif c == "\n" and rng.random() < 0.4:
            out.append(rng.choice(["&#10;", "\r\n"]))
        elif c in "\"'" and rng.random() < 0.4:
            out.append({"'": "&apos;", '"': "&quot;"}[c])
        elif rng.random() < 0.06:
            out.append("&#%d;" % ord(c) if rng.random() < 0.5 else "&#x%x;" % ord(c))
        else:
            out.append(c)
    s = "".join(out)
    if rng.random() < 0.08:
        s += rng.choice(["<!---->", "<!-- a > b & c -->", "<?app x=\"1\"?>", "<?xml-app x=\"1\"?>", "<?XMLx?>", "<![CDATA[]]>"])
    return s


def _attr(rng, v):
    q = rng.choice("\"\"'")
    out = []
    for i, c in enumerate(v):
        if c == "&":
            out.append(rng.choice(["&amp;", "&#38;"]))
        elif c == "<":
            out.append(rng.choice(["&lt;", "&#60;"]))
        elif c == q:
            out.append("&quot;" if q == '"' else "&apos;")
        elif c in "\n\r\t":
            out.append("&#%d;" % ord(c))
        elif c == " " and rng.random() < 0.15:
            out.append(rng.choice(["\n", "\t", "\r\n", "\r" if v[i + 1:i + 2] not in (" ", "\n") else "\t"]))   # each of them is one space to a reader
        elif rng.random() < 0.05:
            out.append("&#x%X;" % ord(c))
        else:
            out.append(c)
    return q + "".join(out) + q


def _layout(rng, odd):
    k = rng.random()
    if k < 0.55:
        return ""
    if k < 0.9 or not odd:
        return rng.choice(["\n", "\r\n  ", "\t", " ", "\n\n    "])
    return rng.choice(["\n<!-- between -->", "<?target data?>\n", "<?xml-stylesheet href='a.xsl'?>", "<!-- <c r=\"Z9\"/> -->", " <!----> "])


def respell(rng, data, leafs=True):
    """Same infoset, other bytes. Namespace prefixes of the source are kept (prefixed attribute values depend on
    them), extra declarations may be repeated further down."""
    root = parse_xml(data)

    def mixed(n):
        return any(isinstance(k, Node) for k in n.kids) and any(isinstance(k, str) and k.strip(" \t\r\n") for k in n.kids)

    def qname(ns, tag, scope, attr=False):
        if ns == "":
            return tag
        if ns == NS_XML:
            return "xml:" + tag
        c = [p for p, u in scope.items() if u == ns and (p or not attr)]
        # the spelling of the source: parse_xml forgets it, any bound prefix is equivalent
        if not attr and "" in c and rng.random() < 0.9:
            c = [""]
        p = rng.choice(sorted(c)) if c else None
        if p is None:
            raise XmlError("unbound " + ns)
        return p + ":" + tag if p else tag

    out = []

    def emit(n, outer, extra):
        if n.ns and rng.random() < 0.03:
            extra = dict(extra, **{"n%d" % rng.randrange(3): n.ns})   # one more prefix for the same namespace
        if rng.random() < 0.06:
            extra = dict(extra, **{"n%d" % rng.randrange(3): rng.choice(["urn:other", "urn:other2", NS_MAIN, n.ns or NS_MAIN])})   # bound anew, back or to something unused
        scope = dict(n.scope, **{p: u for p, u in extra.items() if p not in n.scope})
        decl = {p: u for p, u in scope.items() if p != "xml" and outer.get(p, "") != u}
        if outer and rng.random() < 0.05:
            p = rng.choice([p for p in scope if p != "xml"] or [""])
            if scope.get(p):
                decl[p] = scope[p]   # repeated declaration
        tag = qname(n.ns, n.tag, scope)
        attrs = ["xmlns%s=%s" % (":" + p if p else "", _attr(rng, u)) for p, u in decl.items()]
        for (ns, a), v in n.attrs.items():
            attrs.append("%s%s=%s%s" % (qname(ns, a, scope, True), "" if rng.random() < 0.95 else " ", "" if rng.random() < 0.95 else "\n", _attr(rng, v)))
        rng.shuffle(attrs)
        out.append("<" + tag)
        for a in attrs:
            out.append(rng.choice([" ", " ", " ", "  ", "\n", "\t", "\r\n"]) + a)
        if rng.random() < 0.1:
            out.append(" ")
        kids = n.kids
        elems = [k for k in kids if isinstance(k, Node)]
        text = "".join(k for k in kids if isinstance(k, str))
        if not elems:
            if text == "" and rng.random() < 0.7:
                out.append("/>")
                return
            out.append(">" + _text(rng, text) + "</" + tag + rng.choice(["", "", " ", "\n"]) + ">")
            return
        out.append(">")
        if mixed(n):
            for k in kids:
                if isinstance(k, str):
                    out.append(_text(rng, k))
                else:
                    emit(k, scope, extra)
        else:
            for k in elems:
                out.append(_layout(rng, True))
                emit(k, scope, extra)
            out.append(_layout(rng, True))
        out.append("</" + tag + rng.choice(["", "", "", " ", "\n"]) + ">")
    head = rng.choice(['<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\r\n', "<?xml version='1.0' encoding='utf-8'?>", '<?xml version="1.0"?>\n', "",
                       '<?xml version="1.0" encoding="UTF-8"?><!-- head --><?pi x?>\n', '<?xml version="1.0" encoding="UTF-8"?>\n<?xml-stylesheet type="text/xsl" href="a.xsl"?>\n<?mso-application progid="Excel.Sheet"?>','<?xml-model href="a"?>', '<?xml  version = "1.0"  standalone="no" ?>\n\n'])
    emit(root, {}, {})
    tail = rng.choice(["", "", "\n", "\r\n<!-- tail -->\n", "<?end?>", "<?xml-end?>"])
    raw = (head + "".join(out) + tail).encode("utf-8")
    if head.startswith("<?xml") and rng.random() < 0.15:
        raw = b"\xef\xbb\xbf" + raw
    return raw


def well_formed(data):
    try:
        parse_xml(data)
        return True
    except XmlError:
        return False


DAMAGE = {}


def damage(f):
    DAMAGE[f.__name__] = f
    return f


def _tags(t):
    return [m for m in re.finditer(r"<([A-Za-z_:][^\s/>]*)((?:\s+[^\s=>]+\s*=\s*(?:\"[^\"]*\"|'[^']*'))*)\s*(/?)>", t)]


@damage
def truncated(rng, t):
    return t[:rng.randrange(len(t) // 3, max(len(t) - 2, len(t) // 3 + 1))]


@damage
def end_tag_name(rng, t):
    ms = list(re.finditer(r"</([^>\s]+)\s*>", t))
    m = rng.choice(ms)
    return t[:m.start()] + "</" + m.group(1) + "x>" + t[m.end():]


@damage
def missing_end_tag(rng, t):
    ms = list(re.finditer(r"</[^>]+>", t))
    m = rng.choice(ms)
    return t[:m.start()] + t[m.end():]


@damage
def extra_end_tag(rng, t):
    ms = _tags(t)
    m = rng.choice(ms)
    return t[:m.start()] + "</" + m.group(1) + ">" + t[m.start():]


@damage
def swapped_end_tags(rng, t):
    ms = list(re.finditer(r"</([^>\s]+)\s*></([^>\s]+)\s*>", t))
    ms = [m for m in ms if m.group(1) != m.group(2)]
    if not ms:
        return None
    m = rng.choice(ms)
    return t[:m.start()] + "</%s></%s>" % (m.group(2), m.group(1)) + t[m.end():]


@damage
def duplicate_attribute(rng, t):
    ms = [m for m in _tags(t) if m.group(2).strip()]
    m = rng.choice(ms)
    a = m.group(2)
    one = re.match(r"\s+[^\s=>]+\s*=\s*(?:\"[^\"]*\"|'[^']*')", a).group(0)
    p = m.start(2) + len(a)
    return t[:p] + one + t[p:]


@damage
def unquoted_attribute(rng, t):
    ms = list(re.finditer(r"=\s*\"([A-Za-z0-9]+)\"", t[t.find("?>") + 1:]))
    if not ms:
        return None
    m = rng.choice(ms)
    o = t.find("?>") + 1
    return t[:o + m.start()] + "=" + m.group(1) + t[o + m.end():]


@damage
def attribute_without_value(rng, t):
    m = rng.choice(_tags(t))
    p = m.end(1)
    return t[:p] + " lonely" + t[p:]


@damage
def lt_in_attribute(rng, t):
    m = rng.choice(_tags(t))
    p = m.end(1)
    return t[:p] + ' q="a<b"' + t[p:]


@damage
def bare_ampersand(rng, t):
    m = rng.choice(_tags(t))
    p = m.end(1)
    return t[:p] + ' q="a & b"' + t[p:]


@damage
def unknown_entity(rng, t):
    m = rng.choice(_tags(t))
    p = m.end(1)
    return t[:p] + ' q="&nbsp;"' + t[p:]


@damage
def bad_char_ref(rng, t):
    m = rng.choice(_tags(t))
    p = m.end(1)
    return t[:p] + ' q="&#%s;"' % rng.choice(["0", "x1F", "xD800", "xFFFE", "1114112", "8", ""]) + t[p:]


@damage
def text_ampersand(rng, t):
    ms = list(re.finditer(r">([^<>&]+)</", t))
    if not ms:
        return None
    m = rng.choice(ms)
    return t[:m.start(1)] + m.group(1) + rng.choice(["&", "&;", "&bogus;", "& ", "&#x0;", "&#-1;"]) + t[m.end(1):]


@damage
def second_root(rng, t):
    return t + "<extra/>"


@damage
def text_after_root(rng, t):
    return t + "tail"


@damage
def text_before_root(rng, t):
    i = t.find("?>")
    i = i + 2 if i >= 0 else 0
    return t[:i] + "head" + t[i:]


@damage
def no_root(rng, t):
    return '<?xml version="1.0"?>' + rng.choice(["", "<!-- nothing -->", "\n"])


@damage
def empty(rng, t):
    return ""


@damage
def unbound_prefix_element(rng, t):
    m = rng.choice(_tags(t))
    return t[:m.start()] + "<nowhere:x/>" + t[m.start():] if m.start() > t.find("?>") + 2 and _tags(t)[0].start() < m.start() else None


@damage
def unbound_prefix_attribute(rng, t):
    m = rng.choice(_tags(t))
    p = m.end(1)
    return t[:p] + ' nowhere:q="1"' + t[p:]


@damage
def bad_comment(rng, t):
    ms = _tags(t)
    m = rng.choice(ms[1:] or ms)
    return t[:m.start()] + "<!-- a -- b -->" + t[m.start():]


@damage
def open_comment(rng, t):
    ms = _tags(t)
    m = rng.choice(ms[1:] or ms)
    return t[:m.start()] + "<!-- never closed " + t[m.start():].replace("-->", "->")


@damage
def open_cdata(rng, t):
    ms = list(re.finditer(r">([^<>&]+)</", t))
    if not ms:
        return None
    m = rng.choice(ms)
    return t[:m.start(1)] + "<![CDATA[" + t[m.start(1):].replace("]]>", "] ]>")


@damage
def cdata_end_in_text(rng, t):
    ms = list(re.finditer(r">([^<>&]+)</", t))
    if not ms:
        return None
    m = rng.choice(ms)
    return t[:m.end(1)] + "]]>" + t[m.end(1):]


@damage
def control_char(rng, t):
    ms = _tags(t)
    m = rng.choice(ms)
    p = m.end(1)
    return t[:p] + ' q="a%sb"' % rng.choice(["\u0001", "\u0000", "\u001f", "\ufffe", "\uffff", "\u000b"]) + t[p:]


@damage
def bad_name(rng, t):
    ms = _tags(t)
    m = rng.choice(ms[1:] or ms)
    return t[:m.start()] + rng.choice(["<1a/>", "<-x/>", "< x/>", "<a$/>", "<.b/>", "</>", "<>", "<a:b:c/>", "<a\u00d7/>", "<\u00f7/>", "<a\u00f7b/>", "<\u037ea/>", "<\u00b7a/>",
                                      "<\u0300a/>", "<a\u2000/>", "<0/>", "<a:1/>", "<a:/>", "<:a/>", "<a,b/>", "<a\u00bf/>"]) + t[m.start():]


@damage
def bad_attribute_name(rng, t):
    ms = _tags(t)
    m = rng.choice(ms)
    p = m.end(1)
    return t[:p] + ' %s="1"' % rng.choice(["1q", "-q", ".q", "q$", "q,r", "q\u00d7", "\u00f7", "a:b:c", ":q", "q:", "xml:1", "q\u2000", "\u0300q", "q(", "@q", "#q"]) + t[p:]


@damage
def late_declaration(rng, t):
    return " " + t if t.startswith("<?xml") else "\n<?xml version=\"1.0\"?>" + t


@damage
def bad_declaration(rng, t):
    i = t.find("?>")
    body = t[i + 2:] if i >= 0 else t
    return rng.choice(['<?xml version="9.9"?>', '<?xml encoding="UTF-8"?>', '<?xml version="1.0" standalone="maybe"?>', '<?xml?>', '<?xml version="1.0" encoding="UTF-8"?', "<?XML version=\"1.0\"?>"]) + body


@damage
def attributes_touching(rng, t):
    ms = [m for m in _tags(t) if len(re.findall(r"=", m.group(2))) >= 2]
    if not ms:
        return None
    m = rng.choice(ms)
    a = re.sub(r"([\"'])\s+([A-Za-z])", r"\1\2", m.group(2), count=1)
    return t[:m.start(2)] + a + t[m.end(2):]


@damage
def invalid_utf8(rng, t):
    m = rng.choice(_tags(t))
    p = m.end(1)
    return t[:p].encode("utf-8") + b' q="' + rng.choice([b"\xff", b"\xc3(", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"\xc0\x80"]) + b'"' + t[p:].encode("utf-8")


def damaged(rng, data, kind):
    """A non-well-formed variant of the part or None."""
    t = data.decode("utf-8-sig")
    for _ in range(6):
        try:
            r = DAMAGE[kind](rng, t)
        except (IndexError, ValueError, AttributeError):
            r = None
        if r is None:
            continue
        raw = r if isinstance(r, bytes) else r.encode("utf-8")
        if not well_formed(raw):
            return raw
    return None
