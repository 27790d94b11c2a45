"""Comparison of whole packages with each other (twin runs), independent of attribute order and spelling."""
from pkg import Package, Book, XmlError, canon, rels_owner, NS_DCT
from model import core_part, diff_canon, short


def timeless(k, strict):
    """A time stamp without its value; the creation time counts where `strict`."""
    if not isinstance(k, tuple) or k[0] != NS_DCT or k[1] not in ("modified", "created") or strict and k[1] == "created":
        return k
    return (k[0], k[1], k[2], ())


def part_content(pkg, name, core, strict=False):
    data = pkg.parts[name]
    try:
        node = pkg.xml(name)
    except XmlError:
        return data
    if name == core:
        c = canon(node)
        return (c[0], c[1], c[2], tuple(timeless(k, strict) for k in c[3]))
    if rels_owner(name) is not None:
        c = canon(node)
        return (c[0], c[1], c[2], tuple(sorted(map(repr, c[3]))))
    return canon(node)


def content(pkg, strict=False):
    """{part: (content type, content)} without the time stamps and without declaration order."""
    core = core_part(pkg)
    ct = pkg.find("[Content_Types].xml")
    return {n: (pkg.content_type(n), part_content(pkg, n, core, strict)) for n in pkg.parts if n != ct}


def diff(a, b, what_a, what_b):
    """Lines naming the differences of two contents."""
    out = []
    for n in sorted(set(a) | set(b)):
        if n not in b:
            out.append("part %r only %s" % (n, what_a))
        elif n not in a:
            out.append("part %r only %s" % (n, what_b))
        elif a[n] != b[n]:
            if a[n][0] != b[n][0]:
                out.append("part %r: content type %r %s, %r %s" % (n, a[n][0], what_a, b[n][0], what_b))
            else:
                x, y = a[n][1], b[n][1]
                if isinstance(x, tuple) and isinstance(y, tuple):
                    out.append("part %r, %s against %s: %s" % (n, what_b, what_a, diff_canon(x, y)))
                else:
                    out.append("part %r: %s differs from %s" % (n, what_b, what_a))
    return out


def logical(pkg, names):
    """{part: logical name}: roles for what the library may name itself, `names` for the rest."""
    out = {}
    core = core_part(pkg)
    if core:
        out[core] = "core"
    try:
        b = Book(pkg)
    except XmlError:
        return dict(names)
    out[b.part] = "workbook"
    for role, p in (("sst", b.sst_part), ("styles", b.style_part), ("chain", b.chain_part), ("theme", pkg.rel_part(b.part, "/theme"))):
        if p and p in pkg.parts:
            out[p] = role
    for i, s in enumerate(b.sheets):
        if s["part"]:
            out[s["part"]] = "sheet#%d" % i
    for p, k in names.items():
        if p in pkg.parts:
            out.setdefault(p, "part:" + k)
    for p in list(pkg.parts):
        out.setdefault(p, "name:" + p)
    return out


def logical_content(pkg, names):
    role = logical(pkg, names)
    core = core_part(pkg)
    ct = pkg.find("[Content_Types].xml")
    out = {}
    for n in pkg.parts:
        owner = rels_owner(n)
        if n == ct or owner is not None:
            continue
        out[role[n]] = (pkg.content_type(n), part_content(pkg, n, core))
    owners = [""] + [n for n in pkg.parts if rels_owner(n) is None and n != ct]
    for o in owners:
        rels = pkg.rels(o)
        if rels:
            rr = []
            for r in rels:
                p = pkg.find(r.part) if r.part else None
                rr.append((r.id, r.type, r.mode, r.target if r.mode == "External" else role.get(p, "?" + str(r.part))))
            out["rels of " + (role.get(o, o) or "package")] = ("", tuple(sorted(map(repr, rr))))
    return out


def tuple_diff(a, b, what_a, what_b):
    return diff(a, b, what_a, what_b)
