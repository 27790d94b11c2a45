"""C28: the tables between enumerated settings and file tokens, asked directly and through saved files."""
import collections
import gen, model, units
from harness import Disc
from units import U, generator, judge

WRITE = {
    "cell": {"Number": "n", "Boolean": "b", "String": "str", "ShareString": "s", "InlineString": "inlineStr", "Error": "e"},
    "border": {k: v or "none" for k, v in model.BORDER.items()},
    "halign": {k: v for k, v in model.HALIGN.items() if v},
    "valign": {k: v for k, v in model.VALIGN.items() if v},
    "color": {"Indexed": "indexed", "Theme": "theme", "Rgb": "rgb"},
    "pattern": {"None": "none", "Gray125": "gray125", "Solid": "solid"},
    "numfmt": {k: str(v) for k, v in model.NUMFMT.items()},
}
# values without a token of their own in the schema: only the round trip is required of them
OWN = {"cell": ["Auto"], "halign": ["None"], "valign": ["None"], "numfmt": ["Custom"]}


@generator
def enum_table(rng, b, uid, arg):
    tokens = {f: sorted(set(t.values())) for f, t in WRITE.items()}
    return U(uid, "table", [{"id": uid, "ops": [dict(op="enum_all", tokens=tokens)], "files": []}])


@judge
def table(unit, res, d):
    case = unit["cases"][0]
    ev, death = res[case["id"]]
    out, st = [], collections.Counter()
    ev = [e for e in ev if e.get("i") == 0]
    if death or not ev or ev[0].get("r") != "ok":
        return [Disc({"C28", "C16"}, "panic", "enumeration tables: %s %s" % (death, ev[:1]))], st
    for fam, t in ev[0]["v"].items():
        want = WRITE[fam]
        for val, tok in t["write"].items():
            st["values written"] += 1
            if val in want and tok != want[val]:
                out.append(Disc({"C28"}, "enum-write", "%s %s is written as %r, the schema token is %r" % (fam, val, tok, want[val])))
            if val not in want and val not in OWN.get(fam, []):
                out.append(Disc({"C28"}, "enum-write", "%s %s is not in the table of the format" % (fam, val)))
            if val not in want and tok in want.values():
                out.append(Disc({"C28"}, "enum-write", "%s %s is written as %r, the token of another value" % (fam, val, tok)))
        if len(set(t["write"].values())) != len(t["write"]):
            out.append(Disc({"C28"}, "enum-write", "%s: two values share a token: %s" % (fam, t["write"])))
        for tok, (val, again) in t["read"].items():
            st["tokens read"] += 1
            if again != tok or want.get(val, tok) != tok:
                out.append(Disc({"C28"}, "enum-read", "%s token %r is read as %s, which is written as %r" % (fam, tok, val, again)))
    return out, st


BASE = [{}, {"is_bold": True}, {"font_size": 9, "background_color": "FF112233"}]


@generator
def enum_styles(rng, b, uid, arg):
    """Every value of every enumerated setting through a saved file, alone and combined, then the file opened and saved again."""
    ops = [dict(op="open"), dict(op="get_sheet", name={"nth": 0}, h="h")]
    sts = []
    base = rng.choice(BASE)
    for v in model.NUMFMT:
        sts.append(dict(base, number_format=v))
    for sd in gen.SIDES:
        for v in gen.BORDERS:
            sts.append(dict(base, **{"border_" + sd: {"style": v, "color": gen.color(rng)} if rng.random() < 0.5 else {"style": v}}))
    for v in model.HALIGN:
        for w in model.VALIGN:
            sts.append(dict(base, horizontal_alignment=v, vertical_alignment=w))
    for c in (["Indexed", "12"], ["Theme", "3"], ["Rgb", "FF00AA00"]):
        sts.append(dict(base, text_color=c))
        for sd in gen.SIDES:
            sts.append(dict(base, **{"border_" + sd: {"style": "Thin", "color": c}}))
    rng.shuffle(sts)
    for i, s in enumerate(sts):
        ops.append(dict(op="style", id="s%d" % i, style=s))
        ops.append(dict(op="row_idx", h="h", row=1 + i // 20, col=1 + i % 20, cells=[{"v": "x", "s": "s%d" % i}]))
    vals = {"Auto": ["t", "5", "true"], "Number": ["7"], "Boolean": ["true", "false"], "String": ["s"], "ShareString": ["sh"], "InlineString": ["in"], "Error": ["#N/A"]}
    r = 100
    for t, vs in vals.items():
        for v in vs:
            for f in (None, "A1"):
                c = {"t": t, "v": v}
                if f:
                    c["f"] = f
                ops.append(dict(op="row_idx", h="h", row=r, col=3, cells=[c]))
                r += 1
    ops += [dict(op="close", h="h"), dict(op="save", path=uid + "_o0.xlsx")]
    for g in (1, 2):
        ops += [dict(op="open", path="%s_o%d.xlsx" % (uid, g - 1)), dict(op="get_sheet", name={"nth": 0}, h="h"),
                dict(op="row_idx", h="h", row=200 + g, col=1, cells=[{"v": "again"}]), dict(op="close", h="h")]
        for i in rng.sample(range(len(sts)), 40):
            ops.append(dict(op="style", id="g%d_%d" % (g, i), style=sts[i]))
        ops.append(dict(op="save", path="%s_o%d.xlsx" % (uid, g)))
    return U(uid, "enum_replay", [{"id": uid, "ops": ops, "files": []}])


@judge
def enum_replay(unit, res, d):
    out, st = units.replay(unit, res, d)
    return [Disc(x.tags | {"C28"}, x.code, x.detail) if x.tags & {"C02", "C07", "C08"} else x for x in out], st
