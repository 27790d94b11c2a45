"""Units of work: a unit is one or more cases (scripted histories) plus the judge that decides over their events.
GEN[name](rng, batch, uid, arg) builds a unit; JUDGE[kind](unit, res, dir) returns (discrepancies, counters);
FOLLOW[kind](unit, res, dir) may ask for further cases once the first ones have run."""
import collections, copy, json, os, random, re, shutil, zipfile
import fixtures, gen, model, pkgcheck, respell, twin
from harness import Disc
from model import Replay, OP_TAGS, brief
from pkg import Package, Book, XmlError, canon, col_name, ref, rels_owner

GEN, JUDGE, FOLLOW = {}, {}, {}
RUNNER = {}   # kind -> runner(units, dir, binary) instead of the ordinary driver run
BINARY = {}   # generator -> driver it needs, if not the debug one
ALL = frozenset("C%02d" % i for i in range(1, 29))
READ_ERRORS = (zipfile.BadZipFile, OSError, zipfile.zlib.error, NotImplementedError, RuntimeError, EOFError, XmlError)


def generator(f):
    GEN[f.__name__] = f
    return f


def judge(f):
    JUDGE[f.__name__] = f
    return f


def follow(f):
    FOLLOW[f.__name__] = f
    return f


def U(uid, kind, cases, **data):
    return {"id": uid, "kind": kind, "cases": cases, "data": data}


def nontrivial(unit, st):
    """Something was observed beyond calls being answered: a save compared, a refusal judged, a fault survived ..."""
    return any(v and not k.startswith("op ") and k not in ("calls", "opened", "refused") for k, v in st.items())


# ---------------------------------------------------------------------------- plain histories

@generator
def hist(rng, b, uid, arg):
    return U(uid, "replay", [gen.history(rng, b, uid, arg or "mix")])


@generator
def office(rng, b, uid, arg):
    return U(uid, "replay", [gen.office_history(rng, b, uid, arg if arg is not None else 0.3)])


@generator
def opaque(rng, b, uid, arg):
    """Packages of all three formats around parts the library knows nothing about."""
    kind = rng.choice(["excel", "word", "ppt"])
    ops, files = [], []
    if kind == "excel":
        pk, meta = fixtures.workbook(rng, {})
        names = meta["sheet_names"]
    else:
        pk, names = fixtures.office(rng, kind), []
    fixtures.opaque(rng, pk)
    src = "%s_src.%s" % (uid, {"excel": "xlsx", "word": "docx", "ppt": "pptx"}[kind])
    pk.write(b.path(src), fixtures.layout(rng))
    cur = src
    for g in range(rng.randint(1, 3)):
        ops.append(dict(op="open", kind=kind, path=cur))
        if kind == "excel" and rng.random() < 0.6:
            ops += [dict(op="get_sheet", name=rng.choice(names), h="h"), dict(op="row_ref", h="h", ref="ZZ900", cells=[{"v": "x"}]), dict(op="close", h="h")]
        cur = "%s_o%d.%s" % (uid, g, src.rsplit(".", 1)[1])
        ops.append(dict(op="save", path=cur))
    return U(uid, "replay", [{"id": uid, "ops": ops, "files": [src]}])


@generator
def slow(rng, b, uid, arg):
    """Time passes between opening and saving: what is stamped is the time of the save."""
    kind = rng.choice(["excel", "word", "ppt"])
    src = None
    if rng.random() < 0.7:
        src = "%s_src.%s" % (uid, {"excel": "xlsx", "word": "docx", "ppt": "pptx"}[kind])
        (fixtures.workbook(rng, {})[0] if kind == "excel" else fixtures.office(rng, kind)).write(b.path(src), fixtures.layout(rng))
    ops = []
    for g in range(2):
        ops += [dict(op="open", kind=kind, path=src), dict(op="sleep", ms=rng.choice([2200, 2600]))]
        src = "%s_o%d.%s" % (uid, g, {"excel": "xlsx", "word": "docx", "ppt": "pptx"}[kind])
        ops.append(dict(op="save", path=src))
    return U(uid, "replay", [{"id": uid, "ops": ops, "files": [uid + "_src." + src.rsplit(".", 1)[1]] if ops[0]["path"] else []}])


@generator
def replaced(rng, b, uid, arg):
    """Another file of the same length takes the place of the one that was opened before."""
    pk, meta = fixtures.workbook(rng, dict(chartsheet=False, core="office"))
    lay = dict(fixtures.layout(rng), stored=True)
    state = rng.getstate()
    a, c = uid + "_a.xlsx", uid + "_c.xlsx"
    pk.write(b.path(a), lay)
    for part in pk.parts.values():
        if isinstance(part.data, bytes):
            part.data = part.data.replace(b"Ann Author", b"Eve Author").replace(b"SUM(A1:B2)", b"SUM(A1:B7)").replace(b"alpha", b"gamma").replace(b">42<", b">43<")
    rng.setstate(state)
    pk.write(b.path(c), lay)
    name = rng.choice(meta["sheet_names"])
    ops, cur = [], uid + "_cur.xlsx"
    for g in range(3):
        which = (a, c)[g % 2]
        ops.append(dict(op="copy", **{"from": which, "to": cur, "alias": [cur, which]}))
        ops.append(dict(op="open", path=cur))
        if rng.random() < 0.6:
            ops += [dict(op="get_sheet", name=name, h="h"), dict(op="row_ref", h="h", ref="ZZ900", cells=[{"v": "alpha"}, {"v": "gamma"}]), dict(op="close", h="h")]
        ops.append(dict(op="save", path="%s_o%d.xlsx" % (uid, g)))
    return U(uid, "replaced_alone", [{"id": uid, "ops": ops, "files": [a, c]}])


def death_disc(ops, ev, death):
    n = max([e["i"] for e in ev if "i" in e] + [-1]) + 1
    op = ops[n] if n < len(ops) else {"op": "drop_doc"}
    return Disc(OP_TAGS.get(op["op"], set()) | {"C16"}, "death", "%s during %s" % (death, brief(op)))


def replay_case(case, ev, death, d):
    out, st = [], collections.Counter()
    lists = case.get("parallel") or [case["ops"]]
    for t, ops in enumerate(lists):
        mine = [e for e in ev if e.get("t", 0) == t]
        r = Replay(d)
        r.run(ops, [e for e in mine if e.get("i", -1) >= 0])
        out += r.discs
        st.update(r.stats)
        for e in mine:
            if e.get("i") == -1:
                out.append(Disc({"C16", "C21", "C25"}, "panic", "panicked while the documents were dropped: %s" % e.get("m")))
            elif "i" in e:
                st["op " + ops[e["i"]]["op"] + " " + e["r"]] += 1
        if death:
            out.append(death_disc(ops, mine, death))
    return out, st


@judge
def replay(unit, res, d):
    out, st = [], collections.Counter()
    for case in unit["cases"]:
        o, s = replay_case(case, res[case["id"]][0], res[case["id"]][1], d)
        out += o
        st.update(s)
    return out, st


def saves(ops, ev):
    """[(op index, path to look at)] of the successful saves."""
    ok = {e["i"] for e in ev if e.get("r") == "ok"}
    return [(i, o.get("snap", o["path"])) for i, o in enumerate(ops) if o["op"] == "save" and i in ok]


def read(d, path, out, tags):
    try:
        return Package(os.path.join(d, path))
    except READ_ERRORS as ex:
        out.append(Disc(tags | {"C01"}, "zip", "saved file %s is not readable: %r" % (path, ex)))
        return None


def clone(case, old, new, b=None, d=None):
    """The same case under another id; its files are copied."""
    c = json.loads(json.dumps(case).replace(old, new))
    root = b.dir if b else d
    for f, g in zip(case.get("files", []), c.get("files", [])):
        if f != g:
            shutil.copy(os.path.join(root, f), os.path.join(root, g))
    return c


def results(ops, ev):
    """Comparable outcome of every call."""
    out = {}
    for e in ev:
        if e.get("i", -1) >= 0:
            v = e.get("v") if ops[e["i"]]["op"] in ("list", "style") else None
            out[e["i"]] = (e["r"], json.dumps(v), json.dumps(e.get("names")))
    return out


def compare_runs(d, out, tags, code, ops_a, ev_a, ops_b, ev_b, wa, wb, pairs=None):
    """Saved content of two runs of the same calls."""
    n = 0
    sa, sb = saves(ops_a, ev_a), saves(ops_b, ev_b)
    if pairs is None:
        if [i for i, _ in sa] != [i for i, _ in sb]:
            out.append(Disc(tags, code, "saves succeeded at %s %s, at %s %s" % ([i for i, _ in sa], wa, [i for i, _ in sb], wb)))
            return 0
    for (_, pa), (_, pb) in zip(sa, sb):
        a, c = read(d, pa, out, tags), read(d, pb, out, tags)
        if a is None or c is None:
            continue
        n += 1
        try:
            for line in twin.diff(twin.content(a), twin.content(c), wa, wb)[:4]:
                out.append(Disc(tags, code, "%s / %s: %s" % (pa, pb, line)))
        except XmlError as ex:
            out.append(Disc(tags | {"C01"}, "xml", str(ex)))
    return n


# ---------------------------------------------------------------------------- C17: refused calls

@generator
def refused(rng, b, uid, arg):
    prof = dict(gen.PROFILES[arg or "bad"])
    prof.update(bad=rng.choice([0.3, 0.5, 0.7]), inplace=0.0, gens=(1, 2))
    c = gen.history(rng, b, uid, prof)
    return U(uid, "twin_refused", [c])


@generator
def broken_sheet(rng, b, uid, arg):
    """One worksheet cannot be read: opening it is refused, everything else works as if it had not been tried."""
    pk, meta = fixtures.workbook(rng, dict(sheets=rng.randrange(2, 5), chartsheet=False))
    k = rng.randrange(len(meta["sheet_names"]))
    part = pk.parts["sheet%d" % k]
    kinds = sorted(respell.DAMAGE)
    how = rng.choice(["part", "part", "rels", "relationship", "content"])
    raw = []

    def spoil(data):
        while not raw:
            if how in ("part", "rels"):
                new = respell.damaged(rng, data, rng.choice(kinds))
            elif how == "relationship":
                x = rng.choice(list(re.finditer(rb" (Id|Target|Type)=\"[^\"]*\"", data)))
                new = data[:x.start()] + data[x.end():]
            else:
                new = damage_content(rng, data) or respell.damaged(rng, data, rng.choice(kinds))
            if new is not None:
                raw.append(new)
        return raw[0]
    if how in ("part", "content"):
        part.data = spoil(part.data)
    else:
        if not part.rels:
            part.rels.append(("rIdx", fixtures.OD + "hyperlink", "http://example.com/", "External"))
        part.rels_raw = spoil
    src = uid + "_src.xlsx"
    pk.write(b.path(src), {})
    raw = raw[0]
    names = meta["sheet_names"]
    other = names[(k + 1) % len(names)]
    ops = [dict(op="open", path=src)]
    for step in rng.sample(range(4), 4):
        if step == 0:
            for _ in range(rng.randint(1, 3)):
                ops.append(dict(op="get_sheet", name=names[k], h="bad"))
        elif step == 1:
            ops += [dict(op="get_sheet", name=other, h="h"), dict(op="row_ref", h="h", ref="C3", cells=[{"v": "kept"}, {"v": "2"}]), dict(op="close", h="h")]
        elif step == 2:
            ops += [dict(op="add_sheet", name="fresh", h="n"), dict(op="row_ref", h="n", ref="A1", cells=[{"v": "new"}]), dict(op="close", h="n")]
        else:
            ops += [dict(op="rename", old=other, new="renamed"), dict(op="rename", old="renamed", new=other)]
    ops += [dict(op="list"), dict(op="save", path=uid + "_o.xlsx")]
    return U(uid, "broken", [{"id": uid, "ops": ops, "files": [src]}], name=names[k], raw=raw.decode("latin-1"), must=how not in ("content", "relationship"))


def damage_content(rng, data):
    """A well-formed worksheet whose rows or cells say something impossible; None when there is no place for it."""
    if rng.random() < 0.4:
        x = list(re.finditer(rb"<(\w+:)?row [^>]*?\br=\"(\d+)\"", data))
        new = rng.choice([b"0", b"-1", b"abc", b"", b"99999999999", b"1048577", b"4294967297", b"1.5", b"A1"])
    else:
        x = list(re.finditer(rb"<(\w+:)?c [^>]*?\br=\"([A-Z]+\d+)\"", data))
        new = rng.choice([b"XFE1", b"A0", b"1A", b"B", b"", b"$A$1", b"AAAA1", b"A99999999999", b"ABCDEFGHIJ1"])
    if not x:
        return re.sub(rb"(<(\w+:)?sheetData)/>", lambda m: m.group(1) + b'><' + (m.group(2) or b"") + b'row r="x"/></' + m.group(1)[1:] + b">", data, count=1) if b"sheetData/>" in data else None
    x = rng.choice(x)
    return data[:x.start(2)] + new + data[x.end(2):]


@judge
def replaced_alone(unit, res, d):
    """What is not the content of the file just opened came from a document of before."""
    out, st = replay(unit, res, d)
    for x in out:
        x.tags |= {"C19", "C20"}
    return out, st


@judge
def broken(unit, res, d):
    case = unit["cases"][0]
    ev, death = res[case["id"]]
    out, st = [], collections.Counter()
    if death:
        return [death_disc(case["ops"], ev, death)], st
    tags = {"C17", "C14"} if unit["data"].get("must", True) else {"C17"}
    if not unit["data"].get("must", True) and any(e.get("i", -1) >= 0 and case["ops"][e["i"]].get("name") == unit["data"]["name"] and case["ops"][e["i"]].get("h") == "bad" and e["r"] == "ok" for e in ev):
        st["accepted"] += 1
        return out, st
    for e in ev:
        if e.get("i", -1) < 0:
            continue
        op = case["ops"][e["i"]]
        st["op %s %s" % (op["op"], e["r"])] += 1
        want = "err" if op.get("h") == "bad" else "ok"
        if e["r"] == "panic":
            out.append(Disc(tags | {"C16"}, "panic", "%s panicked: %s" % (brief(op), e.get("m"))))
        elif e["r"] != want:
            out.append(Disc(tags, "broken-sheet", "%s: %s (%s), expected %s; the part of %r is not well-formed" % (brief(op), e["r"], (e.get("m") or "")[:200], want, unit["data"]["name"])))
    for _, p in saves(case["ops"], ev):
        pkg = read(d, p, out, tags)
        if pkg is None:
            continue
        st["saves"] += 1
        raw = unit["data"]["raw"].encode("latin-1")
        if raw not in pkg.parts.values():
            out.append(Disc(tags | {"C05"}, "broken-sheet", "the part that was refused is not in the saved file as it was"))
        try:
            names = [s["name"] for s in Book(pkg).sheets]
            texts = [c.text for s in Book(pkg).sheets if s["name"] in ("fresh",) and s["part"] for c in Book(pkg).sheet(s["part"]).cells.values()]
            if unit["data"]["name"] not in names or texts != ["new"]:
                out.append(Disc(tags | {"C03"}, "broken-sheet", "sheets %r, new sheet holds %r" % (names, texts)))
        except XmlError as ex:
            out.append(Disc(tags | {"C01"}, "xml", str(ex)))
    return out, st


@follow
def twin_refused(unit, res, d):
    case = unit["cases"][0]
    ev, death = res[case["id"]]
    if death or any(e.get("r") == "panic" for e in ev):
        return []
    failed = {e["i"] for e in ev if e.get("r") == "err"}
    new = clone(case, unit["id"] + "_", unit["id"] + "t_", d=d)
    new["id"] = unit["id"] + "t"
    ops, keep = [], []
    for i, op in enumerate(new["ops"]):
        if i in failed and op["op"] not in ("save", "open", "copy"):
            if op["op"] == "delete_sheet":
                op = dict({k: v for k, v in op.items()}, op="close")
            else:
                continue
        ops.append(op)
        keep.append(i)
    new["ops"] = ops
    unit["data"]["keep"] = keep
    unit["data"]["failed"] = len(failed)
    return [new]


@judge
def twin_refused(unit, res, d):
    out, st = replay(dict(unit, cases=unit["cases"][:1]), res, d)
    if "keep" not in unit["data"]:
        return out, st
    a = unit["cases"][0]
    c = unit["cases"][1]
    keep = unit["data"]["keep"]
    ea, eb = res[a["id"]][0], res[c["id"]][0]
    if res[c["id"]][1]:
        out.append(Disc({"C16", "C17"}, "death", "run without the refused calls: %s" % res[c["id"]][1]))
        return out, st
    ra, rb = results(a["ops"], ea), results(c["ops"], eb)
    tags = {"C17"}
    for j, i in enumerate(keep):
        x, y = ra.get(i), rb.get(j)
        if x != y and c["ops"][j]["op"] != "close":
            out.append(Disc(tags, "later-result", "%s gave %s after refused calls, %s without them" % (brief(a["ops"][i]), x, y)))
            break
    st["refused calls left out of the twin"] += unit["data"]["failed"]
    pa = [x for x in saves(a["ops"], ea)]
    pb = [(keep[i], p) for i, p in saves(c["ops"], eb)]
    if [i for i, _ in pa] != [i for i, _ in pb]:
        out.append(Disc(tags, "twin-saves", "saves at %s with the refused calls, %s without" % (pa, pb)))
    else:
        st["twin saves compared"] += compare_runs(d, out, tags, "twin-content", a["ops"], ea, c["ops"], eb, "with refused calls", "without", pairs=True)
    return out, st


# ---------------------------------------------------------------------------- C19: stable and repeatable

@generator
def stable(rng, b, uid, arg):
    """A history, then open/save without edits, several generations."""
    if rng.random() < 0.15:
        c = gen.office_history(rng, b, uid)
        cur = c["ops"][-1]["path"]
        kind = c["ops"][0].get("kind")
        ext = cur.rsplit(".", 1)[1]
    else:
        prof = dict(gen.PROFILES[arg or "mix"])
        prof.update(drop=0.0, bad=0.02)
        if rng.random() < 0.4:
            prof.update(new=0.0, n=(0, 4), gens=(1, 1))
        h = gen.Hist(rng, b, uid, prof)
        c = h.run()
        cur, kind, ext = h.cur, "excel", "xlsx"
        n = len(h.sheets)
    chain = []
    if cur is not None:
        chain.append((cur, False))
        for g in range(rng.randint(2, 4)):
            opened = False
            c["ops"].append(dict(op="open", kind=kind, path=cur))
            if kind == "excel" and g % 2 and rng.random() < 0.6:
                opened = True
                for i in range(n):
                    c["ops"] += [dict(op="get_sheet", name={"nth": i}, h="st%d" % i), dict(op="close", h="st%d" % i)]
            cur = "%s_st%d.%s" % (uid, g, ext)
            c["ops"].append(dict(op="save", path=cur))
            chain.append((cur, opened))
    return U(uid, "chain", [c], chain=chain)


@judge
def chain(unit, res, d):
    out, st = replay(unit, res, d)
    tags = {"C19"}
    prev, seen = None, False
    for p, opened in unit["data"]["chain"]:
        if not os.path.exists(os.path.join(d, p)):
            break
        pkg = read(d, p, out, tags)
        if pkg is None:
            break
        try:
            c = twin.content(pkg, True)
        except XmlError as ex:
            out.append(Disc(tags | {"C01"}, "xml", str(ex)))
            break
        # opening a sheet for the first time may write its rows and dimension another way (checked by the replay)
        if prev is not None and (seen or not opened):
            st["generations compared"] += 1
            for line in twin.diff(prev, c, "before", "after saving again")[:4]:
                out.append(Disc(tags, "unstable", "%s: %s" % (p, line)))
        seen |= opened
        prev = c
    return out, st


@generator
def repeat(rng, b, uid, arg):
    prof = dict(gen.PROFILES[arg or "mix"])
    c = gen.history(rng, b, uid, prof)
    return U(uid, "again", [c, dict(clone(c, uid + "_", uid + "r_", b), id=uid + "r")])


@follow
def again(unit, res, d):
    if res[unit["cases"][0]["id"]][1]:
        return []
    c = unit["cases"][0]
    return [dict(clone(c, unit["id"] + "_", unit["id"] + "q_", d=d), id=unit["id"] + "q")]


@judge
def again(unit, res, d):
    out, st = replay(dict(unit, cases=unit["cases"][:1]), res, d)
    a = unit["cases"][0]
    ea = res[a["id"]][0]
    for c in unit["cases"][1:]:
        eb, death = res[c["id"]]
        if death:
            out.append(Disc({"C16", "C19"}, "death", "repeated run: " + death))
            continue
        ra, rb = results(a["ops"], ea), results(c["ops"], eb)
        if ra != rb:
            i = min(i for i in set(ra) | set(rb) if ra.get(i) != rb.get(i))
            out.append(Disc({"C19"}, "repeat-result", "%s gave %s, then %s" % (brief(a["ops"][i]), ra.get(i), rb.get(i))))
        st["repeated saves compared"] += compare_runs(d, out, {"C19"}, "repeat-content", a["ops"], ea, c["ops"], eb, "first run", "repeated run")
    return out, st


# ---------------------------------------------------------------------------- C20: independence

@generator
def together(rng, b, uid, arg):
    """Several documents: each alone, interleaved in one thread, and in parallel threads."""
    n = rng.randint(2, 4)
    solo = []
    common = [gen.style(rng, 0.3) for _ in range(3)] if rng.random() < 0.3 else None
    for i in range(n):
        key = "abcd"[i]
        if rng.random() < 0.15:
            c = gen.office_history(rng, b, "%s_%s" % (uid, key))
            for o in c["ops"]:
                o["doc"] = key
        else:
            prof = dict(gen.PROFILES[rng.choice(["mix", "sst", "styles", "cells", "sheets", "views"] if common is None else ["styles"])])
            prof.update(gens=(1, 2), n=(4, 14), bad=0.05)
            h = gen.Hist(rng, b, "%s_%s" % (uid, key), prof, doc=key)
            if common is not None:   # the same settings wanted in all of them
                h.settings = common
            c = h.run()
        c["id"] = "%s_%s" % (uid, key)
        solo.append(c)
    if n > 2 and rng.random() < 0.5:   # the same work twice
        t = json.loads(json.dumps(solo[0]))
        key = solo[1]["id"][-1]
        s = json.dumps(t["ops"])
        s = s.replace("%s_a" % uid, "%s_%s" % (uid, key)).replace('"doc": "a"', '"doc": "%s"' % key)
        s = re.sub(r'"(h|id|s|style)": "a(h|s)', r'"\1": "%s\2' % key, s)
        fs = [f.replace("%s_a" % uid, "%s_%s" % (uid, key)) for f in t["files"]]
        for f, g in zip(t["files"], fs):
            shutil.copy(b.path(f), b.path(g))
        solo[1] = dict(t, id=solo[1]["id"], ops=json.loads(s), files=fs)
    cases = list(solo)
    for v in "mp":
        cl = [clone(c, uid + "_", uid + v + "_", b) for c in solo]
        files = [f for c in cl for f in c["files"]]
        if v == "p":
            cases.append({"id": uid + "p", "parallel": [c["ops"] for c in cl], "files": files})
            continue
        order = []
        left = [0] * n
        burst = rng.choice([1, 1, 3, 8])
        while any(left[i] < len(cl[i]["ops"]) for i in range(n)):
            i = rng.choice([i for i in range(n) if left[i] < len(cl[i]["ops"])])
            for _ in range(rng.randint(1, burst)):
                if left[i] < len(cl[i]["ops"]):
                    order.append((i, left[i]))
                    left[i] += 1
        cases.append({"id": uid + "m", "ops": [cl[i]["ops"][j] for i, j in order], "files": files, "order": order})
    return U(uid, "independent", cases, n=n)


@judge
def independent(unit, res, d):
    out, st = replay(unit, res, d)
    n = unit["data"]["n"]
    solo, (merged, par) = unit["cases"][:n], unit["cases"][n:]
    tags = {"C20"}
    em = res[merged["id"]][0]
    ep = res[par["id"]][0]
    for x in (merged, par):
        if res[x["id"]][1]:
            out.append(Disc(tags, "death", "several documents: %s" % res[x["id"]][1]))
            return out, st
    switches = 0
    for i in range(n):
        ops = solo[i]["ops"]
        es, death = res[solo[i]["id"]]
        if death:
            continue
        rs = results(ops, es)
        back = {k: j for k, (q, j) in enumerate(merged["order"]) if q == i}
        mi = [dict(e, i=back[e["i"]]) for e in em if e.get("i", -1) in back]
        mops = [merged["ops"][k] for k in sorted(back)]
        pi = [e for e in ep if e.get("t") == i and e.get("i", -1) >= 0]
        for what, ops2, e2 in (("interleaved", mops, mi), ("in parallel", par["parallel"][i], pi)):
            r2 = results(ops2, e2)
            if r2 != rs:
                k = min(k for k in set(rs) | set(r2) if rs.get(k) != r2.get(k))
                out.append(Disc(tags, "together-result", "%s: %s alone, %s %s" % (brief(ops[k]), rs.get(k), r2.get(k), what)))
                continue
            st["saves compared " + what] += compare_runs(d, out, tags, "together-content", ops, es, ops2, e2, "alone", what)
    st["document switches"] += sum(1 for x, y in zip(merged["order"], merged["order"][1:]) if x[0] != y[0])
    last = None
    for e in ep:
        if "t" in e:
            st["thread switches seen"] += last is not None and e["t"] != last
            last = e["t"]
    return out, st


# ---------------------------------------------------------------------------- C27: layouts

class TwinHist(gen.Hist):
    """Writes every source twice: plain, and laid out another way."""

    def fixture(self):
        rng = self.rng
        seed = rng.getrandbits(64)
        base = dict(self.p["fix"])
        odd = dict(base, names=rng.choice(fixtures.NAMES), pfx=rng.choice(["", "x:", "main:"]))
        a, meta = fixtures.workbook(random.Random(seed), dict(base))
        c, _ = fixtures.workbook(random.Random(seed), odd)
        name = "%s_%s%d.xlsx" % (self.cid, self.doc, self.nf)
        other = name.replace(self.cid + "_", self.cid + "x_")
        self.nf += 1
        a.write(self.batch.path(name), {})
        lay = fixtures.layout(rng)
        lay["respell"] = "twin" if rng.random() < 0.4 else False
        if lay["respell"]:
            lay.pop("bom", None)
        c.write(self.batch.path(other), lay)
        self.files += [name, other]
        self.names = [{p.name: k for k, p in a.parts.items()}, {p.name: k for k, p in c.parts.items()}]
        self.sheets = []
        for i, n in enumerate(meta["sheet_names"]):
            f = meta["facts"][i]
            s = gen.SheetS(n, f is None)
            if f:
                s.avoid = {(r, q) for r, q, _ in f["shared"]}
            self.sheets.append(s)
        return name


@generator
def layouts(rng, b, uid, arg):
    prof = dict(gen.PROFILES[arg or "mix"])
    prof.update(new=0.0, gens=(1, 2), inplace=0.0, bad=0.03, drop=0.0, layout="any", named=True)
    prof["fix"] = {k: v for k, v in prof.get("fix", {}).items() if v is not None}
    h = TwinHist(rng, b, uid, prof)
    c = h.run()
    o = json.loads(json.dumps(c).replace(uid + "_", uid + "x_"))
    o["id"] = uid + "x"
    o["files"] = [f for f in c["files"]]
    return U(uid, "same_meaning", [c, o], names=h.names)


@judge
def same_meaning(unit, res, d):
    out, st = replay(unit, res, d)
    a, c = unit["cases"]
    (ea, da), (eb, db) = res[a["id"]], res[c["id"]]
    tags = {"C27"}
    if da or db:
        return out, st
    ra, rb = results(a["ops"], ea), results(c["ops"], eb)
    if ra != rb:
        i = min(i for i in set(ra) | set(rb) if ra.get(i) != rb.get(i))
        out.append(Disc(tags, "layout-result", "%s: %s with the default layout, %s with the other" % (brief(a["ops"][i]), ra.get(i), rb.get(i))))
        return out, st
    na, nb = unit["data"]["names"]
    for (_, pa), (_, pb) in zip(saves(a["ops"], ea), saves(c["ops"], eb)):
        x, y = read(d, pa, out, tags), read(d, pb, out, tags)
        if x is None or y is None:
            continue
        try:
            ca, cb = twin.logical_content(x, na), twin.logical_content(y, nb)
        except XmlError as ex:
            out.append(Disc(tags | {"C01"}, "xml", str(ex)))
            continue
        st["layout twins compared"] += 1
        for line in twin.diff(ca, cb, "default layout", "other layout")[:4]:
            out.append(Disc(tags, "layout-content", line))
    return out, st


# ---------------------------------------------------------------------------- C14: malformed parts

ROLES = ("types", "rootrels", "book", "bookrels", "sst", "styles", "core", "sheet", "theme", "chain")


def roles(p):
    b = Book(p)
    return {"types": p.find("[Content_Types].xml"), "rootrels": p.find("_rels/.rels"), "book": b.part, "bookrels": p.find("xl/_rels/workbook.xml.rels"),
            "sst": b.sst_part, "styles": b.style_part, "core": model.core_part(p), "sheet": b.sheets[0]["part"], "theme": p.rel_part(b.part, "/theme"), "chain": b.chain_part}


def rewrite(src, dst, change):
    """Copies a package with some parts replaced ({name: bytes or None to leave out})."""
    with zipfile.ZipFile(src) as zi, zipfile.ZipFile(dst, "w", zipfile.ZIP_DEFLATED) as zo:
        for i in zi.infolist():
            data = change.get(i.filename, zi.read(i))
            if data is not None:
                zo.writestr(zipfile.ZipInfo(i.filename, (2020, 1, 2, 3, 4, 6)), data, zipfile.ZIP_DEFLATED)


@generator
def malformed(rng, b, uid, arg):
    """One part damaged in every way for one role. arg: role."""
    pk, meta = fixtures.workbook(rng, dict(sst=True, styles=True, chain=True, theme=True, core="office", chartsheet=False))
    base = uid + "_base.xlsx"
    pk.write(b.path(base), {})
    p = Package(b.path(base))
    role = arg
    part = roles(p).get(role)
    cases, info = [], {}
    if not part or part not in p.parts:
        return None
    for kind in sorted(respell.DAMAGE):
        raw = respell.damaged(rng, p.parts[part], kind)
        if raw is None:
            continue
        cid = "%s_%s" % (uid, kind)
        rewrite(b.path(base), b.path(cid + ".xlsx"), {part: raw})
        ops = [dict(op="open", path=cid + ".xlsx")]
        for j, n in enumerate(meta["sheet_names"]):
            ops += [dict(op="get_sheet", name=n, h="h%d" % j), dict(op="close", h="h%d" % j)]
        ops.append(dict(op="save", path=cid + "_o.xlsx"))
        cases.append({"id": cid, "ops": ops, "files": [cid + ".xlsx"]})
        info[cid] = (kind, raw.decode("latin-1"))
    return U(uid, "not_accepted", cases, role=role, part=part, info=info)


@generator
def mixed(rng, b, uid, arg):
    """Characters between elements that are not white space to XML, however they look: refused or kept."""
    pk, meta = fixtures.workbook(rng, dict(sst=True, styles=True, chain=True, theme=True, core="office", chartsheet=False, pfx=""))
    base = uid + "_base.xlsx"
    pk.write(b.path(base), {})
    p = Package(b.path(base))
    cases, parts = [], {}
    for role, part in sorted(roles(p).items()):
        if not part or part not in p.parts or role in ("types", "rootrels", "bookrels", "core"):
            continue
        raw = p.parts[part]
        at = [m.end() for m in re.finditer(rb"<[A-Za-z:]+(?: [^<>]*)?[^/]>(?=<[A-Za-z])|</[A-Za-z:]+>(?=<[A-Za-z])", raw)]
        if not at:
            continue
        i = rng.choice(at)
        t = rng.choice(["\u00a0", "\u3000", "\u2003\u2003", "\u0085", "\u2028", "\ufeff", "\u200b", "&#160;", " x ", "&#13;\u00a0", "<![CDATA[\u00a0]]>", "0"])
        cid = "%s_%s" % (uid, role)
        rewrite(b.path(base), b.path(cid + ".xlsx"), {part: raw[:i] + t.encode() + raw[i:]})
        ops = [dict(op="open", path=cid + ".xlsx")]
        for j, n in enumerate(meta["sheet_names"]):
            ops += [dict(op="get_sheet", name=n, h="h%d" % j), dict(op="close", h="h%d" % j)]
        ops.append(dict(op="save", path=cid + "_o.xlsx"))
        cases.append({"id": cid, "ops": ops, "files": [cid + ".xlsx"]})
        parts[cid] = part
    return U(uid, "kept_or_refused", cases, parts=parts)


@judge
def kept_or_refused(unit, res, d):
    out, st = [], collections.Counter()
    for case in unit["cases"]:
        ev, death = res[case["id"]]
        part = unit["data"]["parts"][case["id"]]
        for e in ev:
            if e.get("r") == "panic":
                out.append(Disc({"C14", "C16"}, "panic", "text between elements of %r: %s" % (part, e.get("m"))))
        if death:
            out.append(Disc({"C14", "C16"}, "death", "text between elements of %r: %s" % (part, death)))
            continue
        if any(e.get("r") in ("err", "panic") for e in ev):
            st["text between elements refused"] += 1
            continue
        old, new = read(d, case["id"] + ".xlsx", out, {"C14"}), read(d, case["id"] + "_o.xlsx", out, {"C14"})
        if old is None or new is None:
            continue
        st["text between elements written again"] += 1
        try:
            if canon(old.xml(part)) != canon(new.xml(part)):
                out.append(Disc({"C14", "C04"}, "mixed-lost", "text between elements of %r was read, and written as something else" % part))
        except (KeyError, XmlError) as ex:
            out.append(Disc({"C14"}, "mixed-lost", "%r is not readable any more: %r" % (part, ex)))
    return out, st


@judge
def not_accepted(unit, res, d):
    out, st = [], collections.Counter()
    role, part = unit["data"]["role"], unit["data"]["part"]
    for case in unit["cases"]:
        ev, death = res[case["id"]]
        kind, raw = unit["data"]["info"][case["id"]]
        raw = raw.encode("latin-1")
        for e in ev:
            if e.get("r") == "panic":
                out.append(Disc({"C14", "C16"}, "panic", "%s %s: %s" % (role, kind, e.get("m"))))
        if death:
            out.append(Disc({"C14", "C16"}, "death", "%s %s: %s" % (role, kind, death)))
            continue
        if any(e.get("r") in ("err", "panic") for e in ev):
            st["malformed parts refused"] += 1
            continue
        st["malformed parts not read"] += 1
        try:
            kept = Package(os.path.join(d, case["id"] + "_o.xlsx")).parts.get(part) == raw
        except READ_ERRORS:
            kept = False
        if not kept:
            out.append(Disc({"C14"}, "malformed-accepted", "%s part %r with %s was read, and written as something else" % (role, part, kind)))
    return out, st


# ---------------------------------------------------------------------------- sweeps

def sheet_case(uid, ops, again=True, first="sheet1"):
    """A new workbook with one sheet under handle h, saved, and saved once more after re-opening."""
    o = [dict(op="open"), dict(op="get_sheet", name={"nth": 0}, h="h")] + ops + [dict(op="close", h="h"), dict(op="save", path=uid + "_o0.xlsx")]
    if again:
        o += [dict(op="open", path=uid + "_o0.xlsx"), dict(op="get_sheet", name={"nth": 0}, h="h"), dict(op="row_ref", h="h", ref="XFD1048576", cells=[{"v": "end"}]),
              dict(op="close", h="h"), dict(op="save", path=uid + "_o1.xlsx")]
    return {"id": uid, "ops": o, "files": []}


def rnd_text(rng):
    pools = ["abc XYZ 019", " \t\n\r", "&<>\"'];[", "äöüßéñ", "日本語漢字", "😀🎉👩", "\u200b\u00a0\u3000\u2028\ufeff", "._+-eE0123456789", "\u0301\u0308", "\ud7ff\ue000\ufffd\U00010000\U0010fffd"]
    return "".join(rng.choice(rng.choice(pools)) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 20, 60])))


@generator
def matrix(rng, b, uid, arg):
    """Every data type with every value of the pools (arg: slice), plus random texts."""
    t, part, parts = arg
    pool = list(dict.fromkeys(gen.TEXTS + gen.NUMBERS + gen.NOT_NUMBERS + gen.BOOLS + ["#N/A", "#REF!"]))[part::parts] + [rnd_text(rng) for _ in range(60)]
    ops = []
    r = 1
    for i, v in enumerate(pool):
        c = {"t": t, "v": v}
        if t == "Auto" and i % 2:
            del c["t"]
        ops.append(dict(op="row_idx", h="h", row=r, col=1 + i % 50, cells=[c]))
        if i % 50 == 49:
            r += 1
    for v in gen.BAD_TEXTS:
        ops.append(dict(op="row_idx", h="h", row=r + 1, col=2, cells=[{"t": t, "v": v}]))
    for i, f in enumerate(gen.FORMULAS):
        ops.append(dict(op="row_idx", h="h", row=r + 2, col=1 + i, cells=[{"t": t, "v": rng.choice(["1", "true", "#N/A", "text"]) if t in ("Auto", "ShareString", "InlineString", "String") else {"Number": "1", "Boolean": "1", "Error": "#N/A"}[t], "f": f}]))
    return U(uid, "replay", [sheet_case(uid, ops)])


@generator
def unicode_sweep(rng, b, uid, arg):
    lo, hi, step = arg
    ops, r = [], 1
    row = []
    types = ["ShareString", "InlineString", "Auto", "String"]
    for cp in range(lo + rng.randrange(step), hi, step):
        if 0xd800 <= cp < 0xe000:
            continue
        ch = chr(cp)
        if not model.xml_ok(ch):
            ops.append(dict(op="row_idx", h="h", row=r, col=1, cells=[{"t": types[cp % 4], "v": "x" + ch}]))
            continue
        row.append({"t": types[cp % 4], "v": [ch, "a" + ch, ch + "b", "a" + ch + "b"][(cp // 4) % 4]})
        if len(row) == 100:
            ops.append(dict(op="row_idx", h="h", row=r, col=1, cells=row))
            row, r = [], r + 1
    if row:
        ops.append(dict(op="row_idx", h="h", row=r, col=1, cells=row))
    return U(uid, "replay", [sheet_case(uid, ops)])


@generator
def column_sweep(rng, b, uid, arg):
    """Every column by reference and by index."""
    lo, hi = arg
    ops = []
    for c in range(lo, hi):
        t = col_name(c)
        t = t.lower() if c % 3 == 0 else t[:1] + t[1:].lower() if c % 3 == 1 else t
        ops.append(dict(op="row_ref", h="h", ref="%s%d" % (t, 7), cells=[{"t": "Number", "v": str(c)}]))
        ops.append(dict(op="row_idx", h="h", row=9, col=c, cells=[{"t": "Number", "v": str(c)}]))
        if c % 37 == 0:
            ops.append(dict(op="col_ref", h="h", ref=t, p={"width": 1 + c % 100}))
    return U(uid, "replay", [sheet_case(uid, ops, again=False)])


@generator
def row_sweep(rng, b, uid, arg):
    ops = []
    rows = sorted({max(1, min(1048576, x + d)) for e in range(21) for x in (2 ** e, 10 ** min(e, 6)) for d in (-1, 0, 1)} | {rng.randrange(1, 1048577) for _ in range(60)})
    rng.shuffle(rows)
    for r in rows:
        c = rng.choice([1, 2, 26, 27, 702, 703, 16384, rng.randrange(1, 16385)])
        ops.append(dict(op="row_ref", h="h", ref=ref(r, c), cells=[{"t": "Number", "v": str(r)}]))
        if rng.random() < 0.3:
            ops.append(dict(op="row_props", h="h", row=r, p={"height": 1 + r % 300}))
    for r in (0, 1048577, 2 ** 31, 2 ** 32 - 1, 1048576 + 2 ** 20):
        ops.append(dict(op="row_idx", h="h", row=r, col=1, cells=[{"v": "x"}]))
        ops.append(dict(op="row_ref", h="h", ref="A%d" % r, cells=[{"v": "x"}]))
    for t in gen.BAD_REFS:
        ops.append(dict(op="row_ref", h="h", ref=t, cells=[{"v": "x"}]))
    for t in gen.BAD_COLS:
        ops.append(dict(op="col_ref", h="h", ref=t, p={"width": 5}))
    return U(uid, "replay", [sheet_case(uid, ops)])


@generator
def many_styles(rng, b, uid, arg):
    """Hundreds of formats in one workbook, requested again after re-opening."""
    n = arg or 200
    sts, ops = [], [dict(op="open")]
    for i in range(n):
        k = rng.random()
        s = gen.one_edit(rng, rng.choice(sts)) if sts and k < 0.5 else rng.choice(sts) if sts and k < 0.6 else gen.style(rng, rng.choice([0.2, 0.6, 0.95]))
        sts.append(s)
    ops.append(dict(op="get_sheet", name={"nth": 0}, h="h"))
    for i, s in enumerate(sts):
        ops.append(dict(op="style", id="s%d" % i, style=s))
        if i % 3 == 0:
            ops.append(dict(op="row_idx", h="h", row=1 + i // 30, col=1 + i % 30, cells=[{"v": "t%d" % i, "s": "s%d" % rng.randrange(i + 1)}]))
    ops += [dict(op="close", h="h"), dict(op="save", path=uid + "_o0.xlsx"), dict(op="open", path=uid + "_o0.xlsx"), dict(op="get_sheet", name={"nth": 0}, h="h")]
    for i in rng.sample(range(n), min(n, 60)):
        ops.append(dict(op="style", id="r%d" % i, style=sts[i] if rng.random() < 0.6 else gen.one_edit(rng, sts[i])))
        ops.append(dict(op="row_idx", h="h", row=500, col=1 + i, cells=[{"v": "again", "s": "r%d" % i}]))
    ops += [dict(op="close", h="h"), dict(op="save", path=uid + "_o1.xlsx")]
    return U(uid, "replay", [{"id": uid, "ops": ops, "files": []}])


@generator
def bulk(rng, b, uid, arg):
    """Sizes the small histories do not reach: many strings, rows, sheets, long texts, over several generations."""
    kind = arg or rng.choice(["strings", "sheets", "long", "wide", "rows", "old"])
    ops, files, cur, gone = [], [], None, set()
    if kind == "old":
        pk, meta = fixtures.workbook(rng, dict(sheets=rng.choice([3, 12]), sst=True, many_strings=True, styles=True, dense=True))
        cur = uid + "_src.xlsx"
        pk.write(b.path(cur), fixtures.layout(rng))
        files.append(cur)
    if kind in ("tall", "big", "crowd"):
        cur = uid + "_src.xlsx"
        files.append(cur)
    if kind == "big":
        pk, meta = fixtures.workbook(rng, dict(sheets=1))
        for i, n in enumerate([9 << 20, 17 << 20, (33 << 20) + 1]):
            chunk = rng.randbytes(997)
            pk.add("huge%d" % i, "xl/media/huge%d.%s" % (i, ["bin", "xml", "png"][i]), "application/octet-stream", (chunk * (n // 997 + 1))[:n])
        pk.write(b.path(cur), fixtures.layout(rng))
    if kind == "crowd":
        pk, meta = fixtures.workbook(rng, dict(sheets=270, sheet_names=["C%d" % i for i in range(270)], features=[], chartsheet=False))
        pk.write(b.path(cur), fixtures.layout(rng))
    if kind == "tall":
        pk, meta = fixtures.workbook(rng, dict(sheets=1, sheet_names=["Data"], features=[], sst=True, chartsheet=False, chain=False))
        sst = pk.parts["sst"]
        n = 66000
        sst.data = ('<sst xmlns="%s" uniqueCount="%d">%s</sst>' % (fixtures.NS_MAIN, n, "".join("<si><t>t%d</t></si>" % i for i in range(n)))).encode()
        part = pk.parts["sheet0"]
        part.data = ('<worksheet xmlns="%s"><sheetData>%s</sheetData></worksheet>' % (fixtures.NS_MAIN, "".join('<row r="%d"><c r="B%d" t="s"><v>%d</v></c></row>' % (i, i, i % n) for i in range(1, n + 10)))).encode()
        part.rels = []
        pk.write(b.path(cur), {})
    for g in range(2 if kind not in ("tall", "big") else 1):
        ops.append(dict(op="open", path=cur))
        if kind == "big":
            ops += [dict(op="add_sheet", name="New", h="h"), dict(op="row_ref", h="h", ref="A1", cells=[{"v": "x"}]), dict(op="close", h="h")]
        elif kind == "crowd":
            for i in rng.sample(range(270), 12):
                h = "h%d" % i
                if g == 0 or i not in gone:
                    ops += [dict(op="get_sheet", name="C%d" % i, h=h), dict(op="row_ref", h=h, ref="A1", cells=[{"v": "edit %d" % i}])]
                    if i % 3 == 0:
                        gone.add(i)
                        ops.append(dict(op="delete_sheet", h=h))
                    else:
                        ops.append(dict(op="close", h=h))
            ops += [dict(op="add_sheet", h="n"), dict(op="row_ref", h="n", ref="A1", cells=[{"v": "new"}]), dict(op="close", h="n")]
        elif kind == "tall":
            ops.append(dict(op="get_sheet", name="Data", h="h"))
            for r in (1, 255, 256, 257, 65535, 65536, 65537, 66009, 66010):
                ops.append(dict(op="row_idx", h="h", row=r, col=3, cells=[{"t": "ShareString", "v": "t%d" % (r % 66000)}, {"t": "ShareString", "v": "new %d" % r}]))
            ops += [dict(op="row_props", h="h", row=65536, p={"height": 20}), dict(op="close", h="h")]
        elif kind in ("strings", "old"):
            name = "S%d" % g
            ops.append(dict(op="add_sheet", name=name, h="h"))
            for r in range(1, 13):
                ops.append(dict(op="row_idx", h="h", row=r * 7 % 13 + 1, col=1, cells=[{"t": "ShareString", "v": "text %d" % ((r * 100 + i) % (700 + 300 * g))} for i in range(100)]))
            ops.append(dict(op="close", h="h"))
        elif kind == "sheets":
            for i in range(14):
                h = "h%d" % i
                ops.append(dict(op="add_sheet", name="N%d_%d" % (g, i) if i % 3 else None, h=h))
                ops.append(dict(op="row_ref", h=h, ref="B%d" % (i + 1), cells=[{"v": "sheet %d" % i}, {"t": "Number", "v": str(i)}]))
                if i % 4 == 3:
                    ops.append(dict(op="delete_sheet", h=h))
                else:
                    ops.append(dict(op="close", h=h))
        elif kind == "long":
            ops.append(dict(op="add_sheet", name="L%d" % g, h="h"))
            for i, n in enumerate([255, 256, 32767, 32768, 65535, 65536, 70000]):
                ops.append(dict(op="row_idx", h="h", row=i + 1, col=1, cells=[{"t": t, "v": rng.choice("aé日 ") * (n - 1) + "z"} for t in ("ShareString", "InlineString", "Auto")]))
            ops.append(dict(op="close", h="h"))
        elif kind == "wide":
            ops.append(dict(op="add_sheet", name="W%d" % g, h="h"))
            for r in (3, 1048576):
                ops.append(dict(op="row_idx", h="h", row=r, col=1 if r == 3 else 16384 - 1999, cells=[{"t": "Number", "v": str(i)} for i in range(2000)]))
            ops.append(dict(op="close", h="h"))
        else:
            ops.append(dict(op="add_sheet", name="R%d" % g, h="h"))
            rows = list(range(1, 1500))
            rng.shuffle(rows)
            for r in rows:
                ops.append(dict(op="row_idx", h="h", row=r, col=1 + r % 5, cells=[{"t": "Number", "v": str(r)}]))
            ops.append(dict(op="close", h="h"))
        cur = "%s_o%d.xlsx" % (uid, g)
        ops.append(dict(op="save", path=cur))
    return U(uid, "replay", [{"id": uid, "ops": ops, "files": files}])


# ---------------------------------------------------------------------------- known finding

@generator
def shared_formula(rng, b, uid, arg):
    """Overwriting the cell that holds a shared formula's text."""
    pk, meta = fixtures.workbook(random.Random(7), dict(sheets=1, sheet_names=["Data"], features=[], sst=False, styles=False, chartsheet=False, chain=False))
    part = pk.parts["sheet0"]
    part.data = ('<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<worksheet xmlns="%s"><sheetData><row r="1"><c r="A1"><f t="shared" ref="A1:A3" si="0">B1*2</f><v>2</v></c></row>'
                 '<row r="2"><c r="A2"><f t="shared" si="0"/><v>4</v></c></row><row r="3"><c r="A3"><f t="shared" si="0"/><v>6</v></c></row></sheetData></worksheet>' % fixtures.NS_MAIN).encode()
    part.rels = []
    src = uid + "_src.xlsx"
    pk.write(b.path(src), {})
    ops = [dict(op="open", path=src), dict(op="get_sheet", name="Data", h="h"), dict(op="row_ref", h="h", ref="A1", cells=[{"t": "Number", "v": "5"}]), dict(op="close", h="h"), dict(op="save", path=uid + "_o.xlsx", unchecked=True)]
    return U(uid, "shared_master", [{"id": uid, "ops": ops, "files": [src]}])


@judge
def shared_master(unit, res, d):
    case = unit["cases"][0]
    ev, death = res[case["id"]]
    out, st = [], collections.Counter()
    if death:
        return [death_disc(case["ops"], ev, death)], st
    for _, p in saves(case["ops"], ev):
        pkg = read(d, p, out, {"C03", "C04"})
        if pkg is None:
            continue
        st["saves"] += 1
        sh = Book(pkg).sheet(Book(pkg).sheets[0]["part"])
        groups = collections.defaultdict(lambda: [0, []])
        for at, c in sh.cells.items():
            f = c.node.first("f")
            if f is not None and f.get("t") == "shared":
                if f.text():
                    groups[f.get("si")][0] += 1
                else:
                    groups[f.get("si")][1].append(ref(*at))
        for si, (masters, deps) in groups.items():
            if deps and masters != 1:
                out.append(Disc({"C03", "C04"}, "shared-formula-master", "cells %s use shared formula %s, whose text was in the overwritten A1" % (deps, si)))
    return out, st
