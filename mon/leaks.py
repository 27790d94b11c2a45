"""C21: the same history over and over in one process; descriptors, threads, live heap bytes and files after every
cycle. What a finished cycle keeps shows as growth that does not stop after the warm-up."""
import collections, os, random
import fixtures, fuzz, gen, harness
from harness import Disc
from units import U, RUNNER, generator, judge

WARM = 4


def ending(rng, ops):
    """Whatever the history leaves open is let go, in either order."""
    hs = sorted({o.get("h", "h") for o in ops if "h" in o})
    ds = sorted({o.get("doc", "d") for o in ops if o["op"] == "open"})
    end = [dict(op="close", h=h) for h in hs] if rng.random() < 0.5 else []
    return end + [dict(op="drop_doc", doc=x) for x in ds] + [dict(op="close", h=h) for h in hs]


def failing(rng, uid, ops):
    """Makes some cycles end badly: the save goes nowhere, or the document is dropped half way."""
    k = rng.random()
    saves = [i for i, o in enumerate(ops) if o["op"] == "save"]
    if k < 0.35 and saves:
        ops[rng.choice(saves)]["path"] = rng.choice(["no/such/dir/x.xlsx", ".", "", uid + "_dir"])
    elif k < 0.6:
        del ops[rng.randrange(1, len(ops) + 1):]
    return ops


@generator
def leak(rng, b, uid, arg):
    """arg: profile of the histories, or 'office', 'fuzz', 'shape'."""
    cycles = []
    files = []
    for j in range(rng.choice([1, 1, 2])):
        cid = "%sc%d" % (uid, j)
        if arg == "office":
            c = gen.office_history(rng, b, cid)
        elif arg == "fuzz":
            u = fuzz.fuzz(rng, b, cid, None)
            c = {"ops": [o for x in u["cases"][:3] for o in x["ops"]], "files": [f for x in u["cases"] for f in x["files"]]}
        elif arg == "args":
            c = fuzz.hostile_args(rng, b, cid, None)["cases"][0]
        else:
            c = gen.history(rng, b, cid, dict(gen.PROFILES[arg], inplace=0.0, drop=0.1))
        ops = c["ops"]
        if arg not in ("fuzz", "args") and rng.random() < 0.5:
            ops = failing(rng, uid, ops)
        cycles.append(ops + ending(rng, ops))
        files += c["files"]
    one = [o for c in cycles for o in c if o["op"] not in ("fds", "heap")] + [dict(op="sample")]
    n = max(9, min(30, 900 // len(one)))
    ops = [dict(op="mkdir", path=uid + "_dir"), dict(op="sample")] + one * (WARM + n)
    return U(uid, "leak", [{"id": uid, "ops": ops, "files": sorted(set(files))}], cycle=len(one))


@generator
def long_run(rng, b, uid, arg):
    """Many cheap cycles: a slow leak or a counter that runs out."""
    pk, meta = fixtures.workbook(rng, dict(sheets=2, chartsheet=False))
    src = uid + "_src.xlsx"
    pk.write(b.path(src), {})
    kinds = {
        "open": [dict(op="open", path=src), dict(op="drop_doc")],
        "edit": [dict(op="open", path=src), dict(op="get_sheet", name=meta["sheet_names"][0], h="h"), dict(op="row_ref", h="h", ref="B900", cells=[{"v": "x"}]), dict(op="close", h="h"), dict(op="save", path=uid + "_o.xlsx")],
        "new": [dict(op="open"), dict(op="add_sheet", name="A", h="h"), dict(op="row_ref", h="h", ref="A1", cells=[{"v": "x"}]), dict(op="close", h="h"), dict(op="save", path=uid + "_o.xlsx")],
        "bad": [dict(op="open", path=uid + "_none.xlsx"), dict(op="open", doc="e", path=uid + "_bad.xlsx"), dict(op="open", path=src), dict(op="get_sheet", name="no such sheet", h="h"), dict(op="add_sheet", name=meta["sheet_names"][0], h="h"), dict(op="get_sheet", name=meta["sheet_names"][0], h="h"),
                dict(op="row_ref", h="h", ref="nonsense", cells=[{"v": "x"}]), dict(op="save", path=uid + "_o.xlsx"), dict(op="close", h="h")],
        "handles": [dict(op="open", path=src), dict(op="get_sheet", name=meta["sheet_names"][0], h="a"), dict(op="get_sheet", name=meta["sheet_names"][-1], h="b"), dict(op="drop_doc"), dict(op="close", h="a"), dict(op="row_ref", h="b", ref="A1", cells=[{"v": "1"}]), dict(op="close", h="b")],
    }
    with open(b.path(uid + "_bad.xlsx"), "wb") as f:
        f.write(open(b.path(src), "rb").read()[:-40])
    one = kinds[arg] + [dict(op="sample")]
    return U(uid, "leak", [{"id": uid, "ops": [dict(op="sample")] + one * 300, "files": [src, uid + "_bad.xlsx"]}], cycle=len(one))


def run_leak(us, d, binary):
    tmp = os.path.join(d, "tmpdir")
    os.makedirs(tmp, exist_ok=True)
    known = set(os.listdir(d))
    res = harness.run_cases(binary, d, [c for u in us for c in u["cases"]], env=dict(TMPDIR=tmp, HOME=tmp, XDG_RUNTIME_DIR=tmp, XDG_CACHE_HOME=tmp))
    mine = {o["path"] for u in us for c in u["cases"] for o in c["ops"] if o["op"] in ("save", "mkdir")}
    mine |= {o["to"] for u in us for c in u["cases"] for o in c["ops"] if o["op"] == "copy"}
    stray = []
    for base, dirs, files in os.walk(d):
        for n in files:
            p = os.path.relpath(os.path.join(base, n), d)
            if p not in mine and p not in known and not p.startswith(("cases", "events", "stderr")) and p.split("/")[0] not in known - {"tmpdir"}:
                stray.append(p)
    res["stray"] = sorted(stray)
    return res


RUNNER["leak"] = run_leak


@judge
def leak(unit, res, d):
    out, st = [], collections.Counter()
    T = {"C21"}
    for p in res["stray"][:5]:
        out.append(Disc(T, "file", "%s remains after all documents are closed" % p))
    if unit["id"] not in res:
        return out, st
    ev, death = res[unit["id"]]
    if death or any(e.get("r") == "panic" for e in ev):
        st["units left to the robustness check"] += 1
        return out, st
    smp = [e["v"] for e in ev if isinstance(e.get("v"), dict) and "heap" in e["v"]]
    if len(smp) < WARM + 6:
        return out, st
    st["cycles"] += len(smp) - 1
    saves = sum(1 for e in ev if "i" in e and e["i"] >= 0 and e["r"] == "ok" and unit["cases"][0]["ops"][e["i"]]["op"] == "save")
    st["saves in cycles"] += saves
    st["refusals in cycles"] += sum(1 for e in ev if e.get("r") == "err")
    first, last = smp[0], smp[-1]
    for k in ("fds", "threads"):
        if last[k] != smp[WARM][k] or any(s[k] != first[k] for s in smp[1:]) and last[k] != first[k]:
            if k == "fds":
                more = collections.Counter(last[k]) - collections.Counter(first[k])
                out.append(Disc(T, "descriptor", "descriptors open after %d cycles and not before: %s" % (len(smp) - 1, dict(more) or "fewer")))
            else:
                out.append(Disc(T, "thread", "%d threads before, %d after %d cycles" % (first[k], last[k], len(smp) - 1)))
    h = [s["heap"] for s in smp[WARM:]]
    k = len(h) // 3
    a, m, z = max(h[:k]), max(h[k:2 * k]), max(h[2 * k:])
    st["largest growth after warm-up, bytes"] = max(st["largest growth after warm-up, bytes"], z - a)
    if a < m < z:
        out.append(Disc(T, "heap", "live heap grows from cycle to cycle: %s" % ", ".join(map(str, h[:4] + h[-3:]))))
    return out, st
