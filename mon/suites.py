"""Which units decide which property, and how many of them."""

from faults import TARGETS
from fuzz import SCALES, SHAPES

TSAN = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0"}
ASAN = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=67:allocator_may_return_null=1"}

BASE_RULE = ("A unit is one or more scripted histories of API calls on the real library (calls, arguments and source packages drawn from the seed); "
             "it counts as non-trivial if the monitor judged something in it beyond calls being answered (saved files compared with the model or with a twin, "
             "refusals, faults, sweeps), and as distinct by the hash of its calls and source files.")
TRUST = ["zlib, CRC and ZIP reading of CPython; expat as XML reader", "the reference model in mon/model.py states what the calls mean", "the filesystem of the sandbox"]


def S(*units, rule="", level="exploration", assumptions=(), budget=None):
    return {"units": units, "rule": (rule + " " if rule else "") + BASE_RULE, "level": level, "assumptions": TRUST + list(assumptions), "budget": budget or {}}


def u(gen, n, arg=None, per=20, thorough=8, bin="debug", tier=None, **opts):
    return dict(gen=gen, n=n, arg=arg, per=per, thorough=thorough, bin=bin, tier=tier, opts=opts)


H = lambda prof, n, **k: u("hist", n, prof, **k)
TYPES = ("Auto", "ShareString", "InlineString", "String", "Number", "Boolean", "Error")
ROLES = ("types", "rootrels", "book", "bookrels", "sst", "styles", "core", "sheet", "theme", "chain")
BULK = ("strings", "sheets", "long", "wide", "rows", "old")


def sweep(gen, lo, hi, parts, **k):
    step = (hi - lo + parts - 1) // parts
    return [u(gen, 1, (a, min(hi, a + step)), per=1, thorough=1, **k) for a in range(lo, hi, step)]


def unisweep(parts, step, **k):
    out = []
    for lo, hi, s in ((1, 0x3000, 1), (0x3000, 0xd800, step), (0xe000, 0x10000, max(1, step // 4)), (0x10000, 0x110000, step * 16)):
        w = (hi - lo + parts - 1) // parts
        out += [u("unicode_sweep", 1, (a, min(hi, a + w), s), per=1, thorough=1, **k) for a in range(lo, hi, w)]
    return out


SUITES = {
    "C01": S(H("mix", 700), H("delete", 250), H("sheets", 250), H("rels", 250), H("keep", 300), u("office", 250), u("opaque", 400), u("bulk", 2, "sheets", per=1), u("bulk", 1, "crowd", per=1, thorough=3)),
    "C02": S(H("text", 1100), *[u("matrix", 2, (t, p, 3), per=2) for t in TYPES for p in range(3)], *unisweep(8, 7, tier="quick"), *unisweep(24, 1, tier="thorough"), u("bulk", 2, "long", per=1)),
    "C03": S(H("cells", 900), H("handles", 450), H("mix", 450), *[u("bulk", 2, k, per=1) for k in ("wide", "rows", "strings")], u("bulk", 1, "tall", per=1, thorough=2), u("shared_formula", 1, thorough=1), u("row_sweep", 6)),
    "C04": S(H("keep", 1100), H("light", 600), H("cells", 300), H("xml", 300), u("shared_formula", 1, thorough=1), u("bulk", 2, "old", per=1)),
    "C05": S(u("bulk", 1, "big", per=1, thorough=3), u("opaque", 1500), H("keep", 400), u("office", 600), H("delete", 150)),
    "C06": S(H("sst", 1100), H("delete", 200), H("mix", 300), *[u("bulk", 3, k, per=1) for k in ("strings", "old")], u("bulk", 1, "tall", per=1, thorough=2)),
    "C07": S(H("styles", 900), u("many_styles", 24, per=2), H("mix", 200), u("enum_styles", 4, per=1)),
    "C08": S(H("styles", 500), H("keep", 900), H("light", 400), u("many_styles", 6, per=1)),
    "C09": S(H("sheets", 1200), H("delete", 400), H("views", 200), u("bulk", 3, "sheets", per=1), u("bulk", 1, "crowd", per=1, thorough=3)),
    "C10": S(H("views", 1600), H("sheets", 300), H("keep", 250), u("bulk", 2, "crowd", per=1, thorough=3)),
    "C11": S(H("cols", 1600), H("keep", 300), *sweep("column_sweep", 1, 16385, 8)),
    "C12": S(H("rows", 1600), H("keep", 300), u("row_sweep", 10)),
    "C13": S(H("mix", 700), H("refs", 400), H("cells", 500), H("keep", 400), u("row_sweep", 10), H("cols", 300)),
    "C14": S(H("xml", 800), *[u("malformed", 4, r, per=2) for r in ROLES], u("mixed", 60), u("office", 300), H("keep", 300)),
    "C15": S(H("refs", 900), *sweep("column_sweep", 1, 16385, 16), u("row_sweep", 24, per=3)),
    "C16": S(u("fuzz", 900, per=15), *[u("mutants", 1, (w, k, 12), per=1, thorough=1, tier="quick") for w in range(3) for k in range(12)], *[u("mutants", 1, (w, k, 12), per=1, thorough=1, tier="thorough") for w in range(20) for k in range(12)], *[u("shape", 1, n, per=1, thorough=1) for n in SHAPES], *[u("bomb", 1, n, per=1, thorough=1) for n in ("media", "space", "text", "elements")],
             *[u("scale", 1, n, per=1, thorough=1) for n in SCALES], u("hostile_args", 500), u("blob", 3, per=1), H("bad", 200)),
    "C17": S(u("refused", 700, "bad"), u("refused", 250, "refs"), u("refused", 250, "sheets"), u("refused", 200, "styles"), u("refused", 200, "cols"), u("broken_sheet", 400)),
    "C18": S(u("fault", 150, per=3), *[u("target", 3, t, per=3) for t in TARGETS], u("office", 100), u("opaque", 100), level="exploration"),
    "C19": S(u("stable", 900), u("stable", 200, "keep"), u("repeat", 300), u("repeat", 100, "styles"), u("repeat", 100, "sst"), u("replaced", 60)),
    "C20": S(u("together", 800, per=10), u("replaced", 60), u("together", 80, "tsan", per=5, bin="tsan", mem=0, cpu=300, env=TSAN)),
    "C21": S(*[u("leak", 40, k, per=4) for k in ("mix", "bad", "delete", "handles", "keep", "sheets", "styles", "office", "fuzz", "args")], *[u("long_run", 1, k, per=1, thorough=3) for k in ("open", "edit", "new", "bad", "handles")]),
    "C22": S(u("slow", 6, per=1, thorough=2), u("office", 1200), H("keep", 700), H("light", 500)),
    "C23": S(H("delete", 1500), H("sheets", 300), u("bulk", 4, "sheets", per=1), u("bulk", 1, "crowd", per=1, thorough=3)),
    "C24": S(u("ffi", 900, per=15, bin="ffi")),
    "C25": S(H("handles", 1500), H("bad", 300)),
    "C26": S(H("rels", 1200), u("opaque", 500), u("office", 300), H("delete", 300)),
    "C27": S(u("layouts", 700), u("layouts", 200, "keep"), u("layouts", 200, "sheets")),
    "C28": S(u("enum_table", 1, thorough=1), u("enum_styles", 48, per=2), H("styles", 150)),
}


# How many times the listed number of units a quick run takes
QUICK = {"hist": 2, "opaque": 2, "office": 2, "refused": 2, "broken_sheet": 2, "malformed": 2, "layouts": 2, "many_styles": 2, "mixed": 2}


def plan(prop, tier):
    out = []
    for p in SUITES[prop]["units"]:
        if p["tier"] and p["tier"] != tier:
            continue
        out.append(dict(p, n=p["n"] * (p["thorough"] if tier == "thorough" else QUICK.get(p["gen"], 1))))
    return out
