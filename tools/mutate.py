#!/usr/bin/env python3
"""Sensitivity campaign (development aid, no check uses it): mutates single places of the library's sources in scratch
copies, builds the driver from them and runs a small sample of every suite until something is reported.

  mutate.py list                      number of mutants per file
  mutate.py run OUT.jsonl [SUBSTR]    run all (not yet in OUT), 8 at a time
  mutate.py show OUT.jsonl            survivors
Works in /tmp/mut on a snapshot of /repo, /tmp/mut/base."""
import json, os, re, shutil, subprocess, sys, time, collections
from concurrent.futures import ProcessPoolExecutor, as_completed
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "mon"))
ROOT = "/tmp/mut"
FILES = """files/office_document.rs files/xml/xml_tree.rs files/xml/xml_serialize.rs files/xml/xml_deserialize.rs utils/file_handling.rs
utils/converters.rs global/references/order_dictionary.rs global/references/element_dictionary.rs
global/global_2007/parts/content_types.rs global/global_2007/parts/core_properties.rs global/global_2007/parts/relations.rs
global/global_2007/parts/theme.rs global/global_2007/traits/xml_parts.rs
document/document_2007/word.rs presentation/presentation_2007/power_point.rs
spreadsheet/spreadsheet_2007/excel.rs spreadsheet/spreadsheet_2007/parts/workbook.rs spreadsheet/spreadsheet_2007/parts/worksheet.rs
spreadsheet/spreadsheet_2007/services/calculation_chain.rs spreadsheet/spreadsheet_2007/services/share_string.rs
spreadsheet/spreadsheet_2007/services/style.rs spreadsheet/spreadsheet_2007/services/common_service.rs
spreadsheet/spreadsheet_2007/models/style.rs spreadsheet/spreadsheet_2007/models/worksheet.rs""".split()

SWAPS = [(r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
         (r"&&", "||"), (r"\|\|(?= )", "&&"), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" \+= ", " -= "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_ok\(\)", ".is_err()"), (r"\.is_err\(\)", ".is_ok()"),
         (r"\.is_some_and\(", ".is_none_or("), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"),
         (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\.rev\(\)", ""), (r"\.trim\(\)", ""), (r"\.to_lowercase\(\)", ""), (r"\.to_ascii_lowercase\(\)", ""),
         (r"\.trim_start_matches\([^()]*\)", ""), (r"\.trim_end_matches\([^()]*\)", ""),
         (r"\.eq_ignore_ascii_case\(([^()]*)\)", r".eq(\1)"), (r"\bif (?!let\b)([^{}]+) \{", r"if !(\1) {"), (r"\.unwrap_or\(", ".map(|_| Default::default()).unwrap_or("),
         (r"starts_with\(", "ends_with("), (r"ends_with\(", "starts_with("), (r"\.find\(", ".rfind("), (r"\.rfind\(", ".find("), (r"\.skip\([^()]*\)", ""),
         (r"split_once\(", "rsplit_once("), (r"rsplit_once\(", "split_once("), (r"or_insert\(", "insert_entry("), (r"=> \{\}", "=> return Err(anyhow!(\"x\")),"),
         (r"continue;", "break;"), (r"break;", "continue;"), (r"\.\.=", ".."), (r"next_back\(\)", "next()"), (r"\.next\(\)", ".last()")]
NOISE = re.compile(r"context\(|anyhow!|log_elapsed|expect\(|//|^\s*\"[^\"]*\"\s*$|eprintln|#\[|^use |^\s*use ")


def code_lines(text):
    out, raw = [], False
    for i, l in enumerate(text.split("\n")):
        if raw:
            if '"#' in l:
                raw = False
            continue
        if 'r#"' in l and '"#' not in l.split('r#"', 1)[1]:
            raw = True
            continue
        out.append((i, l))
    return out


def statements(text):
    """(start, end) line ranges of removable statements."""
    lines = text.split("\n")
    prev = "{"
    for i, l in code_lines(text):
        s = l.strip()
        if not s or s.startswith("//"):
            continue
        if prev.endswith(("{", "}", ";")) and not re.match(r"(let|use|fn|pub|impl|struct|enum|mod|const|static|#|\}|\)|type|for|while|loop|match|else|Self|Ok|Some|return Ok)\b|[})#\]]", s):
            depth, j, ok = 0, i, False
            while j < len(lines) and j < i + 40:
                t = re.sub(r'"(\\.|[^"\\])*"', '""', lines[j])
                t = re.sub(r"'(\\.|[^'\\])'", "''", t)
                t = t.split("//")[0]
                depth += sum(t.count(c) for c in "([{") - sum(t.count(c) for c in ")]}")
                if depth < 0:
                    break
                if depth == 0 and t.rstrip().endswith(";"):
                    ok = True
                    break
                if depth == 0 and t.rstrip().endswith("}") and s.startswith("if "):
                    ok = True
                    break
                j += 1
            if ok:
                yield i, j
        prev = s


def mutants():
    out = []
    for f in FILES:
        text = open(ROOT + "/base/rs/src/" + f).read()
        lines = text.split("\n")
        seen = set()

        def add(kind, i, j, new):
            t = "\n".join(lines[:i] + new + lines[j + 1:])
            if t != text and t not in seen:
                seen.add(t)
                out.append({"id": "%s:%d:%s" % (f, i + 1, kind), "file": f, "line": i + 1, "kind": kind, "old": "\n".join(lines[i:j + 1]), "new": "\n".join(new), "i": i, "j": j})
        for i, l in code_lines(text):
            if l.strip().startswith("//") or re.search(r"^\s*#\[|^\s*use ", l):
                continue
            for k, (a, b) in enumerate(SWAPS):
                for n, m in enumerate(re.finditer(a, l)):
                    if l[:m.start()].count('"') % 2:
                        continue
                    add("swap%d.%d %s" % (k, n, b.strip()), i, i, [l[:m.start()] + m.expand(b) + l[m.end():]])
            for n, m in enumerate(re.finditer(r"(?<![\w.\"#])\d+(?![\w.\"])", l)):
                if l[:m.start()].count('"') % 2 == 0 and not NOISE.search(l):
                    add("int%d" % n, i, i, [l[:m.start()] + str(int(m.group()) + 1) + l[m.end():]])
            if not NOISE.search(l):
                for n, m in enumerate(re.finditer(r'"([^"{}\\]+)"', l)):
                    add("str%d" % n, i, i, [l[:m.start()] + '"' + m.group(1) + 'q"' + l[m.end():]])
        for i, j in statements(text):
            add("del", i, j, [""])
    return out


# ------------------------------------------------------------------- the sample of the suites

def sample_plan():
    H = lambda p, n: ("hist", p, n)
    x = [H(p, 14) for p in ("mix", "keep", "cells", "sheets", "delete", "views", "styles", "cols", "rows", "refs", "handles", "rels", "text", "sst", "light", "xml", "bad")]
    x += [("office", None, 16), ("opaque", None, 12), ("layouts", None, 16), ("matrix", ("Auto", 0, 3), 1), ("enum_table", None, 1), ("enum_styles", None, 1)]
    x += [("refused", "bad", 10), ("refused", "sheets", 5), ("broken_sheet", None, 10), ("stable", None, 8), ("repeat", None, 6)]
    x += [("malformed", r, 2) for r in ("types", "rootrels", "book", "bookrels", "sst", "styles", "core", "sheet", "theme", "chain")]
    x += [("fuzz", None, 10), ("together", None, 6), ("hostile_args", None, 8), ("fault", None, 2), ("target", "missing", 1), ("column_sweep", (1, 800), 1), ("column_sweep", (16000, 16385), 1), ("row_sweep", None, 1),
          ("many_styles", None, 1), ("bulk", "old", 1), ("leak", "mix", 1), ("leak", "keep", 1)]
    return x


def work(args):
    slot_q, m, seed, factor = args
    slot = SLOTS.get()
    try:
        return one(slot, m, seed, factor)
    finally:
        SLOTS.put(slot)


def prepare(slot):
    d = os.path.join(ROOT, "w%d" % slot)
    if not os.path.exists(d):
        os.makedirs(d)
        shutil.copytree(os.path.join(VERIF, "driver"), d + "/driver", ignore=shutil.ignore_patterns("target"))
        shutil.copytree(ROOT + "/base/rs", d + "/rs", ignore=shutil.ignore_patterns("target"))
        for n in ("Cargo.toml", "Cargo.lock"):
            if os.path.exists(ROOT + "/base/" + n):
                shutil.copy(ROOT + "/base/" + n, d)
        t = open(d + "/driver/Cargo.toml").read().replace('"/repo/rs"', '"%s/rs"' % d)
        t = t.replace("incremental = false", "incremental = true").replace('debug = "line-tables-only"', "debug = 0")
        open(d + "/driver/Cargo.toml", "w").write(t)
        t = open(d + "/Cargo.toml").read()
        t = re.sub(r"members\s*=\s*\[[^\]]*\]", 'members = ["rs"]', t)
        open(d + "/Cargo.toml", "w").write(t)
    return d


def one(slot, m, seed, factor):
    import harness, run, units, build
    d = prepare(slot)
    t0 = time.time()
    src = os.path.join(d, "rs/src", m["file"])
    orig = open(ROOT + "/base/rs/src/" + m["file"]).read()
    lines = orig.split("\n")
    r = {"id": m["id"], "old": m["old"], "new": m["new"], "result": None, "seed": seed}
    try:
        open(src, "w").write("\n".join(lines[:m["i"]] + m["new"].split("\n") + lines[m["j"] + 1:]))
        env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_BUILD_JOBS="1", RUSTFLAGS="-Awarnings")
        p = subprocess.run(["cargo", "build", "--offline", "--target-dir", d + "/target"], cwd=d + "/driver", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            r["result"] = "nobuild"
            return r
        binary = d + "/target/debug/ooxdrv"
        r["build_s"] = round(time.time() - t0, 1)
        ks = run.known()
        for gen, arg, n in sample_plan():
            n = max(1, int(n * factor))
            bd = harness.new_batch_dir("mut")
            try:
                b = harness.Batch(bd)
                us = []
                for i in range(n):
                    u = units.GEN[gen](harness.rng_for(seed, "mut", gen, arg, i), b, "%s%d" % (gen[:6].replace("_", ""), i), arg)
                    if u:
                        us.append(u)
                for u, discs, st, failure in run.run_units(us, bd, binary, {}):
                    if failure:
                        r["fail"] = failure
                        r["result"] = "noanswer"
                    discs = [x for x in discs if not any(run.is_known(ks, t, gen, x.code, x.detail) for t in x.tags)]
                    if discs:
                        tags = sorted({t for x in discs for t in x.tags})
                        r.update(result="killed", gen=[gen, arg], tags=tags if len(tags) < 28 else ["ALL"], disc=repr(discs[0])[:300])
                        return r
            finally:
                harness.drop_dir(bd)
        r["result"] = r["result"] or "SURVIVED"
        return r
    except Exception as ex:
        r["result"] = "error"
        r["error"] = repr(ex)[:300]
        return r
    finally:
        open(src, "w").write(orig)
        r["s"] = round(time.time() - t0, 1)


def init(q):
    global SLOTS
    SLOTS = q
    os.environ["VERIF_CPU_LIMIT"] = "60"
    sys.path.insert(0, os.path.join(VERIF, "mon"))


def main():
    ms = mutants()
    if sys.argv[1] == "list":
        c = collections.Counter(m["file"] for m in ms)
        for k, v in c.items():
            print(v, k)
        print(len(ms))
        return
    out = sys.argv[2]
    done = {}
    if os.path.exists(out):
        for l in open(out):
            x = json.loads(l)
            done[x["id"]] = x
    if sys.argv[1] == "show":
        print(collections.Counter(x["result"] for x in done.values()))
        for x in done.values():
            if x["result"] in ("SURVIVED", "error", "noanswer"):
                print("##", x["id"], x["result"], x.get("fail", x.get("error", "")))
                print("-", x["old"])
                print("+", x["new"])
        return
    sub = sys.argv[3] if len(sys.argv) > 3 else ""
    seed = int(os.environ.get("VERIF_SEED", "1"))
    factor = float(os.environ.get("FACTOR", "1"))
    n = int(os.environ.get("JOBS", "8"))
    import build
    build.shim()
    todo = [m for m in ms if sub in m["id"] and m["id"] not in done]
    import random
    random.Random(1).shuffle(todo)
    q = mp.Manager().Queue()
    for i in range(n):
        q.put(i)
    print(len(todo), "to do")
    with ProcessPoolExecutor(max_workers=n, initializer=init, initargs=(q,)) as ex, open(out, "a") as f:
        for fu in as_completed([ex.submit(work, (None, m, seed, factor)) for m in todo]):
            r = fu.result()
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
