"""C24: histories over the exported C functions, run under AddressSanitizer."""
import collections, json, os, subprocess, signal
import fixtures, gen, harness, model, respell, units
from harness import Disc, Inconclusive
from units import U, generator, judge, BINARY, RUNNER

INVALID, FLATBUFFER = 1, 2
NAMES = [n for n in gen.NAMES if not gen.generic(n)]   # names the library might give by default stay out: nothing lists them here
NUMFMT = {v: k for k, v in model.NUMFMT.items()}
BAD_NAMES = ["nope", "", "Tab99", {"hex": "ff80fe"}, "\u00fc", "x" * 5000]


def sty(rng):
    st = {"number_format": rng.choice(list(NUMFMT) + [164]), "font_size": rng.choice([1, 7, 8, 10, 11, 36, 73, 127, 128, 255])}
    if st["number_format"] == 164 or rng.random() < 0.1:
        st["custom_number_format"] = rng.choice(["0.000", "yyyy", '0" <&>"', "[Red]0", " 0", "YYYY"])
    if rng.random() < 0.5:
        st["font_family"] = rng.choice(["Arial", "ARIAL", "Calibri", "A & B", "\uff2d\uff33", " Arial ", "x" * 300])
    for k in ("is_bold", "is_italic", "is_underline", "is_double_underline", "is_wrap_text"):
        if rng.random() < 0.4:
            st[k] = True
    for k in ("background_color", "foreground_color"):
        if rng.random() < 0.3:
            st[k] = rng.choice(["FFFF0000", "FF00FF00"])
    return st


def near_name(rng, n):
    """Names that are almost that of a sheet."""
    raw = n.encode()
    return rng.choice([{"hex": (raw + b"\xff").hex()}, {"hex": (b"\xfe" + raw).hex()}, {"hex": (raw[:1] + b"\xc3" + raw[1:]).hex()}, n + " ", " " + n, n.swapcase(), n[:-1], n + "\ufffd"])


def bad_buffer(rng):
    k = rng.randrange(4)
    if k == 0:
        return dict(buf="null")
    if k == 1:
        return dict(buf="empty")
    if k == 2:
        return dict(buf="short", keep=rng.randrange(1, 24))
    n = rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 40])
    return dict(buf="".join("%02x" % rng.choice([1, 2, 4, 127, 255, rng.randrange(1, 256)]) for _ in range(n)))


@generator
def ffi(rng, b, uid, arg):
    """One to three documents through the C interface, with nulls, bad buffers, bad names and failing saves mixed in."""
    ops, files = [], []
    n_out = 0
    for doc in range(rng.randint(1, 3)):
        p = "d%d" % doc
        kind = rng.choice(["excel", "excel", "excel", "word", "ppt"])
        ext = {"excel": "xlsx", "word": "docx", "ppt": "pptx"}[kind]
        names = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            k = rng.randrange(3)
            if k == 0:
                ops.append(dict(op="create", p="bad", kind=kind, file=None, **bad_buffer(rng)))
            elif k == 1:
                ops.append(dict(op="create", p="bad", kind=kind, file=rng.choice(["missing.xlsx", {"hex": "ff2e78"}, ".", "no/such/dir/x"])))
            else:
                f = "%s_c%d.%s" % (uid, len(files), ext)
                data = rng.choice([b"", b"PK\x03\x04", b"not a zip", rng.randbytes(300)])
                with open(b.path(f), "wb") as g:
                    g.write(data)
                files.append(f)
                ops.append(dict(op="create", p="bad", kind=kind, file=f))
        src = None
        if rng.random() < 0.6:
            src = "%s_s%d.%s" % (uid, len(files), ext)
            if kind == "excel":
                pk, meta = fixtures.workbook(rng, {})
                names = [n for n, f in zip(meta["sheet_names"], meta["facts"]) if f is not None and "\x00" not in n]
            else:
                pk = fixtures.office(rng, kind)
            pk.write(b.path(src), fixtures.layout(rng))
            files.append(src)
        ops.append(dict(op="create", p=p, kind=kind, file=src))
        if kind == "excel":
            if src is None:
                names = []
            bad = lambda: near_name(rng, rng.choice(names)) if names and rng.random() < 0.4 else rng.choice(BAD_NAMES)
            lots = rng.random() < 0.03
            for _ in range(rng.choice([40, 300]) if lots else rng.randrange(0, 14)):
                k = rng.random() if not lots else rng.uniform(0.68, 1)
                null = rng.random() < 0.08
                h = "none" if rng.random() < 0.06 else p
                if k < 0.25:
                    n = None if null else rng.choice(BAD_NAMES[4:]) + str(rng.randrange(100)) if rng.random() < 0.2 else rng.choice(NAMES) if rng.random() < 0.9 else rng.choice(["x" * 32, "a/b", "it's", "'q"])
                    ops.append(dict(op="add_sheet", p=h, name=n))
                    if n and h == p and n.lower() not in [x.lower() for x in names]:
                        names.append(n)
                elif k < 0.4:
                    ops.append(dict(op="get_sheet", p=h, name=None if null else rng.choice(names or ["x"]) if rng.random() < 0.7 else bad()))
                elif k < 0.55:
                    ops.append(dict(op="hide", p=h, name=None if null else rng.choice(names or ["x"]) if rng.random() < 0.7 else bad()))
                elif k < 0.7:
                    o = rng.choice(names or ["x"]) if rng.random() < 0.7 else bad()
                    w = rng.choice(NAMES + names) if rng.random() < 0.85 or isinstance(o, dict) else o
                    ops.append(dict(op="rename", p=h, old=None if null else o, new=None if rng.random() < 0.08 else w))
                    if h == p and not null and ops[-1]["new"] and o in names and w.lower() not in [x.lower() for x in names]:
                        names[names.index(o)] = w
                else:
                    o = dict(op="style", p=h, style=sty(rng))
                    if rng.random() < 0.2:
                        o.update(bad_buffer(rng))
                    ops.append(o)
        # handles left unsaved are possible too: there is no call to release them
        how = rng.random()
        if how < 0.12:
            ops.append(dict(op="save", p=p, kind=kind, path=None))
        if how < 0.05:
            continue
        if how < 0.2:
            ops.append(dict(op="save", p=p, kind=kind, path=rng.choice(["no_dir/x." + ext, "."])))
            continue
        if how < 0.3:
            ops.append(dict(op="save", p="none", kind=kind, path=uid + "_never." + ext))
        out = "%s_o%d.%s" % (uid, n_out, ext)
        n_out += 1
        ops.append(dict(op="save", p=p, kind=kind, path=out))
        if rng.random() < 0.3:
            ops += [dict(op="create", p=p + "again", kind=kind, file=out), dict(op="save", p=p + "again", kind=kind, path=out.replace("_o", "_p"))]
    return U(uid, "c_api", [{"id": uid, "ops": ops, "files": files}])


BINARY["ffi"] = "ffi"


def spawn(binary, d, cases, tag):
    cf, ef, rf = "ffi_cases" + tag, "ffi_events" + tag, os.path.join(d, "ffi_err" + tag)
    with open(os.path.join(d, cf), "w") as f:
        for c in cases:
            f.write(json.dumps({"id": c["id"], "ops": c["ops"]}) + "\n")
    env = dict(os.environ, TZ=harness.TZ, ASAN_OPTIONS="detect_leaks=%d:exitcode=99:symbolize=0:allocator_may_return_null=1" % LEAKS, RUST_BACKTRACE="0")
    with open(rf, "wb") as err:
        p = subprocess.Popen([binary, "run", cf, ef], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err,
                             preexec_fn=harness._limits(harness.CPU_LIMIT, None), start_new_session=True)
        try:
            rc = p.wait(timeout=harness.WALL_LIMIT)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise Inconclusive("C driver still running")
    with open(rf, "rb") as f:
        text = f.read().decode("utf-8", "replace")
    return rc, harness.read_events(os.path.join(d, ef)), text


LEAKS = 1   # LeakSanitizer at the end of the process; switched off where the sandbox does not let it run


def leak_text(rc, text):
    return "LeakSanitizer: detected memory leaks" in text and rc == 99


def run_ffi(us, d, binary):
    """One process for all cases; after a death the rest runs in a new one. A leak is traced to its case by running the cases one by one."""
    global LEAKS
    res, todo, n = {}, [c for u in us for c in u["cases"]], 0
    while todo:
        n += 1
        rc, evs, text = spawn(binary, d, todo, str(n))
        if LEAKS and "LeakSanitizer has encountered a fatal error" in text:
            LEAKS = 0
            continue
        done = 0
        for c in todo:
            e = evs.get(c["id"])
            if e is None:
                break
            done += 1
            if any("end" in x for x in e):
                res[c["id"]] = (e, None)
                continue
            if rc == 0:
                raise Inconclusive("C driver ended without finishing %s" % c["id"])
            if rc == -signal.SIGKILL:
                raise Inconclusive("C driver was killed from outside")
            k = text.find("ERROR: AddressSanitizer")
            res[c["id"]] = (e, "exit %s: %s" % (rc, " ".join(text[k if k >= 0 else -600:][:600].split())))
            break
        if done == 0:
            raise Inconclusive("C driver made no progress, exit %s: %s" % (rc, text[-400:]))
        if done == len(todo) and leak_text(rc, text):
            for c in todo:
                if res[c["id"]][1] is None:
                    rc1, _, t1 = spawn(binary, d, [c], "leak")
                    if leak_text(rc1, t1):
                        res[c["id"]][0].append({"c": c["id"], "leak": " ".join(t1[t1.find("SUMMARY"):].split())[:300]})
        for c in todo[:done]:
            res[c["id"]][0].append({"c": c["id"], "lsan": LEAKS})
        todo = todo[done:]
    return res


RUNNER["c_api"] = run_ffi


def to_model(case, ev, d):
    """The calls that reached a document as driver operations with the observed results; everything else judged here."""
    out, st = [], collections.Counter()
    T = {"C24"}
    by_i = {}
    for e in ev:
        if "i" in e and "begin" not in e:
            by_i[e["i"]] = e
    ops, events = [], []
    docs, opened = {}, {}
    hn = 0

    def push(op, r, v=None, i=None):
        ops.append(op)
        events.append({"c": case["id"], "t": 0, "i": len(ops) - 1, "r": r, "v": v, "m": "", "ts": e["ts"]})

    for i, op in enumerate(case["ops"]):
        e = by_i.get(i)
        if e is None:
            break
        st["%s %s" % (op["op"], "ok" if e["status"] == 0 else "refused")] += 1
        what = "%s(%s)" % (op["op"], ", ".join("%s=%r" % (k, v) for k, v in op.items() if k != "op")[:300])
        good = e["status"] == 0
        name = op["op"]
        null = (name in ("create", "style") and op.get("buf") in ("null", "empty")) or (name != "create" and op["p"] not in docs) \
            or (name in ("get_sheet", "hide") and op.get("name") is None) or (name == "rename" and (op.get("old") is None or op.get("new") is None)) \
            or (name == "save" and op.get("path") is None)
        gives = name in ("create", "add_sheet", "get_sheet")
        if good and e["err"] is not None:
            out.append(Disc(T, "message-on-success", "%s reports success with message %r" % (what, e["err"])))
        if gives and good != e["out"]:
            out.append(Disc(T, "out-pointer", "%s: status %s, %s handed out" % (what, e["status"], "a handle was" if e["out"] else "no handle was")))
        if name == "style" and good != (e["style"] is not None):
            out.append(Disc(T, "out-pointer", "%s: status %s, style id %s" % (what, e["status"], e["style"])))
        if not good and not null and not (e["err"] or "").strip():
            out.append(Disc(T, "no-message", "%s failed with status %s and no message" % (what, e["status"])))
        if null:
            if e["status"] != INVALID:
                out.append(Disc(T, "status", "%s with a null argument or buffer: status %s, expected %d" % (what, e["status"], INVALID)))
            st["null arguments"] += 1
            continue
        if not good and e["status"] == INVALID:
            out.append(Disc(T, "status", "%s: status 'invalid argument' although no argument is null" % what))
        if op.get("buf", "ok") != "ok":
            # a buffer which is no valid table may still be one by accident; the verifier decides, the status must tell
            st["damaged buffers %s" % ("accepted" if good else "refused")] += 1
            if op["buf"] == "short" and op.get("keep", 4) < 8 and good:
                out.append(Disc(T, "status", "%s: accepted a cut-off buffer" % what))
            if not good and e["status"] != FLATBUFFER:
                if name == "style" or e["status"] != -1:
                    out.append(Disc(T, "status", "%s: status %s for a damaged buffer" % (what, e["status"])))
            if name == "style" and good:
                docs[op["p"]]["blind"] = True
            continue
        if not good and e["status"] == FLATBUFFER:
            out.append(Disc(T, "status", "%s: status %s (buffer error) although the buffer is valid" % (what, e["status"])))
        r = "ok" if good else "err"
        if name == "create":
            f = op["file"]
            mop = dict(op="open", doc=op["p"], kind=op["kind"], path=f if not isinstance(f, dict) else "missing-\ufffd")
            if op["p"] == "bad":
                mop["expect"] = "err"
            push(mop, r)
            if good:
                docs[op["p"]] = {}
                opened[op["p"]] = []
        elif name in ("add_sheet", "get_sheet"):
            hn += 1
            n = op["name"] if not isinstance(op["name"], dict) else bytes.fromhex(op["name"]["hex"]).decode("utf-8", "replace")
            push(dict(op=name, doc=op["p"], name=n, h="h%d" % hn), r)
            if good:
                opened[op["p"]].append("h%d" % hn)
        elif name in ("hide", "rename"):
            m = dict(op=name, doc=op["p"])
            for k in ("name", "old", "new"):
                if k in op:
                    m[k] = op[k] if not isinstance(op[k], dict) else bytes.fromhex(op[k]["hex"]).decode("utf-8", "replace")
            push(m, r)
        elif name == "style":
            s = {k: v for k, v in op["style"].items() if k != "number_format"}
            s["number_format"] = NUMFMT.get(op["style"]["number_format"], "Custom")
            push(dict(op="style", doc=op["p"], id="s%d" % i, style=s), r, e["style"])
        elif name == "save":
            for h in opened.pop(op["p"], []):
                push(dict(op="close", doc=op["p"], h=h), "ok")
            mop = dict(op="save", doc=op["p"], path=op["path"])
            if op["path"].startswith(("no_dir", ".")):
                mop["expect"] = "err"
            if docs[op["p"]].get("blind"):
                mop["unchecked"] = True
            push(mop, r)
            del docs[op["p"]]
    return ops, events, out, st


@judge
def c_api(unit, res, d):
    case = unit["cases"][0]
    ev, death = res[case["id"]]
    ops, events, out, st = to_model(case, ev, d)
    if death:
        begun = [e for e in ev if "begin" in e]
        op = case["ops"][begun[-1]["i"]] if begun else {}
        out.append(Disc({"C24", "C16"}, "memory", "the process ended during %s: %s" % (json.dumps(op)[:300], death)))
    for e in ev:
        if "leak" in e:
            out.append(Disc({"C24", "C21"}, "leak", "memory not released although every handle was saved or left: " + e["leak"]))
        st["leak checks"] += e.get("lsan", 0)
    r = model.Replay(d)
    r.run(ops, events)
    out += [Disc(x.tags | {"C24"}, x.code, x.detail) for x in r.discs]
    st.update({k: v for k, v in r.stats.items()})
    return out, st
