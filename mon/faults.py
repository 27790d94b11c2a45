"""C18: saving and opening under faults. Every file call of a run is recorded (shim/faultfs.c); then the run is
repeated with one call failing, cut short, or the process killed before, after or inside it, and the directory is
compared with what it was: the target is what it was or complete, a failure is reported, nothing else changed."""
import collections, io, json, os, resource, shutil, signal, stat, time
import build, fixtures, gen, harness, twin
from harness import Disc, Inconclusive
from units import U, BINARY, RUNNER, READ_ERRORS, generator, judge
from pkg import Package

EIO, EACCES, EINTR, ENOSPC, EMFILE, EXDEV, EROFS, EPERM, EDQUOT, EFBIG = 5, 13, 4, 28, 24, 18, 30, 1, 122, 27
NOBODY = 65534
T = {"C18"}


# ---------------------------------------------------------------------------- one run

def launch(binary, cwd, cases, events, env=None, nobody=False, limits=()):
    """Runs the driver; as an unprivileged user the binary is started through a descriptor, whatever the directories
    above it allow. Returns the wait status as a return code (negative: signal)."""
    e = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD",)}
    e.update(RUST_BACKTRACE="0", TZ=harness.TZ)
    e.update(env or {})
    fd = os.open(binary, os.O_RDONLY | os.O_CLOEXEC)
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            null = os.open("/dev/null", os.O_RDWR)
            for i in range(3):
                os.dup2(null, i)
            resource.setrlimit(resource.RLIMIT_CPU, (40, 45))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            signal.signal(signal.SIGPIPE, signal.SIG_IGN)
            for k, v in limits:
                resource.setrlimit(k, (v, v))
            if nobody:
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
            os.chdir(cwd)
            os.execve(fd, [binary, "run", cases, events], e)
        finally:
            os._exit(127)
    os.close(fd)
    t0 = time.time()
    nap = 0.0005
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t0 > 180:
            os.killpg(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise Inconclusive("driver still running after 180 s wall time")
        time.sleep(nap)
        nap = min(nap * 1.3, 0.01)
    return os.waitstatus_to_exitcode(st)


def snapshot(root):
    """{relative path: (kind, content, mode, mtime)}; content of a link is where it leads."""
    out = {}
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(base, n)
            r = os.path.relpath(p, root)
            s = os.lstat(p)
            if stat.S_ISLNK(s.st_mode):
                out[r] = ("link", os.readlink(p), 0, 0)
            elif stat.S_ISDIR(s.st_mode):
                out[r] = ("dir", None, stat.S_IMODE(s.st_mode), 0)
            else:
                with open(p, "rb") as f:
                    out[r] = ("file", f.read(), stat.S_IMODE(s.st_mode), s.st_mtime_ns)
    return out


def read_log(path):
    out = []
    if os.path.exists(path):
        with open(path, "rb") as f:
            for line in f:
                x = line.decode("utf-8", "replace").rstrip("\n").split("\t")
                if len(x) == 8:
                    out.append(dict(n=int(x[0]), op=x[1], p=x[3], q=x[4], arg=int(x[5]), res=int(x[6]), err=int(x[7])))
    return out


def one_run(unit, d, binary, shim, fault=None, nobody=False, limits=()):
    """A fresh copy of the unit's directory, one run in it, and what is there afterwards."""
    uid = unit["id"]
    run, tmp = os.path.join(d, uid + "_run"), os.path.join(d, uid + "_tmp")
    for x in (run, tmp):
        shutil.rmtree(x, ignore_errors=True)
    shutil.copytree(os.path.join(d, uid), run, symlinks=True)
    os.makedirs(tmp)
    for path, mode in unit["data"].get("modes", {}).items():
        os.chmod(os.path.join(run, path), mode)
    if nobody:
        os.chmod(d, 0o711)
        os.chown(tmp, NOBODY, NOBODY)
        for base, dirs, files in os.walk(run):
            for n in [base] + [os.path.join(base, f) for f in files]:
                if os.path.relpath(n, run) not in unit["data"].get("foreign", []):
                    os.lchown(n, NOBODY, NOBODY)
    cases, events, log = (os.path.join(tmp, x) for x in ("cases.jsonl", "events.jsonl", "calls.log"))
    with open(cases, "w") as f:
        f.write(json.dumps({"id": uid, "ops": unit["cases"][0]["ops"]}) + "\n")
    os.chmod(cases, 0o644)
    env = {}
    if shim:
        env = dict(LD_PRELOAD=shim, FAULT_DIR=run, FAULT_LOG=log)
        if fault and fault != "again":
            env.update(FAULT_AT=str(fault[0]), FAULT_KIND=fault[1])
    before = snapshot(run)
    rc = launch(binary, run, cases, events, env, nobody, limits)
    ev = harness.read_events(events).get(uid, [])
    r = dict(rc=rc, ev=ev, calls=read_log(log), before=before, after=snapshot(run), fault=fault)
    again = unit["data"].get("again")
    if again and (fault == "again" or rc == -signal.SIGKILL and set(r["after"]) - set(before)):
        # the next run, with the leavings of the killed one around
        with open(cases, "w") as f:
            f.write(json.dumps({"id": uid, "ops": again}) + "\n")
        if os.path.exists(events):
            os.unlink(events)
        rc = launch(binary, run, cases, events, {}, nobody, ())
        r["again"] = dict(rc=rc, ev=harness.read_events(events).get(uid, []), after=snapshot(run))
    for x in (run, tmp):
        for base, dirs, files in os.walk(x):
            os.chmod(base, 0o755)
        shutil.rmtree(x, ignore_errors=True)
    return r


# ---------------------------------------------------------------------------- faults to inject

def choices(rng, call):
    """Faults worth trying at one recorded call."""
    op, n = call["op"], max(call["arg"], 1)
    e = lambda *x: ["err:%d" % c for c in x]
    if op == "openr":
        return e(rng.choice([EIO, EACCES, EMFILE]), EINTR)
    if op == "read":
        return e(EIO, EINTR) + ["short:1", "short:%d" % rng.randrange(1, n + 1)]
    if op == "openw":
        return e(rng.choice([EACCES, EROFS, EMFILE, EIO]), ENOSPC, EINTR) + ["all:%d" % ENOSPC, "before", "after"]
    if op == "write":
        k = lambda: rng.choice([1, n // 2, n - 1, rng.randrange(0, n + 1)])
        return e(rng.choice([EIO, EDQUOT, EFBIG]), ENOSPC, EINTR) + ["short:%d" % max(1, k()), "short:1", "full:0", "full:%d" % k(), "full:%d" % k(), "torn:%d" % k(), "torn:%d" % k(), "all:%d" % EIO, "before", "after"]
    if op == "sync":
        return e(EIO, rng.choice([ENOSPC, EDQUOT]), EINTR) + ["before", "after"]
    if op in ("rename", "link"):
        return e(rng.choice([EACCES, EXDEV, ENOSPC, EIO, EROFS])) + ["before", "after"]
    if op in ("truncate", "chmod"):
        return e(rng.choice([EIO, EPERM, ENOSPC])) + ["before", "after"]
    return ["before", "after"]     # unlink, close


def faults_for(rng, calls, limit):
    out = []
    reads = [c for c in calls if c["op"] in ("read", "openr")]
    writes = [c for c in calls if c["op"] not in ("read", "openr")]
    for c in writes[:40]:
        out += [(c["n"], k) for k in choices(rng, c)]
    for c in writes[40:]:
        out += [(c["n"], k) for k in rng.sample(choices(rng, c), 2)]
    for c in rng.sample(reads, min(len(reads), 8)):
        out += [(c["n"], k) for k in rng.sample(choices(rng, c), 2)]
    if len(out) > limit:
        out = rng.sample(out, limit)
    return out


# ---------------------------------------------------------------------------- scenarios

DECOYS = ["{s}.tmp", ".{s}.tmp", "{s}.{x}.tmp", ".{s}.{x}.tmp", "{s}.{x}~", "{s}.bak", "{s}.{x}.bak", "{s}.new", "{s}.{x}.new", "~{s}.{x}", "~${s}.{x}", "{s}.part", "{s}.{x}.part", "{s}.{x}.old", ".{s}.{x}.swp", "{s}.temp", "tmp", ".tmp", "{s}", ".{s}", ".{s}.{x}",
          "{s}.zip", "{s}.{x}.zip", "{s}.lock", ".~lock.{s}.{x}#", "{s}_tmp.{x}", "{s}1.{x}", "{s} (1).{x}"]


def put_tree(rng, b, uid, kind):
    """The directory a run starts from: a source, a bystander, perhaps something at the target."""
    root = b.path(uid)
    os.makedirs(os.path.join(root, "out"))
    ext = {"excel": "xlsx", "word": "docx", "ppt": "pptx"}[kind]
    names = []
    if kind == "excel":
        pk, meta = fixtures.workbook(rng, dict(chartsheet=False, big=rng.choice([0, 0, 0, 40000, 150000])))
        names = meta["sheet_names"]
    else:
        pk = fixtures.office(rng, kind)
    pk.write(os.path.join(root, "out", "src." + ext), fixtures.layout(rng))
    with open(os.path.join(root, "out", "bystander.txt"), "wb") as f:
        f.write(b"not to be touched")
    if rng.random() < 0.6:
        # files whose names a save might be tempted to use for its own purposes
        for stem in ("t", "src", "real", "new"):
            for pat in rng.sample(DECOYS, rng.randrange(2, len(DECOYS) + 1)):
                with open(os.path.join(root, "out", pat.format(s=stem, x=ext)), "wb") as f:
                    f.write(rng.choice([b"", b"somebody else's work", rng.randbytes(5000)]))
    return root, ext, names


def script(rng, kind, names, src, target):
    if src is None:
        ops = [dict(op="open", kind=kind)]
        if kind == "excel":
            ops += [dict(op="add_sheet", name="One", h="h"), dict(op="row_ref", h="h", ref="B2", cells=[{"v": "text"}, {"v": "2", "t": "Number"}]), dict(op="close", h="h")]
    else:
        ops = [dict(op="open", kind=kind, path=src)]
        if kind == "excel" and rng.random() < 0.7:
            ops += [dict(op="get_sheet", name=rng.choice(names), h="h"), dict(op="row_ref", h="h", ref="ZZ900", cells=[{"v": "new text"}]), dict(op="close", h="h")]
    return ops + [dict(op="save", path=target)]


@generator
def fault(rng, b, uid, arg):
    kind = rng.choice(["excel"] * 4 + ["word", "ppt"])
    root, ext, names = put_tree(rng, b, uid, kind)
    out = os.path.join(root, "out")
    how = rng.choice(["absent", "old", "old", "source", "source", "link", "link_source"])
    target = "out/t." + ext
    modes = {}
    src = "out/src." + ext if how.endswith("source") or rng.random() < 0.8 else None
    if how == "old":
        with open(os.path.join(root, target), "wb") as f:
            f.write(rng.choice([b"", b"an older file", rng.randbytes(200000)]))
        modes[target] = rng.choice([0o644, 0o600, 0o664])
    elif how == "source":
        target = rng.choice(["out/src." + ext, "./out/../out/src." + ext, "out//src." + ext])
    elif how == "link":
        with open(os.path.join(out, "real." + ext), "wb") as f:
            f.write(b"the file behind the link")
        os.symlink("real." + ext, os.path.join(root, target))
    elif how == "link_source":
        os.symlink("src." + ext, os.path.join(root, target))
    return U(uid, "faulty", [{"id": uid, "ops": script(rng, kind, names, src, target), "files": [uid + "/out/src." + ext]}], how=how, target=target, seed=rng.random(), modes=modes,
             again=script(rng, kind, names, None, target))


@generator
def target(rng, b, uid, arg):
    """Targets that cannot be written, and limits set by the system itself."""
    kind = rng.choice(["excel"] * 4 + ["word", "ppt"])
    root, ext, names = put_tree(rng, b, uid, kind)
    os.makedirs(os.path.join(root, "out", "dir"))
    os.makedirs(os.path.join(root, "out", "full"))
    for n in ("out/full/inside.txt", "out/old." + ext, "out/ro." + ext):
        with open(os.path.join(root, n), "wb") as f:
            f.write(b"kept " * 50)
    os.makedirs(os.path.join(root, "out", "rodir"))
    with open(os.path.join(root, "out", "rodir", "t." + ext), "wb") as f:
        f.write(b"in a protected directory")
    os.symlink("dir", os.path.join(root, "out", "linkdir"))
    os.symlink("loop", os.path.join(root, "out", "loop"))
    os.symlink("nowhere." + ext, os.path.join(root, "out", "dangling." + ext))
    modes = {"out/rodir": 0o555, "out/ro." + ext: 0o444}
    t = arg
    limits, must = [], None
    src = "out/src." + ext
    fixed = {"missing": "out/no/such/dir/t." + ext, "dir": "out/dir", "fulldir": "out/full", "dirslash": "out/dir/", "below_file": "out/bystander.txt/t." + ext, "long": "out/" + "n" * 300 + "." + ext, "longpath": "out/" + "d/" * 3000 + "t",
             "empty": "", "dot": ".", "dotdot": "..", "nul": "out/a\0b." + ext, "slash": "out/t.%s/" % ext, "linkdir": "out/linkdir", "loop": "out/loop", "dangling": "out/dangling." + ext, "rodir_new": "out/rodir/n." + ext, "rodir_old": "out/rodir/t." + ext,
             "ro": "out/ro." + ext, "devfull": "/dev/full", "fsize": "out/old." + ext, "fsize_new": "out/t." + ext, "nofile": "out/old." + ext, "open_handle": "out/old." + ext, "unicode": "out/\u00fc \u65e5.%s" % ext, "nothing": "out/t", "hidden": "out/." + ext}
    target = fixed[t]
    if t.startswith("fsize"):
        limits = [("FSIZE", rng.choice([4096, 5000, 6000, 8192]))]
    elif t == "nofile":
        limits = [("NOFILE", rng.choice([5, 6, 7]))]
    ops = script(rng, kind, names, src, target)
    if t == "open_handle" and kind == "excel":
        ops = [dict(op="open", path=src), dict(op="get_sheet", name=names[0], h="h"), dict(op="save", path=target)]
    return U(uid, "faulty", [{"id": uid, "ops": ops, "files": [uid + "/" + src]}], how=t, target=target, modes=modes, limits=limits, static=True, foreign=["out/rodir"])


TARGETS = ("missing", "dir", "fulldir", "dirslash", "below_file", "long", "longpath", "empty", "dot", "dotdot", "nul", "slash", "linkdir", "loop", "dangling", "rodir_new", "rodir_old", "ro", "devfull", "fsize", "fsize_new", "nofile", "open_handle",
           "unicode", "nothing", "hidden")


def run_faulty(us, d, binary):
    shim = build.shim()
    res = {}
    for u in us:
        dt = u["data"]
        if dt.get("static"):
            lim = [(getattr(resource, "RLIMIT_" + k), v) for k, v in dt.get("limits", [])]
            # the calls are recorded too, except where the recorder's own descriptor would be in the way of a limit
            res[u["id"]] = (one_run(dict(u, data=dict(dt, limits=[])), d, binary, None, limits=()) if lim else None, [one_run(u, d, binary, None if lim else shim, nobody=True, limits=lim)])
            continue
        base = one_run(u, d, binary, shim)
        rng = harness.rng_for("faults", dt["seed"])
        runs = []
        if base["rc"] == 0:
            base["small"] = one_run(u, d, binary, None, "again")
            for f in faults_for(rng, base["calls"], dt.get("limit", 70)):
                runs.append(one_run(u, d, binary, shim, f))
        res[u["id"]] = (base, runs)
    return res


RUNNER["faulty"] = run_faulty


# ---------------------------------------------------------------------------- judging

def package_content(data):
    return twin.content(Package(io.BytesIO(data)))


def real_name(before, target):
    """Name in the snapshot that the target leads to, following links inside the directory."""
    t = os.path.normpath(target) if target and "\0" not in target else target
    for _ in range(3):
        x = before.get(t)
        if x and x[0] == "link":
            t = os.path.normpath(os.path.join(os.path.dirname(t), x[1]))
    return t


def unsynced(calls, target_abs):
    """Offline check of the call log: does what is at the target rest on writes never followed by a sync?"""
    dirty, bad = {}, []
    for c in calls:
        if c["res"] < 0:
            continue
        if c["op"] == "openw":
            if c["arg"] & os.O_TRUNC:
                dirty[c["p"]] = True
        elif c["op"] in ("write", "truncate"):
            dirty[c["p"]] = True
        elif c["op"] == "sync":
            dirty[c["p"]] = False
        elif c["op"] == "rename":
            was = dirty.pop(c["p"], False)
            if was and c["q"] == target_abs:
                bad.append("renamed to the target before a sync")
            dirty[c["q"]] = was
    if dirty.get(target_abs):
        bad.append("not synced after the last write")
    return bad


def judge_run(unit, run, want, st, base):
    """want: content of the complete package, or None if no undisturbed save exists to compare with."""
    out = []
    ops = unit["cases"][0]["ops"]
    how, f = unit["data"]["how"], run["fault"]
    n = len(ops) - 1
    tag = "%s%s" % (how, " with %s at call %d (%s)" % (f[1], f[0], next((c["op"] for c in base["calls"] if c["n"] == f[0]), "?")) if f else "")

    def bad(code, text, extra=()):
        out.append(Disc(T | set(extra), code, "%s: %s" % (tag, text)))

    killed = run["rc"] == -signal.SIGKILL and f and f[1].split(":")[0] in ("before", "after", "torn")
    save = None
    for e in run["ev"]:
        if "i" in e and e["r"] == "panic":
            bad("panic", "call %d panicked: %s" % (e["i"], e.get("m")), {"C16"})
        if e.get("i") == n:
            save = e
    if run["rc"] != 0 and not killed:
        if run["rc"] == -signal.SIGKILL:
            raise Inconclusive("driver was killed from outside")
        bad("death", "driver ended with %s" % run["rc"], {"C16"})
        return out
    ok = save is not None and save["r"] == "ok"
    before, after = run["before"], run["after"]
    name = real_name(before, unit["data"]["target"])
    if name not in before and how == "dangling" and after.get("out/" + os.path.basename(unit["data"]["target"]), ("",))[0] == "file":
        name = os.path.normpath(unit["data"]["target"])     # a link that leads nowhere may be replaced or followed
    opened = next((e for e in run["ev"] if e.get("i") == 0), None)
    if not f and unit["data"].get("limits", []) == [] and (opened is None or opened["r"] != "ok"):
        bad("open", "the source was refused: %s" % opened)
        return out
    st["runs killed" if killed else "saves reported done" if ok else "saves refused"] += 1
    if f:
        hit = any(c["n"] == f[0] for c in run["calls"]) or killed
        st["faults that took place"] += bool(hit)
        c = next((c for c in base["calls"] if c["n"] == f[0]), None)
        if c and hit:
            st["%s at %s" % (f[1].split(":")[0], c["op"])] += 1
    # everything but the target is as it was
    for p in sorted(set(before) | set(after)):
        if p == name:
            continue
        if p not in after:
            bad("lost", "%s is gone" % p)
        elif p not in before:
            if killed:
                st["temporary files left by a kill"] += 1
            else:
                bad("leftover", "%s (%s, %d bytes) was left behind, save answered %s" % (p, after[p][0], len(after[p][1] or b""), save and save["r"]))
        elif before[p][:3] != after[p][:3]:
            bad("touched", "%s was changed" % p)
        elif before[p][3] != after[p][3]:
            bad("touched", "%s was written to" % p)
    # the target is what it was, or complete
    old, new = before.get(name), after.get(name)
    same = old is not None and new is not None and old[:2] == new[:2] or old is None and new is None
    complete, why = False, "absent"
    if new is not None and new[0] == "file":
        try:
            diff = twin.diff(want, package_content(new[1]), "in an undisturbed save", "here") if want is not None else []
            complete, why = not diff, "; ".join(diff[:3])
        except READ_ERRORS as ex:
            why = "unreadable: %r" % ex
    elif new is not None:
        why = "not a file"
    if ok:
        if not complete:
            bad("incomplete", "save reported success, the target is %s" % why)
        else:
            st["targets complete"] += 1
            if old is not None and old[0] == "file" and old[2] != new[2]:
                bad("mode", "the permissions of the target were changed from %o to %o" % (old[2], new[2]))
            if run["calls"]:
                root = os.path.dirname(next((c["p"] for c in run["calls"] if c["p"].endswith("/" + os.path.basename(name))), "") or next((c["q"] for c in run["calls"] if c["q"].endswith("/" + os.path.basename(name))), ""))
                for x in unsynced(run["calls"], os.path.join(root, os.path.basename(name))):
                    bad("sync", "save reported success, the content was %s" % x)
                st["call logs checked for syncs"] += 1
    elif killed:
        again = run.get("again")
        if again is not None and (same or complete):
            a = next((e for e in again["ev"] if e.get("i") == len(unit["data"]["again"]) - 1), None)
            nm = real_name(run["after"], unit["data"]["target"])
            try:
                diff = ["save answered %s" % (a and (a["r"], a.get("m")),)] if a is None or a["r"] != "ok" else twin.diff(base["small_content"], package_content(again["after"][nm][1]), "in an undisturbed save", "here")
            except READ_ERRORS + (KeyError, TypeError) as ex:
                diff = ["unreadable: %r" % ex]
            if diff:
                bad("after-kill", "a save after the killed one: %s" % "; ".join(diff[:3]))
            for p in set(run["after"]) - {name, nm}:
                if p in before and again["after"].get(p, ())[:3] != run["after"][p][:3]:
                    bad("touched", "%s was changed by a save after the killed one" % p)
            for p in set(again["after"]) - set(run["after"]) - {nm}:
                bad("leftover", "%s was left behind by a save after the killed one" % p)
            st["saves after a kill"] += 1
        if not (same or complete):
            bad("torn", "killed, and the target is neither the old file nor complete: %s" % why)
        else:
            st["targets old after a kill" if same else "targets new after a kill"] += 1
    else:
        if not same and not (complete and old is not None and old[0] == "file" and old[1] == new[1]):
            bad("destroyed", "save answered %s, the target is no longer what it was: %s" % (save and save["r"], "gone" if new is None else "complete new file" if complete else why))
        else:
            st["targets intact after a failure"] += 1
        if save is None and not killed:
            bad("no-answer", "save gave no answer")
    return out


@judge
def faulty(unit, res, d):
    out, st = [], collections.Counter()
    base, runs = res[unit["id"]]
    want = None
    if unit["data"].get("static"):
        for r in runs:
            if base is not None:
                out += judge_run(unit, base, None, st, base)
            out += judge_run(unit, r, None, st, base or r)
        return out, st
    out += judge_run(unit, base, None, st, base)
    name = real_name(base["before"], unit["data"]["target"])
    save = [e for e in base["ev"] if e.get("i") == len(unit["cases"][0]["ops"]) - 1]
    if not save or save[0]["r"] != "ok":
        out.append(Disc(T, "refused", "%s: an undisturbed save was refused: %s" % (unit["data"]["how"], save)))
        return out, st
    if out:
        return out, st
    want = package_content(base["after"][name][1])
    small = base["small"]["again"]
    try:
        base["small_content"] = package_content(small["after"][real_name(base["small"]["after"], unit["data"]["target"])][1])
    except READ_ERRORS + (KeyError, TypeError) as ex:
        out.append(Disc(T, "refused", "%s: saving a small document over the saved one: %r %r" % (unit["data"]["how"], ex, small["ev"][-1:])))
        return out, st
    st["calls recorded"] += len(base["calls"])
    for r in runs:
        out += judge_run(unit, r, want, st, base)
        if len(out) > 12:
            break
    return out, st
