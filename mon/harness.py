"""Runs scripted cases on the real library and hands (case, events) to a judge.

A batch is a directory with cases.jsonl, the generated source files and, afterwards, events.jsonl. All paths in
a case are relative to that directory, so a batch (or one case of it) can be copied and replayed."""
import json, os, random, resource, shutil, signal, subprocess, tempfile, time
from concurrent.futures import ProcessPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = int(os.environ.get("VERIF_CPU_LIMIT", "100"))     # CPU seconds of one driver process
WALL_LIMIT = int(os.environ.get("VERIF_WALL_LIMIT", "600"))   # watchdog only; its firing is inconclusive
MEM_LIMIT = 3 << 30
TZ = "VRF-05:45"   # local time is not UTC, so a local time stamp does not pass for one


class Inconclusive(Exception):
    pass


class Disc:
    """One discrepancy between what the library did and what the property allows."""
    __slots__ = ("tags", "code", "detail")

    def __init__(self, tags, code, detail):
        self.tags, self.code, self.detail = frozenset(tags), code, detail

    def __repr__(self):
        return "[%s] %s: %s" % (",".join(sorted(self.tags)), self.code, self.detail)


def scratch_root():
    for base in ("/dev/shm", "/tmp"):
        if os.path.isdir(base) and os.access(base, os.W_OK):
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize > 2 << 30:
                return base
    return "/tmp"


def _limits(cpu, mem):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


def exec_driver(binary, cwd, cases_file, events_file, env=None, cpu=None, mem=MEM_LIMIT):
    e = dict(os.environ)
    e["RUST_BACKTRACE"] = "0"
    e["TZ"] = TZ
    if env:
        e.update(env)
    with open(os.path.join(cwd, "stderr.txt"), "ab") as err:
        p = subprocess.Popen([binary, "run", cases_file, events_file], cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=err, preexec_fn=_limits(cpu or CPU_LIMIT, mem), start_new_session=True)
        try:
            rc = p.wait(timeout=WALL_LIMIT)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise Inconclusive("driver still running after %d s wall time" % WALL_LIMIT)
    return rc


def read_events(path):
    """{case id: [events]}, order of cases as begun; a torn last line is dropped."""
    out = {}
    if not os.path.exists(path):
        return out
    with open(path, "rb") as f:
        for line in f:
            if not line.endswith(b"\n"):
                break
            try:
                ev = json.loads(line)
            except ValueError:
                break
            out.setdefault(ev["c"], []).append(ev)
    return out


def run_cases(binary, cwd, cases, env=None, cpu=None, mem=MEM_LIMIT):
    """Runs the cases in one process, restarting behind a case that ends the process.
    Returns {id: (events, death)} with death None or a description. After a case that used up the CPU time the
    remaining ones are left out: they have no entry."""
    todo = list(cases)
    res = {}
    n = 0
    while todo:
        n += 1
        cf, ef = "cases%d.jsonl" % n, "events%d.jsonl" % n
        with open(os.path.join(cwd, cf), "w") as f:
            for c in todo:
                d = {"id": c["id"]}
                for k in ("ops", "parallel"):
                    if k in c:
                        d[k] = c[k]
                f.write(json.dumps(d) + "\n")
        rc = exec_driver(binary, cwd, cf, ef, env, cpu, mem)
        evs = read_events(os.path.join(cwd, ef))
        done = 0
        for c in todo:
            e = evs.get(c["id"])
            if e is None:
                break
            ended = any("end" in x for x in e)
            if ended:
                res[c["id"]] = (e, None)
                done += 1
                continue
            if rc == 0:
                raise Inconclusive("driver ended normally without finishing case %s" % c["id"])
            if rc == -signal.SIGXCPU:
                death = "did not finish within %d s of CPU time" % (cpu or CPU_LIMIT)
            elif rc == -signal.SIGKILL:
                raise Inconclusive("driver was killed from outside (memory guard)")
            else:
                death = "process ended with %s" % (signal.Signals(-rc).name if rc < 0 else "exit code %d" % rc)
            res[c["id"]] = (e, death)
            done += 1
            if rc == -signal.SIGXCPU:
                return res
            break
        if done == 0:
            raise Inconclusive("driver made no progress, exit %s: %s" % (rc, tail(os.path.join(cwd, "stderr.txt"))))
        if rc == 0 and done != len(todo):
            raise Inconclusive("driver ended normally after %d of %d cases" % (done, len(todo)))
        todo = todo[done:]
    return res


def tail(path, n=400):
    try:
        with open(path, "rb") as f:
            return f.read()[-n:].decode("utf-8", "replace")
    except OSError:
        return ""


def rng_for(*key):
    return random.Random("/".join(str(k) for k in key))


class Batch:
    """Directory the generators write the source files of their cases into."""

    def __init__(self, root):
        self.dir = root
        self.cases = []
        self.n = 0

    def path(self, name):
        return os.path.join(self.dir, name)

    def fresh(self, suffix="xlsx", stem="f"):
        self.n += 1
        return "%s%d.%s" % (stem, self.n, suffix)


def new_batch_dir(prop):
    return tempfile.mkdtemp(prefix="ooxv_%s_" % prop, dir=scratch_root())


def drop_dir(d):
    shutil.rmtree(d, ignore_errors=True)


def pool_map(fn, jobs, workers=None, deadline=None, stop=None):
    """Yields results as they come; stops handing out work after the deadline."""
    workers = workers or min(8, os.cpu_count() or 2)
    jobs = list(jobs)
    with ProcessPoolExecutor(max_workers=workers) as ex:
        pending = set()
        it = iter(jobs)
        exhausted = False
        while True:
            while not exhausted and len(pending) < workers * 2:
                if (deadline and time.time() > deadline) or (stop and stop()):
                    exhausted = True
                    break
                try:
                    j = next(it)
                except StopIteration:
                    exhausted = True
                    break
                pending.add(ex.submit(fn, j))
            if not pending:
                return
            for f in as_completed(pending):
                pending.discard(f)
                yield f.result()
                break
