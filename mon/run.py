#!/usr/bin/env python3
"""One check: python3 mon/run.py Cxx [--replay DIR]

Builds the drivers from /repo's working tree, generates the units of the property's suite from VERIF_SEED, runs
them on the real code and lets the judges decide over what was observed. Exit 0: nothing found; 1 and VIOLATION
lines: found; 2: no answer."""
import collections, fnmatch, hashlib, json, os, random, shutil, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, harness, suites, units
from harness import Disc, Inconclusive, VERIF, rng_for
import fuzz, faults, leaks, cffi, enums  # noqa: F401  (register their generators, judges and runners)

KEEP = os.path.join(VERIF, "evidence", "replay")
MAX_REPORT = 5


def file_hash(path):
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def unit_hash(u, d):
    h = hashlib.sha1()
    for c in u["cases"]:
        h.update(json.dumps([c.get("ops"), c.get("parallel")], sort_keys=True).replace(u["id"], "U").encode())
        for f in c.get("files", []):
            p = os.path.join(d, f)
            if os.path.exists(p):
                h.update(file_hash(p).encode())
    return h.hexdigest()


def sample(u):
    def cut(ops):
        t = json.dumps(ops[:12], ensure_ascii=True)
        return t if len(t) < 900 else t[:900] + "..."
    c = u["cases"][0]
    return {"unit": u["id"], "kind": u["kind"], "cases": len(u["cases"]), "files": c.get("files", [])[:4], "ops": cut(c.get("ops") or c.get("parallel")[0])}


def have(us, res):
    """The units all of whose cases ran."""
    return [u for u in us if all(c["id"] in res for c in u["cases"])]


def run_units(us, d, binary, opts):
    """Runs and judges; returns [(unit, discs, stats, failure)]."""
    runner = units.RUNNER.get(us[0]["kind"]) if us else None
    try:
        if runner:
            res = runner(us, d, binary)
        else:
            res = harness.run_cases(binary, d, [c for u in us for c in u["cases"]], **opts)
            more = []
            us = have(us, res)
            for u in us:
                if u["kind"] in units.FOLLOW:
                    x = units.FOLLOW[u["kind"]](u, res, d)
                    u["cases"] = u["cases"] + x
                    more += x
            if more:
                res.update(harness.run_cases(binary, d, more, **opts))
                us = have(us, res)
    except Inconclusive as ex:
        return [(u, [], {}, str(ex)) for u in us[:1]]
    out = []
    for u in us:
        try:
            discs, st = units.JUDGE[u["kind"]](u, res, d)
            out.append((u, discs, st, None))
        except Inconclusive as ex:
            out.append((u, [], {}, str(ex)))
        except Exception:
            # what was written cannot even be interpreted; on an intact library this does not happen
            t = traceback.format_exc(limit=-4)
            out.append((u, [Disc(units.ALL, "uninterpretable", "the reader could not interpret what was observed: " + t.replace("\n", " | ")[-900:])], {}, None))
    return out


UNDELIVERED = ("refused", "panic", "death", "zip", "xml")


def job(j):
    prop, gen, arg, start, count, seed, tier, binary, opts = j
    d = harness.new_batch_dir(prop)
    r = dict(units=0, cases=0, ops=0, discs=[], other=collections.Counter(), stats=collections.Counter(), hashes=[], samples=[], failed=[])
    try:
        b = harness.Batch(d)
        us = []
        for i in range(start, start + count):
            uid = "%s%d" % (gen[:6].replace("_", ""), i)
            u = units.GEN[gen](rng_for(seed, prop, gen, arg, i), b, uid, arg)
            if u:
                us.append(u)
        first = {u["id"]: json.loads(json.dumps(u)) for u in us}
        hashes = {u["id"]: unit_hash(u, d) for u in us}
        for u, discs, st, failure in run_units(us, d, binary, opts):
            r["units"] += 1
            r["cases"] += len(u["cases"])
            r["ops"] += sum(len(c.get("ops") or [o for l in c.get("parallel", []) for o in l]) for c in u["cases"])
            r["stats"].update(st)
            if failure:
                r["failed"].append((u["id"], failure))
                continue
            if units.nontrivial(u, st):
                r["hashes"].append(hashes[u["id"]])
            if not r["samples"]:
                r["samples"].append(sample(u))
            # a promised result that was not delivered at all is a failure of whatever was being checked
            mine = [x for x in discs if prop in x.tags or x.code in UNDELIVERED]
            for x in discs:
                if x not in mine:
                    r["other"][x.code] += 1
            if mine:
                keep = None
                if len(r["discs"]) < MAX_REPORT:
                    keep = keep_unit(prop, first[u["id"]], gen, arg, int(u["id"][len(gen[:6].replace("_", "")):]), seed, [repr(x) for x in mine[:20]])
                r["discs"] += [(u["id"], gen, x.code, x.detail, keep) for x in mine[:10]]
    finally:
        harness.drop_dir(d)
    r["other"] = dict(r["other"])
    r["stats"] = dict(r["stats"])
    return r


def keep_unit(prop, unit, gen, arg, i, seed, note):
    """Writes the unit once more, as it was before it ran, into a directory to replay it from."""
    d = os.path.join(KEEP, prop, "%s_%d" % (unit["id"], os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    units.GEN[gen](rng_for(seed, prop, gen, arg, i), harness.Batch(d), unit["id"], arg)
    with open(os.path.join(d, "case.json"), "w") as f:
        json.dump(dict(unit, gen=[gen, arg], origin=[seed, prop, i]), f, indent=1)
    with open(os.path.join(d, "note.txt"), "w") as f:
        f.write("\n".join(note) + "\n")
    return d


def known():
    out = []
    with open(os.path.join(VERIF, "known_findings.jsonl")) as f:
        for line in f:
            if line.strip():
                k = json.loads(line)
                if k.get("kind") == "finding":
                    out.append(k)
    return out


def is_known(ks, prop, gen, code, detail):
    for k in ks:
        if prop in k["properties"] and k["unit"] == gen and k["code"] == code and fnmatch.fnmatchcase(detail, k["detail"]):
            return k
    return None


def binaries(names):
    out = {}
    for n in names:
        out[n] = {"debug": build.driver, "release": lambda: build.driver(True), "asan": build.driver_asan, "tsan": build.driver_tsan, "ffi": build.ffi}[n]()
    return out


def one_line(t, n=600):
    return " ".join(t.split())[:n]


def replay(prop, path):
    with open(os.path.join(path, "case.json")) as f:
        u = json.load(f)
    gen, arg = u["gen"]
    bins = binaries([units.BINARY.get(gen, "debug")])
    d = harness.new_batch_dir("replay")
    shutil.copytree(path, d, dirs_exist_ok=True)
    bad = 0
    for u, discs, st, failure in run_units([u], d, list(bins.values())[0], {}):
        print("no answer: " + failure if failure else "observed: %s" % dict(st))
        for x in discs:
            print(x)
            bad += prop in x.tags or x.code in UNDELIVERED
    print("files in", d)
    return 1 if bad else 0


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--replay" in sys.argv:
        return replay(prop, sys.argv[sys.argv.index("--replay") + 1])
    t0 = time.time()
    suite = suites.SUITES[prop]
    plan = suites.plan(prop, tier)
    shutil.rmtree(os.path.join(KEEP, prop), ignore_errors=True)
    try:
        bins = binaries(sorted({p["bin"] for p in plan}))
    except build.BuildError as ex:
        print(ex)
        print("no answer: the drivers do not build")
        return 2
    t1 = time.time()
    jobs = []
    for p in plan:
        for s in range(0, p["n"], p["per"]):
            jobs.append((prop, p["gen"], p["arg"], s, min(p["per"], p["n"] - s), seed, tier, bins[p["bin"]], p["opts"]))
    if not os.environ.get("VERIF_ORDER"):
        rng_for(seed, "order").shuffle(jobs)
    budget = float(os.environ.get("VERIF_BUDGET", suite.get("budget", {}).get(tier, 420 if tier == "quick" else 3000)))
    deadline = t1 + budget
    ks = known()
    total = collections.Counter()
    stats, other = collections.Counter(), collections.Counter()
    per_gen = collections.Counter()
    hashes, samples, found, failed, known_seen = set(), [], [], [], {}

    def stop():
        return len({f[2] for f in found}) >= 4 or len(found) >= 25 or found and time.time() - t1 > 150

    done = 0
    for r in harness.pool_map(job, jobs, deadline=deadline, stop=stop):
        done += 1
        for k in ("units", "cases", "ops"):
            total[k] += r[k]
        stats.update(r["stats"])
        other.update(r["other"])
        hashes.update(r["hashes"])
        failed += r["failed"]
        if len(samples) < 4:
            samples += r["samples"][:1]
        for f in r["discs"]:
            k = is_known(ks, prop, f[1], f[2], f[3])
            if k:
                known_seen[k["id"]] = k
            else:
                found.append(f)
    for k in known_seen.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    seen = set()
    for uid, gen, code, detail, keep in found:
        if code in seen or keep is None:
            continue
        seen.add(code)
        print("%s: %s: %s" % (uid, code, one_line(detail)))
        print("VIOLATION property=%s replay=%s" % (prop, keep))
        if len(seen) >= MAX_REPORT:
            break
    if found and not seen:
        print("VIOLATION property=%s replay=%s" % (prop, "none kept: %s" % one_line(found[0][3])))
    for uid, why in failed[:5]:
        print("no answer from %s: %s" % (uid, why))
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": suite["level"],
          "coverage": {"evaluations": total["units"], "distinct_nontrivial": len(hashes), "rule": suite["rule"], "samples": samples,
                       "driver_cases": total["cases"], "calls_issued": total["ops"], "jobs_done": done, "jobs_planned": len(jobs),
                       "observed": {k: v for k, v in sorted(stats.items())},
                       "discrepancies_belonging_to_other_properties": dict(other)},
          "assumptions": suite["assumptions"], "wall_s": round(wall, 1), "build_s": round(t1 - t0, 1), "violations": len(found)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d units, %d cases, %d calls, %d distinct, %.0f s (build %.0f s)" % (prop, total["units"], total["cases"], total["ops"], len(hashes), wall, t1 - t0))
    if found:
        return 1
    if failed or done < len(jobs) * 0.5:
        print("no answer: %d units gave none, %d of %d jobs done" % (len(failed), done, len(jobs)))
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:   # the machinery's own failure is no verdict
        traceback.print_exc()
        sys.exit(2)
