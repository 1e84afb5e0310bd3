#!/usr/bin/env python3
"""Decides one property: run.py C01 [--tier quick|thorough] [--replay FILE]

Each clause of the property is a generated-input search against an explicit
oracle, run in worker processes. Exit 0: no violation. Exit 1: a violation,
with its shrunk case in replays/. Anything else: an error of the check.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vlib import env  # noqa: E402

if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and os.path.exists(env.PY):
    os.execv(env.PY, [env.PY, "-B"] + sys.argv)

os.environ.update({k: v for k, v in env.worker_environ().items()})
env.add_hypothesis()


def load(prop):
    import importlib
    from vlib import core
    importlib.import_module("props." + prop.lower())
    return core.CLAUSES[prop]


def setup_repo(sodir):
    """Makes `import magpie` give /repo's tree."""
    sys.path.insert(0, env.REPO)
    from vlib import fortran
    fortran.install(sodir)
    import magpie
    if not os.path.realpath(magpie.__file__).startswith(os.path.realpath(env.REPO) + os.sep):
        raise RuntimeError("magpie was imported from %s" % magpie.__file__)


# ----------------------------------------------------------------- worker
def worker(args):
    from vlib import core
    setup_repo(args.sodir or None)
    cl = [c for c in load(args.prop) if c.name == args.clause][0]
    if args.replay:
        case = json.load(open(args.replay))["case"]
        j = open(args.out + ".case", "w+")
        rec = core.Recorder(j)
        res = {"failure": None}
        try:
            rec.evaluate(cl, case)
        except core.HarnessError:
            raise
        except Exception:
            res["failure"] = {"case": rec.failure[0], "message": rec.failure[1],
                              "reproduced": True}
    else:
        j = open(args.out + ".case", "w+") if cl.fortran else None
        res = core.run_clause(cl, args.tier, args.seed, args.shard, journal=j)
    with open(args.out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(args.out + ".tmp", args.out)
    # Fortran or C libraries may hang at exit; the result is written
    sys.stdout.flush()
    os._exit(0)


# ----------------------------------------------------------------- driver
def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    with open(p) as f:
        items = json.load(f)["known"]
    return [k for k in items if k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run a single clause (no evidence is written)")
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--clause")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--sodir", default="")
    ap.add_argument("--out")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 4))
    args = ap.parse_args()
    args.prop = args.prop.upper()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    if args.worker:
        worker(args)
        return 0

    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % args.prop)
    os.environ["VERIF_SCRATCH"] = scratch
    try:
        return drive(args, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def drive(args, scratch, t0):
    from vlib import fortran
    clauses = load(args.prop)
    if args.only:
        clauses = [c for c in clauses if c.name == args.only]
    replay = None
    if args.replay:
        replay = json.load(open(args.replay))
        clauses = [c for c in clauses if c.name == replay["clause"]]
        if not clauses:
            print("no such clause: %s" % replay["clause"])
            return 2
    flavours = sorted({c.fortran for c in clauses if c.fortran})
    if flavours:
        try:
            fortran.build_all(os.path.join(scratch, "f"), flavours)
        except fortran.BuildError as e:
            print("ERROR: %s" % e)
            return 2

    tasks = []
    for c in clauses:
        n = 1 if replay else (c.shards if args.tier != "thorough" else c.tshards)
        for k in range(n):
            tasks.append((c, k))
    # long ones first
    tasks.sort(key=lambda t: -(t[0].budget))
    running, results, failures, errors = [], [], [], []
    hard = 840. if args.tier != "thorough" else 6 * 3600.
    queue = list(tasks)
    while queue or running:
        while queue and len(running) < args.jobs:
            c, k = queue.pop(0)
            out = os.path.join(scratch, "%s.%d.json" % (c.name, k))
            cmd = [env.PY, "-B", os.path.join(HERE, "run.py"), args.prop, "--worker",
                   "--clause", c.name, "--shard", str(k), "--tier", args.tier,
                   "--seed", str(args.seed), "--out", out]
            if c.fortran:
                cmd += ["--sodir", os.path.join(scratch, "f", c.fortran)]
            if args.replay:
                cmd += ["--replay", os.path.abspath(args.replay)]
            log = open(out + ".log", "w")
            p = subprocess.Popen(cmd, cwd=scratch, env=env.worker_environ(),
                                 stdout=log, stderr=subprocess.STDOUT)
            running.append((c, k, out, log, p))
        time.sleep(0.05)
        for item in list(running):
            c, k, out, log, p = item
            if p.poll() is None:
                if time.monotonic() - t0 > hard:
                    p.kill()
                    p.wait()
                    errors.append("%s: out of time (inconclusive)" % c.name)
                    running.remove(item)
                continue
            running.remove(item)
            log.close()
            if os.path.exists(out):
                results.append(json.load(open(out)))
                if results[-1]["failure"]:
                    failures.append((c, results[-1]["failure"]))
                continue
            text = open(out + ".log").read()
            case = None
            if os.path.exists(out + ".case"):
                body = open(out + ".case").read()
                case = json.loads(body) if body.strip() else None
            sigkill = p.returncode == -9
            if case is not None and not sigkill and "HarnessError" not in text:
                tail = text.strip().splitlines()[-6:]
                failures.append((c, {
                    "case": case, "reproduced": True,
                    "message": "the process died (status %s) in this call: %s"
                               % (p.returncode, " | ".join(tail))}))
            else:
                errors.append("%s: worker ended with status %s\n%s"
                              % (c.name, p.returncode, text[-3000:]))
    return report(args, scratch, t0, clauses, results, failures, errors, replay)


def report(args, scratch, t0, clauses, results, failures, errors, replay):
    wall = time.monotonic() - t0
    known = known_findings(args.prop)
    new, seen = [], {}
    for c, f in failures:
        new.append((c, f))
    labels, per = {}, {}
    hashes = set()
    samples = []
    ev = 0
    for r in results:
        if "evaluations" not in r:
            continue
        ev += r["evaluations"]
        hashes |= {r["clause"] + ":" + h for h in r["hashes"]}
        d = per.setdefault(r["clause"], {"evaluations": 0, "nontrivial": set(), "skipped": 0,
                                         "cut_by_time": False, "wall_s": 0., "rule": r["rule"]})
        d["evaluations"] += r["evaluations"]
        d["nontrivial"] |= set(r["hashes"])
        d["skipped"] += r["skipped"]
        d["cut_by_time"] |= r["cut"]
        d["wall_s"] = round(d["wall_s"] + r["wall_s"], 2)
        for n, k in r["labels"].items():
            key = r["clause"] + ":" + n
            labels[key] = labels.get(key, 0) + k
        for s in r["samples"][:3]:
            if len([x for x in samples if x["clause"] == r["clause"]]) < 3:
                samples.append({"clause": r["clause"], "case": s})
    for d in per.values():
        d["nontrivial"] = len(d["nontrivial"])
    kf = [r["known"] for r in results if r.get("known")]
    if not replay and not args.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        evid = {
            "property": args.prop, "tier": args.tier, "seed": args.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": ev,
                "distinct_nontrivial": len(hashes),
                "rule": " || ".join("%s: %s" % (n, d["rule"]) for n, d in sorted(per.items())),
                "samples": samples,
                "clauses": per,
                "classes": dict(sorted(labels.items())),
            },
            "assumptions": [
                "numpy, healpy and the oracle formulas in /verif/props are trusted",
                "inputs are drawn from the documented domain stated in DESIGN.md",
            ],
            "wall_s": round(wall, 2),
            "violations": len(new),
        }
        tmp = os.path.join(HERE, "evidence", ".%s.tmp" % args.prop)
        with open(tmp, "w") as f:
            json.dump(evid, f, indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", args.prop + ".json"))
    for k in known:
        state = [r for r in results if k["label"] in (r.get("labels") or {})]
        if state:
            print("KNOWN-FINDING: property=%s %s" % (args.prop, k["what"]))
    for c, f in new:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        import hashlib
        h = hashlib.sha256(json.dumps(f["case"], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rd, "%s-%s-%s.json" % (args.prop, c.name, h))
        if replay:
            path = os.path.abspath(args.replay)
        else:
            with open(path, "w") as fh:
                json.dump({"property": args.prop, "clause": c.name, "message": f["message"],
                           "reproduced": f["reproduced"], "case": f["case"]}, fh, indent=1)
        print("  %s/%s: %s" % (args.prop, c.name, f["message"]))
        print("VIOLATION property=%s replay=%s" % (args.prop, path))
    for e in errors:
        print("ERROR: " + e)
    if per:
        print("%s: %d cases, %d distinct non-trivial, %.1f s%s"
              % (args.prop, ev, len(hashes), wall,
                 "" if not any(d["cut_by_time"] for d in per.values()) else " (some cut by time)"))
    if new:
        return 1
    if errors:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
