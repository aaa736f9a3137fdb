#!/opt/venv/bin/python
"""Decide one property: check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: held on everything observed, 1: violated, 2: inconclusive.
"""
import argparse
import importlib
import json
import os
import pkgutil
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

WATCHDOG = {"quick": 800, "thorough": 3 * 3600}


def load_properties():
    import monitor.props as props

    for info in pkgutil.iter_modules(props.__path__):
        importlib.import_module(f"monitor.props.{info.name}")
    from monitor.core import REGISTRY

    return REGISTRY


def load_property(prop_id):
    """Import only the module that defines the property"""
    import monitor.props as props
    from monitor.core import REGISTRY

    for info in sorted(pkgutil.iter_modules(props.__path__), key=lambda i: i.name):
        path = os.path.join(os.path.dirname(props.__file__), info.name + ".py")
        if f'"{prop_id}"' in open(path).read():
            importlib.import_module(f"monitor.props.{info.name}")
            if prop_id in REGISTRY:
                return REGISTRY[prop_id]
    raise SystemExit(f"unknown property {prop_id}")


def worker(args):
    from monitor.boot import boot
    from monitor.core import run_cases, load_known, jobs_for

    scratch = boot()
    try:
        prop = load_property(args.property)
        known = load_known(prop.id)
        if args.replay:
            r = json.load(open(args.replay))
            jobs = [(r["family"], r["index"])]
            args.seed, args.tier = r["seed"], r["tier"]
        else:
            jobs = jobs_for(prop, args.tier, args.scale)
            if args.family:
                jobs = [j for j in jobs if j[0] == args.family]
            if args.index is not None:
                jobs = [(args.family, args.index)]
        if args.procs == 1:
            results = [run_cases(prop, args.tier, args.seed, known, jobs)]
        else:
            # fork after the imports, each process runs an interleaved share
            results = forked(prop, args, known, jobs, scratch)
        with open(args.worker, "w") as f:
            json.dump(results, f, default=str)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def forked(prop, args, known, jobs, scratch):
    from monitor.core import run_cases
    import traceback

    pids = []
    for w in range(args.procs):
        out = os.path.join(scratch, f"worker-{w}.json")
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                res = run_cases(prop, args.tier, args.seed, known, jobs[w :: args.procs])
                with open(out, "w") as f:
                    json.dump(res, f, default=lambda o: o.hex() if isinstance(o, bytes) else str(o))
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids.append((pid, out))
    results = []
    for pid, out in pids:
        _, status = os.waitpid(pid, 0)
        if status != 0 or not os.path.exists(out):
            results.append(dict(errors=[f"worker {pid} ended with status {status}"]))
        else:
            results.append(json.load(open(out)))
    return results


def merge(results):
    total = dict(
        decisions=0, cases=0, events={}, skipped={}, outcomes={}, known_seen={},
        keys=set(), samples=[], violations=[], errors=[],
    )
    for r in results:
        total["decisions"] += r.get("decisions", 0)
        total["cases"] += r.get("cases", 0)
        for name in ("events", "skipped", "outcomes", "known_seen"):
            for k, v in r.get(name, {}).items():
                total[name][k] = total[name].get(k, 0) + v
        total["keys"].update(r.get("keys", []))
        total["violations"] += r.get("violations", [])
        total["errors"] += r.get("errors", [])
        for s in r.get("samples", []):
            if len(total["samples"]) < 4 or (
                len(total["samples"]) < 16
                and all(o["family"] != s["family"] for o in total["samples"])
            ):
                total["samples"].append(s)
    return total


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--procs", type=int, default=8)
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("--family")
    parser.add_argument("--index", type=int)
    parser.add_argument("--replay")
    parser.add_argument("--worker")
    args = parser.parse_args()
    if args.replay:
        args.procs = 1
    if args.worker:
        worker(args)
        return 0

    start = time.monotonic()
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8", TZ="UTC",
    )
    scratch = tempfile.mkdtemp(prefix="pyirf-check-")
    env["TMPDIR"] = scratch
    out = os.path.join(scratch, "result.json")
    cmd = [sys.executable, os.path.abspath(__file__)] + sys.argv[1:] + ["--worker", out]
    error = None
    try:
        try:
            proc = subprocess.run(
                cmd, env=env, cwd=scratch, timeout=WATCHDOG[args.tier],
                stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
            )
            if proc.returncode != 0:
                error = proc.stderr[-3000:]
        except subprocess.TimeoutExpired:
            error = "watchdog: the workload did not end in time"
        results = json.load(open(out)) if error is None else []
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    from monitor.core import load_known, write_json

    total = merge(results)
    if error:
        total["errors"].append(error)
    prop = load_property_meta(args.property)
    wall = time.monotonic() - start
    known = load_known(args.property)

    for key, n in sorted(total["known_seen"].items()):
        print(f"KNOWN-FINDING: property={args.property} {known.get(key, key)} (observed {n} times)")

    partial = bool(args.replay or args.family or args.scale != 1.0)
    missing = [
        t for t in prop.required
        if total["events"].get(t, 0) == 0 and not partial
    ]
    inconclusive = list(total["errors"])
    if missing:
        inconclusive.append(f"entry points never observed: {missing}")
    if total["decisions"] == 0 or not total["keys"]:
        inconclusive.append("no decision was made on a non-trivial case")

    evidence = dict(
        property=args.property, tier=args.tier, seed=args.seed, level="exploration",
        coverage=dict(
            evaluations=total["cases"] + sum(total["events"].values()),
            cases=total["cases"],
            distinct_nontrivial=len(total["keys"]),
            rule=prop.rule,
            samples=total["samples"],
            oracle_decisions=total["decisions"],
            monitored_calls=total["events"],
            skipped_decisions=total["skipped"],
            aborted_cases=total["outcomes"].get("aborted", 0),
            known_findings_observed=total["known_seen"],
        ),
        assumptions=[prop.note],
        violations=len(total["violations"]),
        inconclusive=inconclusive,
        wall_s=round(wall, 2),
    )
    if not args.replay:
        write_json(os.path.join(VERIF, "evidence", f"{args.property}.json"), evidence)

    if total["violations"]:
        seen = set()
        for v in sorted(total["violations"], key=lambda v: (v["family"], v["index"])):
            if v["family"] in seen and len(seen) >= 1:
                continue
            seen.add(v["family"])
            path = os.path.join(
                VERIF, "replays", f"{args.property}-{v['family']}-{v['index']}-{v['seed']}.json"
            )
            write_json(path, v)
            print(f"{v['family']}[{v['index']}]: {v['message']}")
            for k, d in v["detail"].items():
                print(f"    {k}: {d}")
            print(f"VIOLATION property={args.property} replay={path}")
        return 1
    if inconclusive:
        for msg in inconclusive[:5]:
            print("INCONCLUSIVE:", msg)
        return 2
    print(
        f"held: property={args.property} cases={total['cases']} "
        f"distinct_nontrivial={len(total['keys'])} decisions={total['decisions']} "
        f"events={sum(total['events'].values())} wall={wall:.1f}s"
    )
    return 0


def load_property_meta(prop_id):
    """The description of a property; the definitions do not need pyirf"""
    return load_property(prop_id)


if __name__ == "__main__":
    sys.exit(main())
