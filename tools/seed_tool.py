#!/opt/venv/bin/python
"""Make, verify and run the planted bugs (used by hand, no check uses this).

seed_tool.py DEFS.py [IDS...]   make seeded/ID from the definitions in DEFS.py, verify, run the check
seed_tool.py --run [IDS...]     run the checks against the bugs in seeded/
"""
import concurrent.futures
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"
ENV = dict(
    os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
    SETUPTOOLS_SCM_PRETEND_VERSION="0.14.0", PYTHONHASHSEED="0",
)
DEMO_SH = """#!/bin/bash
# exit 0 if pyirf in the current directory behaves as specified
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$here/demo.py"
"""
PRELUDE = """import os
import sys
import warnings

warnings.simplefilter("ignore")
import astropy.units as u
import numpy as np
from astropy.table import QTable, Table

import pyirf

assert os.path.realpath(os.path.dirname(pyirf.__file__)) == os.path.realpath("pyirf"), pyirf.__file__
"""
STABLE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable_pass", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()


def sh(cmd, cwd, env=ENV, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))


def copy():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    dst = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", "/repo", dst], check=True)
    return d, dst


def run_tests(tree):
    r = sh(f"{PY} -m pytest -q -p no:cacheprovider -n 2 --timeout=300 --continue-on-collection-errors pyirf 2>&1 | tail -15", tree)
    m = re.search(r"(\d+) failed", r.stdout)
    failed = int(m.group(1)) if m else 0
    p = re.search(r"(\d+) passed", r.stdout)
    passed = int(p.group(1)) if p else 0
    names = re.findall(r"FAILED (\S+)", r.stdout)
    return passed, failed, names


def run_check(prop, tree, seed="1", tier="quick", procs=4):
    env = dict(ENV, VERIF_REPO=tree, VERIF_SEED=seed, VERIF_TIER=tier)
    out = tempfile.mkdtemp(prefix="seedev-", dir="/tmp")
    t0 = time.time()
    # own copy, evidence and replays of /verif stay as they are
    subprocess.run(["cp", "-a", os.path.join(VERIF, "check.py"), os.path.join(VERIF, "monitor"), os.path.join(VERIF, "known_findings.txt"), os.path.join(VERIF, "MANIFEST.json"), out], check=True)
    r = sh([PY, os.path.join(out, "check.py"), prop, "--tier", tier, "--procs", str(procs)], out, env)
    line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")][:1]
    msg = ""
    m = re.search(r"replay=(\S+)", line[0]) if line else None
    if m:
        try:
            p = os.path.join(out, m.group(1)) if not os.path.isabs(m.group(1)) else m.group(1)
            msg = json.load(open(p)).get("message", "")[:160]
        except Exception as e:
            msg = repr(e)
    shutil.rmtree(out, ignore_errors=True)
    return r.returncode, bool(line), time.time() - t0, msg or r.stdout[-200:] + r.stderr[-300:]


RESULTS = os.path.join(VERIF, "tools", "seeded_results.json")
LOCK = threading.Lock()


def record(bid, prop, caught):
    """keeps the first result of a bug next to the last one, for SEEDED.md"""
    with LOCK:
        res = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
        e = res.setdefault(bid, dict(first=caught))
        e.setdefault("last", {})[prop] = caught
        json.dump(res, open(RESULTS, "w"), indent=1, sort_keys=True)


def make(bug):
    """returns (ok, text)"""
    d, tree = copy()
    try:
        for path, old, new in bug["edits"]:
            f = os.path.join(tree, path)
            s = open(f).read()
            if s.count(old) != 1:
                return False, f"{s.count(old)} matches in {path}: {old[:50]!r}"
            open(f, "w").write(s.replace(old, new))
        diff = sh("git diff", tree).stdout
        # only original lines
        added = set()
        base = sh("git rev-list --max-parents=0 HEAD", tree).stdout.split()[-1]
        for path, old, new in bug["edits"]:
            for line in sh(f"git blame -s HEAD -- {path}", tree).stdout.splitlines():
                m = re.match(r"(\^?[0-9a-f]+)\s.*?\d+\) (.*)", line)
                if m and not m.group(1).startswith("^"):
                    added.add(m.group(2))
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        own = [l for l in removed if l in added and l.strip()]
        if removed and len(own) == len([l for l in removed if l.strip()]):
            return False, f"changes only lines of fix commits: {own}"
        target = os.path.join(SEEDED, bug["id"])
        tmp = os.path.join(d, "bug")
        os.makedirs(tmp)
        open(os.path.join(tmp, "patch.diff"), "w").write(diff)
        open(os.path.join(tmp, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(tmp, "demo.sh"), 0o755)
        open(os.path.join(tmp, "demo.py"), "w").write(PRELUDE + bug["demo"].strip() + "\n")
        json.dump(dict(property=bug["prop"], needs=bug["needs"], what_it_breaks=bug["breaks"]), open(os.path.join(tmp, "meta.json"), "w"), indent=1)
        r = sh(["bash", os.path.join(tmp, "demo.sh")], "/repo", timeout=290)
        if r.returncode != 0:
            return False, "demo fails on the unchanged tree: " + r.stderr[-600:]
        r = sh(["bash", os.path.join(tmp, "demo.sh")], tree, timeout=290)
        if r.returncode == 0:
            return False, "demo passes with the patch"
        why = r.stderr.strip().splitlines()[-1] if r.stderr.strip() else ""
        passed, failed, names = run_tests(tree)
        if passed < 153:
            return False, f"tests see it: {passed} passed, {failed} failed {names[:3]}"
        shutil.rmtree(target, ignore_errors=True)
        shutil.copytree(tmp, target)
        rc, viol, t, msg = run_check(bug["prop"], tree)
        record(bug["id"], bug["prop"], rc == 1 and viol)
        return True, f"{'CAUGHT' if rc == 1 and viol else 'MISSED rc=%d' % rc} {t:.0f}s {msg} [demo: {why[:80]}]"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rerun(bid, props=None):
    d, tree = copy()
    try:
        meta = json.load(open(os.path.join(SEEDED, bid, "meta.json")))
        r = sh(["git", "apply", os.path.join(SEEDED, bid, "patch.diff")], tree)
        if r.returncode:
            return False, "does not apply " + r.stderr
        res = []
        for p in props or [meta["property"]]:
            rc, viol, t, msg = run_check(p, tree)
            record(bid, p, rc == 1 and viol)
            res.append(f"{p} {'CAUGHT' if rc == 1 and viol else 'MISSED rc=%d' % rc} {t:.0f}s {msg}")
        return True, " | ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = sys.argv[1:]
    if args[0] == "--run":
        ids = args[1:] or sorted(os.listdir(SEEDED))
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            for bid, (ok, text) in zip(ids, ex.map(rerun, ids)):
                print(bid, "ok " if ok else "BAD", text, flush=True)
        return
    spec = importlib.util.spec_from_file_location("defs", args[0])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    bugs = [b for b in mod.BUGS if not args[1:] or b["id"] in args[1:]]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for b, (ok, text) in zip(bugs, ex.map(make, bugs)):
            print(b["id"], "ok " if ok else "BAD", text, flush=True)


main()
