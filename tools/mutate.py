#!/opt/venv/bin/python
"""Mechanical mutants of pyirf (used by hand, no check uses this).

mutate.py gen OUT [FILES...]   write all mutants of the files to OUT/NNNN.json
mutate.py tests OUT            keep those passing the stable tests
mutate.py checks OUT FACTOR    run the checks of the file on them, at FACTOR times the base number of cases
"""
import ast
import concurrent.futures as cf
import copy
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           SETUPTOOLS_SCM_PRETEND_VERSION="0.14.0", PYTHONHASHSEED="0")
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd],
       ast.FloorDiv: [ast.Div], ast.Mod: [ast.Mult]}
NAMES = {"nanpercentile": "percentile", "nanquantile": "quantile", "argmin": "argmax", "argmax": "argmin", "nanargmin": "argmin", "min": "max", "max": "min",
         "any": "all", "all": "any", "sin": "cos", "cos": "sin", "maximum": "minimum", "minimum": "maximum", "logical_and": "logical_or",
         "logical_or": "logical_and", "log": "log10", "log10": "log", "sum": "max", "cumsum": "sort", "zeros": "ones", "ones": "zeros", "copy": "view"}


class Collect(ast.NodeVisitor):
    def __init__(self):
        self.out = []  # (path to node, description, function making the mutation)
        self.func = []

    def visit_FunctionDef(self, node):
        self.func.append(node.name)
        self.generic_visit(node)
        self.func.pop()


def mutants(tree):
    """All single mutations: (description, line, mutate(tree copy))"""
    nodes = [n for n in ast.walk(tree)]
    doc = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(getattr(n.body[0], "value", None), ast.Constant):
            doc.add(id(n.body[0].value))
            doc.add(id(n.body[0]))
    ann = set()
    for n in nodes:
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "log") \
                or isinstance(n, (ast.JoinedStr, ast.ImportFrom, ast.Import)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("__all__", "COLUMN_MAP")):
            for m in ast.walk(n):
                ann.add(id(m))
        if isinstance(n, ast.FunctionDef) and n.name == "__repr__":
            for m in ast.walk(n):
                ann.add(id(m))
    for i, n in enumerate(nodes):
        if id(n) in ann or id(n) in doc:
            continue
        line = getattr(n, "lineno", 0)

        def setter(field, value, i=i):
            def f(t):
                m = list(ast.walk(t))[i]
                setattr(m, field, value)
            return f

        if isinstance(n, ast.Compare):
            for new in CMP.get(type(n.ops[0]), []):
                yield f"{ast.unparse(n)} -> {new.__name__}", line, setter("ops", [new()] + n.ops[1:])
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for new in BIN.get(type(n.op), []):
                yield f"{ast.unparse(n)} -> {new.__name__}", line, setter("op", new())
        elif isinstance(n, ast.BoolOp):
            yield f"{ast.unparse(n)} -> and/or", line, setter("op", ast.Or() if isinstance(n.op, ast.And) else ast.And())
        elif isinstance(n, ast.UnaryOp):
            def f(t, i=i):
                m = list(ast.walk(t))[i]
                for p in ast.walk(t):
                    for k, v in ast.iter_fields(p):
                        if v is m:
                            setattr(p, k, m.operand)
                        elif isinstance(v, list) and any(x is m for x in v):
                            setattr(p, k, [m.operand if x is m else x for x in v])
            yield f"{ast.unparse(n)} -> without operator", line, f
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                yield f"line {line}: {v} -> {not v}", line, setter("value", not v)
            elif isinstance(v, int):
                for w in (v + 1, v - 1):
                    yield f"line {line}: {v} -> {w}", line, setter("value", w)
            elif isinstance(v, float):
                for w in (v * 1.1 if v else 1e-3, v * 100):
                    yield f"line {line}: {v} -> {w}", line, setter("value", w)
        elif isinstance(n, (ast.If, ast.IfExp)):
            for w in (True, False):
                yield f"if {ast.unparse(n.test)} -> {w}", line, setter("test", ast.Constant(w))
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            yield f"line {line}: {n.attr} -> {NAMES[n.attr]}", line, setter("attr", NAMES[n.attr])
        if isinstance(n, ast.Call):
            for j, kw in enumerate(n.keywords):
                yield f"{ast.unparse(n)[:80]}: without {kw.arg}", line, setter("keywords", n.keywords[:j] + n.keywords[j + 1:])
            if n.args and isinstance(n.func, ast.Attribute) and len(n.args) == 1 and n.func.attr not in ("append",):
                def g(t, i=i):
                    m = list(ast.walk(t))[i]
                    new = m.args[0] if isinstance(m.func.value, ast.Name) and m.func.value.id in ("np", "u") else m.func.value
                    for p in ast.walk(t):
                        for k, v in ast.iter_fields(p):
                            if v is m:
                                setattr(p, k, new)
                            elif isinstance(v, list) and any(x is m for x in v):
                                setattr(p, k, [new if x is m else x for x in v])
                yield f"{ast.unparse(n)[:80]} -> argument", line, g
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not isinstance(getattr(n, "value", None), ast.Yield):
            simple = isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Name, ast.Tuple)) and False
            if not simple:
                def h(t, i=i):
                    m = list(ast.walk(t))[i]
                    for p in ast.walk(t):
                        for k, v in ast.iter_fields(p):
                            if isinstance(v, list) and any(x is m for x in v):
                                setattr(p, k, [ast.Pass() if x is m else x for x in v])
                yield f"removed: {ast.unparse(n)[:80]}", line, h


def gen(out, files):
    os.makedirs(out, exist_ok=True)
    count = 0
    if not files:
        files = [f for f in subprocess.run(["git", "-C", "/repo", "ls-files", "pyirf"], capture_output=True, text=True).stdout.split()
                 if f.endswith(".py") and "/tests/" not in f and not f.endswith(("version.py", "conftest.py", "compat.py", "_version.py"))]
    for f in files:
        src = open(f"/repo/{f}").read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        seen = set()
        for what, line, mutate in mutants(tree):
            t = copy.deepcopy(tree)
            try:
                mutate(t)
                text = ast.unparse(ast.fix_missing_locations(t))
                compile(text, f, "exec")
            except Exception:
                continue
            if text == base or text in seen:
                continue
            seen.add(text)
            json.dump({"file": f, "what": what, "line": line, "text": text}, open(f"{out}/{count:05d}.json", "w"))
            count += 1
    print(count, "mutants")


def tree_copy():
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    dst = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", "/repo", dst], check=True)
    return d, dst


STABLE = json.load(open("/opt/vp/BASELINE.json")).get("stable_pass", [])


def tests(out):
    todo = [f for f in sorted(os.listdir(out)) if re.match(r"\d+\.json$", f) and "tests" not in json.load(open(f"{out}/{f}"))]

    def work(part):
        d, dst = tree_copy()
        for name in part:
            m = json.load(open(f"{out}/{name}"))
            orig = open(f"{dst}/{m['file']}").read()
            open(f"{dst}/{m['file']}", "w").write(m["text"])
            try:
                r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "--maxfail=3", "-p", "no:cacheprovider", "--timeout=60", "pyirf"], cwd=dst, env=ENV, capture_output=True, text=True, timeout=200)
                tail = r.stdout[-300:]
                p = re.search(r"(\d+) passed", tail)
                m["tests"] = bool(p and int(p.group(1)) >= 153)
            except subprocess.TimeoutExpired:
                m["tests"] = False
            open(f"{dst}/{m['file']}", "w").write(orig)
            json.dump(m, open(f"{out}/{name}", "w"))
        shutil.rmtree(d)

    n = 8
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(work, [todo[i::n] for i in range(n)]))
    ms = [json.load(open(f"{out}/{f}")) for f in os.listdir(out) if re.match(r"\d+\.json$", f)]
    print(sum(m["tests"] for m in ms), "of", len(ms), "pass the tests")


def checks(out, factor, only=None):
    props = [json.loads(l) for l in open(f"{VERIF}/properties.jsonl")] if os.path.exists(f"{VERIF}/properties.jsonl") else [json.loads(l) for l in open("/verif/properties.jsonl")]
    todo = [f for f in sorted(os.listdir(out)) if re.match(r"\d+\.json$", f)]
    todo = [f for f in todo if (lambda m: m.get("tests") and not m.get("caught") and m.get("factor", -1) < factor)(json.load(open(f"{out}/{f}")))]
    print(len(todo), "to run", flush=True)

    def anchored(file):
        ids = []
        for p in props:
            text = json.dumps(p)
            if p["id"][0] == "G" and factor < 10:
                continue
            if file in text or (os.path.dirname(file) + "/\"") in text:
                ids.append((p["anchors"]["files"].index(file) if file in p["anchors"]["files"] else 99, p["id"]))
        return [i for _, i in sorted(ids)]

    def work(part):
        d, dst = tree_copy()
        v = os.path.join(d, "v")
        os.makedirs(v)
        subprocess.run(["cp", "-a", f"{VERIF}/check.py", f"{VERIF}/monitor", f"{VERIF}/known_findings.txt", v], check=True)
        core = open(f"{v}/monitor/core.py").read()
        core = re.sub(r"QUICK_FACTOR, THOROUGH_FACTOR = \d+, \d+", f"QUICK_FACTOR, THOROUGH_FACTOR = {factor}, 15", core)
        open(f"{v}/monitor/core.py", "w").write(core)
        for name in part:
            m = json.load(open(f"{out}/{name}"))
            orig = open(f"{dst}/{m['file']}").read()
            open(f"{dst}/{m['file']}", "w").write(m["text"])
            for p in anchored(m["file"]):
                try:
                    r = subprocess.run([PY, "check.py", p, "--tier", "quick", "--seed", "1", "--procs", "1"], cwd=v, env=dict(ENV, VERIF_REPO=dst), capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    m["caught"] = p + " timeout"
                    break
                if r.returncode != 0:
                    m["caught"] = p
                    m["how"] = r.stdout[-300:] if r.returncode == 1 else "rc %d %s" % (r.returncode, r.stderr[-200:])
                    break
            m["factor"] = factor
            open(f"{dst}/{m['file']}", "w").write(orig)
            json.dump(m, open(f"{out}/{name}", "w"))
            if not m.get("caught"):
                print(name, m["file"], m["line"], m["what"], flush=True)
        shutil.rmtree(d)

    n = 8
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(work, [todo[i::n] for i in range(n)]))
    ms = [json.load(open(f"{out}/{f}")) for f in os.listdir(out) if re.match(r"\d+\.json$", f)]
    ms = [m for m in ms if m.get("tests")]
    print(sum(bool(m.get("caught")) for m in ms), "of", len(ms), "caught")


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "gen":
        gen(sys.argv[2], sys.argv[3:])
    elif cmd == "tests":
        tests(sys.argv[2])
    else:
        checks(sys.argv[2], int(sys.argv[3]))
