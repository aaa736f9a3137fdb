#!/opt/venv/bin/python
"""Write properties.jsonl and MANIFEST.json from the properties defined in monitor/props"""
import importlib
import json
import os
import pkgutil
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import monitor.props as props  # noqa: E402
from monitor.core import REGISTRY  # noqa: E402

for info in pkgutil.iter_modules(props.__path__):
    importlib.import_module(f"monitor.props.{info.name}")

NOT_APPLICABLE = []

lines, checks = [], []
for pid in sorted(REGISTRY):
    p = REGISTRY[pid]
    assert re.fullmatch(r"[A-Z][0-9]{2,3}", pid)
    assert len(p.title) <= 80, (pid, len(p.title))
    sentences = len(re.findall(r"\.(?:\s|$)", p.statement))
    assert sentences <= 3, (pid, sentences)
    lines.append(json.dumps(dict(
        id=pid, title=p.title, statement=p.statement, quantifier=dict(over=p.over, text=p.quantifier), why_tests_cant=p.why,
        anchors=dict(files=p.files, mechanism=p.mechanism, observe_at=p.observe_at),
    )))
    checks.append(dict(
        property=pid, quick_cmd=f"./check.py {pid} --tier quick", thorough_cmd=f"./check.py {pid} --tier thorough",
        evidence_file=f"evidence/{pid}.json", technique=p.technique, level="exploration",
        level_note="Holds on the executions that were observed. Judged: " + p.rule + ". Limits: " + p.note + ".",
    ))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
manifest = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, astropy, gammapy' && mkdir -p evidence replays",
    checks=checks,
    not_applicable=NOT_APPLICABLE,
    notes="pyirf is pure Python: checks import the working tree of /repo directly, monitors are attached at run time, no hooks are needed in /repo. "
    "VERIF_SEED selects the workload, VERIF_TIER its size (the option --tier takes precedence).",
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(lines), "properties")


def seeded():
    """table of the planted bugs with the results recorded by tools/seed_tool.py"""
    path = os.path.join(HERE, "tools", "seeded_results.json")
    res = json.load(open(path)) if os.path.exists(path) else {}
    out = [
        "Made and verified by `tools/seed_tool.py` (the definitions are in `tools/defs*.py`). \"First\" is the result of the check of the",
        "property when the bug was planted, \"now\" after the workloads or oracles were strengthened.", "",
        "| bug | property | needs | breaks | first | now |", "|---|---|---|---|---|---|",
    ]
    for bid in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", bid, "meta.json")))
        r = res.get(bid, {})
        now = ", ".join(f"{p} {'caught' if c else 'missed'}" for p, c in sorted(r.get("last", {}).items()))
        first = {True: "caught", False: "missed"}.get(r.get("first"), "")
        out.append(f"| {bid} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {first} | {now} |".replace("\n", " "))
    return out


def design():
    """DESIGN.md: the text of DESIGN.head.md, one section for each property, the planted bugs"""
    out = [open(os.path.join(HERE, "DESIGN.head.md")).read().rstrip(), "", "## How each property is decided", ""]
    for pid in sorted(REGISTRY):
        p = REGISTRY[pid]
        out += [f"### {pid} {p.title}", ""]
        targets = []
        for target, _ in p.monitors:
            name = target.replace("pyirf.", "", 1)
            if name not in targets:
                targets.append(name)
        fams = ", ".join(f"`{name}` ({q} / {t})" for name, _, q, t in p.families)
        if targets:
            shown = targets if len(targets) <= 12 else targets[:12] + [f"{len(targets) - 12} more"]
            out.append("* Monitored: " + ", ".join(f"`{t}`" for t in shown))
        out.append("* Oracle: " + p.technique.split(": ", 1)[-1] + "; " + p.rule + ".")
        out.append(f"* Workload (cases quick / thorough): {fams}")
        out.append("* Bounds and tolerance: " + p.note + ".")
        out.append("* Beyond tests: " + p.why)
        out.append("")
    out += ["## Planted bugs", ""]
    out += seeded()
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(out) + "\n")


design()
