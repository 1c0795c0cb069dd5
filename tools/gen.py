#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "cocotbext/pcie/core/"
X = "cocotbext/pcie/xilinx/us/"
I = "cocotbext/pcie/intel/"

PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, observe=None, state=None, note=None):
    PROPS.append(dict(id=pid, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=text), why_tests_cant=" ".join(why.split()),
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                                   observe_at=observe or [], hook_needed=None), _note=note))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

CLAIMED = {p["id"] for p in PROPS}
BASE = ("Exploration by execution: the unmodified library runs under generated workloads and the oracle judges what was observed; nothing is shown about executions that were not generated. "
        "Trusted: the oracle's reading of the PCIe specifications, cocotb, Icarus Verilog. ")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
             notes="./check.py <id> runs a check (VERIF_TIER, VERIF_SEED); ./check.py <id> --replay <file> repeats one failing execution. No hooks in /repo: monitors wrap instances at run time.")
    for p in PROPS:
        m["checks"].append(dict(property=p["id"], quick_cmd=f"./check.py {p['id']} --tier quick", thorough_cmd=f"./check.py {p['id']} --tier thorough",
                                technique="runtime monitoring: online and offline oracles over executions of the real code under generated, hostile and stress workloads",
                                level="exploration", level_note=BASE + (p["_note"] or "")))
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")


main()


def design():
    import sys
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    from vlib import props, plans  # noqa
    s = open(os.path.join(ROOT, "tools", "design.in.md")).read()
    ps = []
    for p in PROPS:
        x = props.IDS[p["id"]]
        how = HOW.get(p["id"], "")
        ps.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Workload and distinctness:* {x.rule}\n\n*Oracle:* {how}\n\n"
                  f"*Why tests cannot:* {p['why_tests_cant']}\n\n*Minimum observations:* " + ", ".join(f"{k} ≥ {v}" for k, v in x.require("quick").items()) + "\n")
    s = s.replace("%%PROPS%%", "\n".join(ps))
    fs = [l.strip() for l in open(os.path.join(ROOT, "known_findings.txt")) if l.startswith(("fixed:", "known:"))]
    s = s.replace("%%FINDINGS%%", "\n".join("* " + l for l in fs))
    rows = []
    sd = os.path.join(ROOT, "seeded")
    res = {}
    rp = os.path.join(ROOT, "tools", "seeded_results.json")
    if os.path.exists(rp):
        res = json.load(open(rp))
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(res.get(d, [])) or 'not recorded'} |")
    s = s.replace("%%SEEDED%%", "| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)


design()
