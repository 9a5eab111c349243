#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table. Run from anywhere; the results are committed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROWS, NA = [], []
D = "base/dependencies/"; C = "base/components/"
COMMON = "The deciding step is z3 (bit vectors) over all values of the symbolic inputs on every feasible path of the compiled code, within the stated bounds; counterexamples and sampled paths are replayed natively with address sanitizer. Trusts clang's IR, the engine in /verif/engine and its models of the few system calls."
def R(pid, title, statement, over, text, tests, files, mech, note="", observe=(), state=(), na=None):
    ROWS.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None)))
    assert len(title) <= 80, title
    assert 1 <= statement.count(". ") + 1 <= 3, statement
    if na: NA.append(dict(property=pid, reason=na))
    else: ROWS[-1]["_note"] = note
exec(open(os.path.join(V, "tools", "table.py")).read())
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for r in ROWS: f.write(json.dumps({k: v for k, v in r.items() if k[0] != "_"}) + "\n")
    checks = []
    for r in ROWS:
        if "_note" not in r: continue
        checks.append(dict(property=r["id"], quick_cmd="./check.py " + r["id"], thorough_cmd="./check.py " + r["id"] + " --thorough", evidence_file="evidence/" + r["id"] + ".json",
            technique="symbolic execution of the library's LLVM IR with z3 deciding branch feasibility and assertions (bounded), counterexamples replayed natively",
            level="model_checking", level_note=(r["_note"] + " " if r["_note"] else "") + COMMON))
    m = dict(version=1, setup_cmd="engine/build.sh build/bin", checks=checks, not_applicable=NA, notes="See DESIGN.md. No hooks are needed in /repo: the harnesses compile /repo/base directly.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        for r in ROWS: jsonschema.validate({k: v for k, v in r.items() if k[0] != "_"}, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    except ImportError: pass
    design()
    print(len(ROWS), "properties,", len(checks), "claimed")
def design():
    d = os.path.join(V, "tools", "design"); ns = {}; exec(open(os.path.join(d, "how.py")).read(), ns)
    class Unit:
        def __init__(self, file, entry, *a, **k): self.file, self.entry = file, entry; self.__dict__.update({"defs": (), "time": 60, **k})
        def __getattr__(self, n): return None
    g = {"__name__": "props_for_design"}; import types; mod = types.ModuleType("props_for_design"); mod.Unit = Unit; sys.modules["props_for_design"] = mod
    exec(open(os.path.join(V, "props.py")).read().replace('sys.modules["__main__"]', 'sys.modules["props_for_design"]'), g)
    out = open(os.path.join(d, "head.md")).read()
    for r in ROWS:
        p = g["PROPS"].get(r["id"])
        out += f"### {r['id']} {r['title']}\n"
        if not p: out += "Not applicable: " + next(n["reason"] for n in NA if n["property"] == r["id"]) + "\n\n"; continue
        out += "Decided by: " + ns["HOW"].get(r["id"], "") + "\n\nBounds (quick): " + p["bounds"] + ".\n\nEntries: " + ", ".join(f"`{u.entry}`" for u in p["units"]) + " in " + ", ".join(f"`harness/{f}`" for f in sorted({u.file for u in p["units"]})) + ". Why tests cannot: " + r["why_tests_cant"] + "\n\n"
    out += open(os.path.join(d, "tail.md")).read() + "\n| bug | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n"
    missed = open(os.path.join(d, "missed.txt")).read().split() if os.path.exists(os.path.join(d, "missed.txt")) else []
    for b in sorted(os.listdir(os.path.join(V, "seeded"))):
        try: m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
        except Exception: continue
        out += f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {'not yet' if b in missed else 'yes'} |\n"
    open(os.path.join(V, "DESIGN.md"), "w").write(out)
main()
