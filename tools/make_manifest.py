"""Writes MANIFEST.json from the property modules (their docstrings and rules)."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

T = {
    "C01": "property-based: model-based (reference evolution), random programs as rules",
    "C02": "property-based: contexts against a multigraph model",
    "C03": "property-based: reference model of lengths and inputs",
    "C04": "property-based: reference model of perturbations",
    "C05": "property-based: invariant over the history, against a reference evolution",
    "C06": "property-based: differential (memoized / not) and call counts",
    "C07": "property-based: differential over storage options and a reference evolution",
    "C08": "property-based: snapshots over the history; repetition and splitting as metamorphic relations",
    "C09": "property-based: model-based histories of additions and removals",
    "C10": "property-based: stateful model-based histories of operations",
    "C11": "property-based: round trips and divergence histories",
    "C12": "property-based: round trips and a multigraph model",
    "C13": "property-based: metamorphic (renaming, insertion order, disjoint union)",
    "C14": "property-based and enumeration of small sizes: ring model",
    "C15": "property-based and enumeration of small sizes: torus model",
    "C16": "property-based: definitions of the graphs as models",
    "C17": "property-based and enumeration of small rules: truth-table model",
    "C18": "property-based: digit model of totalistic rules",
    "C19": "property-based: direct grid models; statistics of ties",
    "C20": "property-based: invariant over the history of updates",
    "C21": "property-based: round trip in time, and a reference evolution",
    "C22": "property-based: direct grid model and a rotation relation",
    "C23": "property-based: independent transition table on random placements",
    "C24": "property-based: direct toppling model; conservation; abelian property",
    "C25": "property-based: constraints and distribution of the tables",
    "C26": "property-based: invariants over histories of walks",
    "C27": "property-based: differential against a directly simulated machine",
    "C28": "property-based: differential against direct rewriting",
    "C29": "property-based: relational oracle (search for a set of matches that explains each step)",
    "C30": "property-based: invariants over the history; statistics of growth",
    "C31": "property-based: definition of the weights; energy invariant",
    "C32": "property-based: direct integration of the equations",
    "C33": "property-based: definitions of the measures, bounds and symmetry",
    "C34": "property-based: definitions of the helpers",
    "C35": "property-based: model-based turtle geometry",
    "C36": "property-based: the drawn artists against the data",
    "C37": "property-based: the drawn or written graph against the network",
}


def const(tree, name, default=None):
    for n in tree.body:
        if isinstance(n, ast.Assign) and any(getattr(t, "id", None) == name for t in n.targets):
            try:
                return ast.literal_eval(n.value)
            except ValueError:
                return default
    return default


checks = []
rows = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
for r in rows:
    pid = r["id"]
    src = open(os.path.join(HERE, "pbt", "props", pid.lower() + ".py")).read()
    tree = ast.parse(src)
    assumes = const(tree, "ASSUMES", [])
    tech = T.get(pid)
    checks.append({
        "property": pid,
        "quick_cmd": "python3 run.py %s" % pid,
        "thorough_cmd": "python3 run.py %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": tech,
        "level": "exploration",
        "level_note": "Generated-input search on the real code against an independent oracle; nothing is proved about "
                      "inputs that were not generated. " + " ".join(" ".join(a.split()) for a in assumes),
    })
    assert tech, pid
m = {"version": 1, "setup_cmd": "test -x /opt/venv/bin/python", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the checks only use the public API of the working tree in /repo. VERIF_SEED seeds every random choice."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
