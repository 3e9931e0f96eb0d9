"""Regenerates MANIFEST.json: every mc/cXX.py becomes a claimed check."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "explicit-state exploration of every solver's reduce/refine over exhaustively enumerated datasets",
    "C02": "explicit-state exploration of unique selection, all datasets/starts/sizes in bounds",
    "C03": "explicit-state greedy transition-relation checking on exhaustively enumerated datasets",
    "C04": "explicit-state greedy transition-relation checking on exhaustively enumerated datasets",
    "C05": "exhaustive exploration of zero-weight padding patterns (differential, all placements)",
    "C06": "explicit-state exploration of the complete refinement graph (all starts, all edges)",
    "C07": "exhaustive enumeration of key blocks; every pivot prefix is a state checked against the exact law",
    "C08": "exhaustive enumeration of key blocks; reachable outcomes and their law",
    "C09": "explicit-state greedy transition-relation checking on exhaustively enumerated datasets",
    "C10": "probabilistic transition system of halving decisions explored over enumerated keys and sizes",
    "C11": "exhaustive exploration of (size, leaf, coreset) triples of the map-reduce loop with decomposable selection",
    "C12": "exhaustive exploration of datasets x weight patterns x modes x tree factors",
    "C13": "exhaustive exploration of block schedules x weights x shapes against the full matrix",
    "C14": "exhaustive exploration of kernel expression trees up to a depth on point lattices",
    "C15": "exhaustive exploration of dataset pairs and weightings against definitions",
    "C16": "exhaustive exploration of datasets/coresets; optimality by complete active-set enumeration",
    "C17": "explicit-state search over operation sequences against a list-based reference model",
    "C18": "exhaustive exploration of matrix lattices x padding patterns x regularisation",
    "C19": "exhaustive exploration of datasets x budgets x keys",
    "C20": "exhaustive exploration of datasets/points against the analytic score; conversion state machine",
    "C21": "exhaustive exploration of call histories (operation sequences) on real objects",
    "C23": "explicit-state exploration of training runs; every optimiser step against a model",
    "C24": "exhaustive exploration of helper inputs against list-based models",
    "C25": "exhaustive product exploration of argument alphabets at the edges of their domains",
}
NOTE = ("Runs the real code of /repo's working tree on every behaviour of the stated finite "
        "space and compares each with an independent float64 specification. Bounded: says "
        "nothing about values outside the stated alphabets; trusts JAX/XLA arithmetic up to "
        "the stated float32 tolerances. Bounds and assumptions are in the evidence file and "
        "DESIGN.md.")
NA = {
    "C22": "Approximation quality of a stochastically trained network: a statistical claim "
           "over a continuous, unbounded training process with no exact finite-state oracle; "
           "exhaustive enumeration cannot decide it.",
}
props = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, "mc", p.lower() + ".py")):
        checks.append({
            "property": p, "quick_cmd": f"bash run.sh {p} quick",
            "thorough_cmd": f"bash run.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json", "technique": "model checking: " + TECH[p],
            "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": p, "reason": NA.get(p, "Check not built yet.")})
out = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
       "notes": "No hooks: the checks import /repo's working tree directly."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(out, fh, indent=1)
    fh.write("\n")
