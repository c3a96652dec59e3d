#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "TLC-generated call histories replayed into the library, recordings validated against Micropp.tla (uninterpreted material, SymTrace)",
 "C02": "TLC-generated interleavings and their projections replayed, recordings validated against Micropp.tla (SymTrace)",
 "C03": "TLC-generated histories with and without observers replayed, validated against Micropp.tla (SymTrace)",
 "C04": "TLC-generated strain paths replayed, validated against the exact integer J2 law (J2Trace)",
 "C05": "J2Trace histories plus recorded fields with yield limits between integration points, validated by FieldTrace",
 "C06": "J2Trace histories with thresholds plus threshold recordings validated by MacroTrace",
 "C07": "J2Trace algorithmic tangents plus recorded difference quotients validated by MacroTrace",
 "C08": "recorded displacement and stress fields validated against the integer finite-element specification Fem.tla (FieldTrace)",
 "C09": "recorded fields and averages validated by FieldTrace",
 "C10": "recorded element types and responses validated by FieldTrace",
 "C11": "TLC-generated assembly histories replayed, products validated against the element-sum machine Ell.tla (EllTrace)",
 "C12": "TLC-generated assembly histories with boundary conditions replayed, validated against Ell.tla (EllTrace)",
 "C13": "recorded solves validated against the iteration protocol Solver.tla on systems of Ell.tla (EllTrace)",
 "C14": "recorded information files and solve counts validated against the Newton protocol Newton.tla (NewtonTrace)",
 "C15": "recorded snapshots validated by FieldTrace along TLC-generated histories",
 "C16": "TLC-generated histories with writes replayed, file contents validated against Files.tla (FilesTrace)",
 "C17": "TLC-generated histories run through class and C interface, all observations compared by MemoTrace",
 "C18": "TLC-generated histories run under different memory contents and interleavings, compared by MemoTrace",
 "C19": "TLC-generated histories with block accounting validated against Heap.tla (HeapTrace), under address and undefined-behaviour sanitizers",
 "C20": "recorded runs of relabelled cells validated against the symmetry group of the cell (SymmTrace)",
 "C21": "recorded committed states and fields validated by FieldTrace, exact paths by J2Trace",
 "C22": "recorded answers of cells, trials and committed paths validated against the energy statements of Energy.tla (EnergyTrace); statements model-checked in EnergyMC",
 "C23": "TLC-generated histories replayed in several systems of units, recordings validated against Micropp.tla (SymTrace); unit invariance of the specification model-checked in ScaleMC",
}
NOTE = ("Bounded: the models are explored exhaustively by TLC at small scope and the library is judged on the recorded executions "
        "(evidence lists how many). Trusts TLC, the driver's faithful printing, and the stated numeric tolerances, which cover the "
        "library's own solver tolerances and file precision.")
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd="python3 check.py %s --quick" % p,
                           thorough_cmd="python3 check.py %s --thorough" % p,
                           technique=T[p], level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=p, reason="check still being built"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks: everything is observed through the public interface; the commits in /repo are fixes only.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
