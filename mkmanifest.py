#!/usr/bin/env python3
"""Writes MANIFEST.json (committed) from the table below."""
import json
from pathlib import Path

TECH = "value-graph abstract interpretation of monomorphic MIR (gated values, all paths joined), normal-form / random-interpretation equality against a specification graph"
BASE = ("Decides the property from the MIR of /repo's current source, without running it: the real build's MIR of every function reachable "
        "from the public entry point is abstractly interpreted over symbolic array contents, all branches joined into gated values, and "
        "compared with an independently written specification. Loops are unrolled on fixed mesh sizes (8, 11 and, where affordable, 300 cells; the code is size-generic "
        "and the index arithmetic is checked exactly at those sizes). Floating point is compared as real arithmetic (normal form over the reals, "
        "else agreement on random interpretations of the leaves, and on interpretations driven to both outcomes of every comparison in the terms, to 1e-9), so rounding-level changes are not reported. ")
NOTES = {
 "C04": (TECH, "Both systems, every cell, both directions and the round trip; the engine's std/ndarray models are trusted."),
 "C05": (TECH, "Both systems, every cell, flux, sound speed, eigenvalues, max reduction."),
 "C06": (TECH, "Every interior cell and equation of calc_dflux_dxi::<Hll>, including dependence on exactly the two neighbours."),
 "C07": (TECH, "Every interior cell and equation of calc_dflux_dxi::<Kt> with the limiter as selected, face states and interface flux."),
 "C08": (TECH, "Every limiter mode, incl. sign cases and configured parameter; slope in every cell."),
 "C09": (TECH, "The volume-weighted sum of the right-hand side over the interior, as a value graph, has no inner interface flux left."),
 "C10": (TECH, "TimeSolver::next_solution with an uninterpreted flux scheme, for every tableau, with and without step control (attempt loop bounded)."),
 "C11": (TECH + "; exact evaluation of the rooted-tree order conditions on the tableau constants found in the MIR", "All selectable tableaux; order conditions to the published precision."),
 "C12": (TECH, "Time-step limit, caps and error exits, both systems."),
 "C14": (TECH, "Every boundary mode on every equation and side; frame condition on all other array elements."),
 "C15": (TECH, "Initialisation, every flux evaluation and CFL computation and the end of every step; all derived arrays from arbitrary previous contents."),
 "C16": (TECH, "Mesh::new for three sizes and every geometry field; no entry point changes a mesh value; rounding error of the positions against exact rational arithmetic on the same operation tree."),
 "C26": (TECH, "Error estimate, controller factors, caps and error exit of the step-control loop (attempts bounded at 3, the loop body is the same code for every attempt), for the first step and for one after another step, incl. vanishing errors."),
 "C01": (TECH, "init_corries over a symbolic configuration: every field constraint as a boolean term of the configuration fields; no effect precedes the gate."),
 "C02": (TECH + "; effect enumeration over the call graph", "Every destructive file-system operation reachable from the public entry points, its path value and its guard."),
 "C03": (TECH + "; error-flow: every failing environment operation or Err-returning function must make the caller fail", "Every fault point reached by init, a run loop and the writers; plus a census of discarded Results in the MIR of every crate function."),
 "C13": (TECH, "One iteration of the run loop as a transition relation over symbolic state; construction of the writers."),
 "C17": (TECH + "; symbolic text of the rows", "Every data name, every output type, header and row; both mesh sizes."),
 "C18": (TECH + "; ordered effect log of the writers", "Folder handling, file names, open modes, write sequences and metadata, for every output type and mode."),
 "C19": (TECH + "; effect / capture analysis of every parallel closure", "Every rayon use reachable in the crate: captured places, written places, order-sensitive reductions, plus a census of entry points and interior mutability."),
 "C20": (TECH, "Conditions under which next_solution (built with the validation feature) returns Ok, for both systems and all steppers."),
 "C21": (TECH, "next_solution, init and the output writers with and without the feature have identical values and effects on accepted inputs."),
 "C22": ("compiler-decided auto-trait obligations: unsafe impl Send/Sync enumerated in HIR, their fields' auto traits queried in the type checker with the impls' own where clauses", "Every unsafe impl Send/Sync in the crate, every field and every trait bound."),
 "C23": (TECH, "Every unit constructor, conversion and constant of the units module."),
 "C24": (TECH, "init_noh and init_sod on two mesh sizes, both systems, every cell."),
 "C25": (TECH + "; lock and write events of the stdout path", "Every output block written by an Output, stdout and file: number and order of writes under one lock."),
 "C33": (TECH, "Every copy, clone, side-selected update and accessor of State and Variables; all cells, both systems, S = 8, 11, 300."),
    "C32": (TECH + "; abstract run of the Serialize implementations on a recording serializer", "Every field and variant of every configuration type reachable from CorriesConfig; metadata written by init_corries."),
 "C27": (TECH, "Every combination of the run-time configuration enums with the compile-time scheme types; defaults; side assignment of boundary modes."),
}
NA = {
 "C28": "Convergence to the exact PDE solution is an asymptotic statement about the discretisation's numerics, not about the shape of the code; the code-level necessary conditions (scheme formulas, orders, conservation) are claimed as C05-C11.",
 "C29": "Positivity preservation is false in general for MUSCL-type reconstruction with these limiters and not decidable from the code; what the code does guarantee (a step that loses positivity is rejected) is C20.",
 "C30": "Termination depends on unbounded runtime quantities (the sequence of time-step widths); its decidable parts (iter_max bound, dt_min bail-outs, end condition) are in C12, C13, C26.",
 "C31": "Panic freedom quantifies over runtime array sizes, file-system state and user closures; no sound static argument in reach bounds them without alarms on correct code.",
}
import sys
sys.path.insert(0, str(Path(__file__).resolve().parent))
ids = [json.loads(l)["id"] for l in open(Path(__file__).resolve().parent / "properties.jsonl")]
checks = [{"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
           "evidence_file": "evidence/%s.json" % i, "technique": NOTES[i][0], "level": "other",
           "level_note": (BASE if NOTES[i][0].startswith(TECH) else "") + NOTES[i][1]} for i in ids if i in NOTES]
na = [{"property": i, "reason": NA.get(i, "Check not finished yet.")} for i in ids if i not in NOTES]
m = {"version": 1, "setup_cmd": "python3 build.py validation plain", "checks": checks, "not_applicable": na}
(Path(__file__).resolve().parent / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
