#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {  # id: (technique, level, note)
 "C01": ("stateless model checking of the real run manager: preemption-bounded exhaustive thread schedules under an own OpenMP runtime, with happens-before race detection", "model_checking",
         "Every schedule within the preemption bound of small runs of the real code at the granularity of synchronisation and conflicting memory accesses; the thread runtime is modelled, hardware memory-model effects are excluded by race freedom."),
 "C02": ("stateless model checking of the real command-line program: preemption-bounded exhaustive thread schedules under an own OpenMP runtime, with happens-before race detection", "model_checking",
         "As C01 for the OpenMP build of the command-line program, comparing whole output files."),
 "C03": ("stateless model checking of the real MPI code: exhaustive message matchings and send-buffering modes under a controlled MPI runtime", "model_checking",
         "All wildcard matchings and both send modes for 1-4 ranks and small contributions; the MPI library is a stand-in with the semantics of the standard."),
 "C04": ("exhaustive operation sequences and thread interleavings on the real engine; exhaustive grids of controlled draws", "model_checking",
         "Operation sequences and interleavings to the depth stated in the evidence; the standard library's distributions are trusted."),
 "C05": ("exhaustive operation sequences of the real output manager against a model file", "model_checking", "All sequences of output operations to the stated depth; trusts the HDF5 library for reading back."),
 "C06": ("exhaustive operation sequences on real histograms against a model", "model_checking", "All operation sequences to the stated depth over value grids; values exactly on bin boundaries are left open."),
 "C07": ("exhaustive enumeration of run configurations, whole runs compared with a reference simulator", "exploration", "All runs of the stated product of configurations; the reference simulator is trusted."),
 "C08": ("exhaustive enumeration of run configurations and draw outcomes, whole runs compared with a reference simulator", "exploration", "All runs of the stated product; the reference simulator is trusted."),
 "C09": ("explicit-state exploration of a reference reader over all small input files, every transition replayed on the real reader", "model_checking", "Every file over the stated line alphabet up to the stated length."),
 "C10": ("exhaustive enumeration of settings, spellings and units against a reference table", "exploration", "Every documented setting in every spelling of the alphabet."),
 "C11": ("exhaustive enumeration of defective decks and command lines on the real program", "exploration", "Every single defect and every pair of the stated catalogue on every base deck."),
 "C12": ("exhaustive enumeration of configurations, both real front ends against a reference simulator", "exploration", "All configurations of the stated product; the reference simulator is trusted."),
 "C13": ("exhaustive grids of states, fields and steps on the real pushers against a reference integrator", "exploration", "Every point of the stated product grid; no claim between grid points beyond convergence order."),
 "C14": ("exhaustive enumeration of draws and states of the real process against a reference model", "model_checking", "Every multi-step history over the stated draw alphabet and state grid."),
 "C15": ("exhaustive enumeration of draws and states of the real process against a reference model", "exploration", "Every point of the state grid crossed with fine draw grids."),
 "C16": ("exhaustive enumeration of draws and states of the real process against a reference model", "model_checking", "Every multi-step history over the stated draw alphabet and state grid."),
 "C17": ("exhaustive grids of field parameters, directions and events on the real fields against closed forms and Maxwell residuals", "exploration", "Every point of the stated product grid."),
 "C18": ("exhaustive enumeration of sources, draw sequences and batchings of the real generator against a model", "model_checking", "All source settings of the product and draw alphabets, all batch orders."),
 "C19": ("exhaustive enumeration of small tables and queries on the real look-up code", "exploration", "Every table over the stated alphabets and queries at, beside and between the nodes."),
 "C20": ("exhaustive enumeration of vectors and matrices over a value alphabet on the real algebra", "exploration", "Every operand tuple over the alphabet, including parallel, opposite and null vectors."),
 "C21": ("exhaustive call sequences of the real Python module against a model", "model_checking", "All call sequences to the stated depth over the stated alphabet, one thread."),
 "C22": ("exhaustive injection of a fault at every output system call of real runs", "fault_enumeration", "Every write/flush/close/truncate call of each run, each with each error, once and persistently."),
 "C23": ("exhaustive operation sequences on real particles and lists against a model", "model_checking", "All operation sequences to the stated depth."),
 "C24": ("exhaustive call sequences and configurations of both real front ends under the address sanitizer, with live objects counted", "model_checking", "All call sequences to the stated depth and all configurations of the product; memory of the Python and HDF5 libraries is not counted."),
}
WHY = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        t, l, n = T[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i, technique=t, level=l, level_note=n))
    else:
        na.append(dict(property=i, reason=WHY.get(i, "the check is not built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="Every check builds what it needs from /repo's working tree; VP_REPO can point it at another tree. No hooks were added to /repo, only fix: commits (see known_findings.txt).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "unclaimed")
