from vplib import *

def run(only=None):
    res = Result("C21", "model_checking")
    res.rule = ("every sequence of calls over an alphabet of valid, invalid and wrongly typed calls to depth 3 after a run and depth 2 from eight other histories (thorough: longer alphabet, depth 3 everywhere, depth 4 with the last two calls from eleven), every pair of calls on two managers, every mixture of good and bad field sizes, and steps of lengths from 1e-9 to 1e7; "
                "after each call the arrays of every manager are compared with the model and a final run shows the settings")
    exe = std_build("C21", "C21.cc", python=True, hextra=["-fvisibility=hidden"])
    passes = 8 if TIER == "thorough" else 1   # the module keeps its tables for good, so a process is ended now and then
    for p in range(passes):
        run_harness(res, exe, "C21", limit=850, args=[str(p), str(passes)], only=only and only["key"])
        if res.violations: break
    res.assumptions = ["one thread per run (several threads: C01)", "draws of a kind have the same outcome throughout a run"]
    return res
