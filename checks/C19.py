from vplib import *

def run(only=None):
    res = Result("C19", "exploration")
    res.rule = ("every increasing axis that is a subset of the value grids, every assignment of table values from the value alphabet, queries at, "
                "just beside, between, midway and beyond the nodes; distinct: (axis, data) tables and (axis, search result) pairs")
    exe = std_build("C19", "C19.cc", parts=("Tools",), rng=False, asan=True)
    run_harness(res, exe, "C19", only=only and only["key"])
    res.evals = sum(v for k, v in res.counters.items())
    return res
