from vplib import *

def run(only=None):
    res = Result("C06", "model_checking")
    res.rule = ("every sequence of add/fill/merge operations up to the depth is executed on the real histogram and on a counting model and compared after every "
                "operation; in addition every property x spelling x bin layout x value of a grid that covers every bin at several offsets and the outside")
    exe = std_build("C06", "C06.cc", parts=("Particles", "Tools"), asan=True, files=[f for f in sources("IO") if f.endswith("Histogram.cpp")] or sources("IO/Output"))
    run_harness(res, exe, "C06", only=only and only["key"])
    res.assumptions = ["values exactly on the first or last centre or exactly midway between two centres are not tested", "histograms have at least two bins"]
    return res
