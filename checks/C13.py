from vplib import *

def run(only=None):
    res = Result("C13", "exploration")
    res.rule = ("the full product of pusher, field, amplitude, particle, momentum, direction, step and tracking, several steps each, against an independent integrator; "
                "distinct: final states and parameter points")
    run_harness(res, std_build("C13", "C13.cc", asan=True), "C13", only=only and only["key"])
    res.coverage = dict(steps=res.transitions)
    return res
