from vplib import *

def run(only=None):
    res = Result("C17", "exploration")
    res.rule = ("product of field type, direction (30), distance, polarisation, pulse shape, time and place against closed forms, symmetries and Maxwell's equations; "
                "distinct: field values")
    run_harness(res, std_build("C17", "C17.cc"), "C17", only=only and only["key"])
    res.coverage = dict(field_evaluations=res.transitions)
    return res
