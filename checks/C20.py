from vplib import *

def run(only=None):
    res = Result("C20", "exploration")
    res.rule = ("all vectors with components of the alphabet, all their pairs (plus nearly parallel, nearly opposite and rescaled partners), all triples and all "
                "matrices over smaller alphabets, each against a direct long-double evaluation; distinct: operand tuples")
    exe = std_build("C20", "C20.cc", parts=("Tools",), rng=False, asan=False)
    run_harness(res, exe, "C20", only=only and only["key"])
    res.evals = sum(v for k, v in res.counters.items())
    return res
