from vplib import *

def run(only=None):
    res = Result("C10", "exploration")
    res.rule = ("number notations (sign x integer part x fraction x exponent), every mixture of cases of the flags, vectors (brackets x separators x every triple of numbers), every subset of the settings of every section, "
                "0-12 numbered sections in several orders, the natural units against CODATA values, the summary file, and whole runs of both front ends in which one setting has another value")
    exe = std_build("C10", "C10.cc", cli=True, python=True, hextra=["-fvisibility=hidden"])
    run_harness(res, exe, "C10", limit=850, only=only and only["key"])
    res.assumptions = ["settings are finite numbers within the range of a double"]
    return res
