from vplib import *

def run(only=None):
    res = Result("C23", "model_checking")
    res.rule = ("every sequence of particle updates up to the depth, from every constructor and species, executed on the real particle and on a model and compared in "
                "every getter after the last update; every fill history of lists of every small capacity; every u of a fine grid for the optical depth")
    exe = std_build("C23", "C23.cc", parts=("Particles", "Tools"), asan=True)
    run_harness(res, exe, "C23", only=only and only["key"])
    return res
