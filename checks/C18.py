from vplib import *

def run(only=None):
    res = Result("C18", "model_checking")
    res.rule = ("source settings (species, energy law, 28 directions, spreads) x every sequence of draws over the alphabets, with the probability of every outcome compared "
                "with a model; every number of requests on sources of 0-5 particles")
    run_harness(res, std_build("C18", "C18.cc"), "C18", only=only and only["key"])
    return res
