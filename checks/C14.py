from vplib import *
import theory

def run(only=None):
    res = Result("C14", "model_checking")
    res.rule = ("state grid x every sequence of draws over the alphabet, one to several interactions; the probability of every outcome is compared with an independent "
                "model; every node of the rate and energy tables is compared with theory")
    if not only or only["harness"] == "C14":
        run_harness(res, std_build("C14", "C14.cc"), "C14", only=only and only["key"])
    theory.photon(res, only)
    res.assumptions = ["the emitter's quantum parameter stays within the tables (eta < 8.6)"]
    return res
