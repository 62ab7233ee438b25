from vplib import *
import theory

def run(only=None):
    res = Result("C16", "model_checking")
    res.rule = ("state grid x every sequence of draws over the alphabet, one to several interactions; the probability of every outcome is compared with an independent "
                "model, energy and charge of every single pair are checked; every node of the rate and splitting tables is compared with theory")
    if not only or only["harness"] == "C16":
        run_harness(res, std_build("C16", "C16.cc"), "C16", only=only and only["key"])
    theory.pair(res, only)
    res.assumptions = ["the photon's quantum parameter stays within the tables (chi < 780)"]
    return res
