from vplib import *
import theory

def run(only=None):
    res = Result("C15", "exploration")
    res.rule = ("state grid x every sequence of draws over the alphabet (finer alphabets for the spectrum), one to several interactions; the probability of every outcome is "
                "compared with an independent model; every node of the rate and energy tables is compared with theory; distinct: (number of outcomes, last outcome)")
    if not only or only["harness"] == "C15":
        run_harness(res, std_build("C15", "C15.cc"), "C15", only=only and only["key"])
    theory.photon(res, only)
    res.assumptions = ["the emitter's quantum parameter stays within the tables (eta < 8.6)"]
    return res
