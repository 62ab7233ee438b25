from vplib import *

def run(only=None):
    res = Result("C07", "exploration")
    res.rule = ("fields x models x steps x end times just below, at and above the step boundaries with tracking of all species, every ordered triple of 7 (thorough 11) histogram times, "
                "and numbers of histograms, sources and events with tracking and output on and off; each run of QEDCASC compared with the reference simulation (final states, tracks entry by entry, histogram counts); the runs over steps and end times in the two pulsed fields also through QEDCascPy (input, final states)")
    exe = std_build("C07", "C07.cc", cli=True, python=True, hextra=["-fvisibility=hidden"])
    run_harness(res, exe, "C07", limit=850, only=only and only["key"])
    res.assumptions = ["draws of one run take the same outcome wherever they are made", "histogram and end times at a relative distance of 1e-6 (thorough 1e-9) from step boundaries, not exactly on them, because the rounding of the unit conversion is not specified"]
    return res
