from vplib import *

def run(only=None):
    res = Result("C12", "exploration")
    res.rule = ("field types x radiation models x pair production x species x energy laws x sampling fractions x minimum energies x outcomes of the draws (the same for every draw of a run), "
                "and 36 changes of geometry, times, beam and physics in pairs, and two to four sources that differ in one or two of 13 parameters, up to 4099 (thorough, and Python arrays: 67000) events, 1100 (5000) steps, 70 sources and 70 histograms, each run through QEDCASC and QEDCascPy and compared particle by particle with the reference simulation; "
                "runs with different primaries start the reference from the recorded primaries")
    exe = std_build("C12", "C12.cc", cli=True, python=True, hextra=["-fvisibility=hidden"])
    run_harness(res, exe, "C12", limit=850, only=only and only["key"])
    res.assumptions = ["draws of one run take the same outcome wherever they are made, so that the order of draws is left open; all normal draws vary in the runs with different primaries"]
    return res
