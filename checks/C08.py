from vplib import *

def run(only=None):
    res = Result("C08", "exploration")
    res.rule = ("fields x models x species x pair production x sampling fractions x steps x pairs of outcomes of a uniform draw; for each, every sequence of draws of a run of one or two primaries through QEDCascPy "
                "and QEDCASC, each recorded final state matched with one of the reference simulation (rows of every species as multisets with energy, momentum, position, weight), equal total probabilities, and charge conserved in each")
    exe = std_build("C08", "C08.cc", cli=True, python=True, hextra=["-fvisibility=hidden"])
    run_harness(res, exe, "C08", limit=850, only=only and only["key"])
    res.assumptions = ["every uniform draw takes one of the listed outcomes with equal probability"]
    return res
