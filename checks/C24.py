from vplib import *

def run(only=None):
    res = Result("C24", "model_checking")
    res.rule = ("whole runs of both front ends under the address sanitizer: QEDCASC over fields x models x species x outputs with 0-5 events and 1-4 steps, whose number of objects left behind must depend on neither, and decks with long words and lines; "
                "QEDCascPy over every sequence of one and two (thorough: three) calls of an alphabet of 22, repeated five times, with and without a run, and of managers that are dropped: the number of live objects must settle")
    exe = std_build("C24", "C24.cc", cli=True, python=True, asan=True, hextra=["-fvisibility=hidden"])
    run_harness(res, exe, "C24", limit=850, only=only and only["key"])
    res.assumptions = ["objects are counted in operator new and delete; memory of Python itself and of the HDF5 library is not", "the sequential builds"]
    return res
