from vplib import *

def run(only=None):
    res = Result("C05", "model_checking")
    res.rule = ("every sequence of output operations up to the depth (sources with and without tracks, empty sources, single particles, lists, field maps, histograms), with and "
                "without units, and every content and storing order of up to three events of one source; the closed file is read back and compared with the model's file")
    exe = std_build("C05", "C05.cc", parts=("Particles", "Tools", "IO/Output"), asan=True, hextra=["-I" + d for d in HDF5_INC])
    run_harness(res, exe, "C05", only=only and only["key"])
    res.assumptions = ["names given to single particles, lists, sets and histograms are distinct; at most one field map per file"]
    return res
