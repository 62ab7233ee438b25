from vplib import *

def run(only=None):
    res = Result("C22", "fault_enumeration")
    res.rule = ("runs with nothing, sources, histograms, tracks, several sources and tables larger than the buffers of the library; for each of them a fault at every single open, write, truncate, sync and close call of the output file "
                "(no space or i/o error, once or from there on, short writes), and a disk that fills up after every number of bytes in small steps")
    exe = std_build("C22", "C22.cc", cli=True)
    run_harness(res, exe, "C22", limit=850, only=only and only["key"])
    res.assumptions = ["faults of the system calls themselves; a kernel that loses data it accepted is beyond the program"]
    return res
