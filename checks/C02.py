from vplib import *

def run(only=None):
    res = Result("C02", "model_checking")
    res.rule = ("the program compiled with OpenMP and thread instrumentation runs under a controlled scheduler: for every number of threads and events, histograms and tracking on or off, one or two sources, every "
                "schedule at the level of synchronisation operations (atomic operations, critical sections, loop and region boundaries) up to the given number of preemptions, and without a limit for small runs; "
                "a happens-before check of every memory access in each schedule reports unsynchronised access; the file of each schedule must hold the same events, tracks and histograms as a run with one thread, which is itself compared with the reference simulation")
    exe = omp_build("C02", "C02.cc", cli=True, hextra=["-I" + d for d in HDF5_INC])
    run_harness(res, exe, "C02", only=only and only["key"], case_limit=10**6)
    res.assumptions = ["between synchronisation operations threads are not switched: without unsynchronised accesses (which are checked in every schedule) this loses no behaviour", "normal draws vary in the sequential part; all uniform draws of a run have the same outcome",
                       "inside libraries (HDF5, iostreams) accesses are not seen; no library call is made by two threads in the event loop except stream output"]
    return res
