from vplib import *

def run(only=None):
    res = Result("C01", "model_checking")
    res.rule = ("the Python module, compiled with OpenMP and thread instrumentation, is driven through an embedded interpreter under a controlled scheduler: for every number of threads and events (none, fewer than threads, more), "
                "models, species, fields and sequences of runs on one manager, every schedule at the level of synchronisation operations up to the given number of preemptions, and without a limit for small runs; a happens-before check "
                "of every memory access reports unsynchronised access; the rows of each schedule must be, as multisets and bit by bit, those of a run with one thread, which is itself compared with the reference simulation")
    exe = omp_build("C01", "C01.cc", python=True, hextra=["-fvisibility=hidden"])
    run_harness(res, exe, "C01", only=only and only["key"], case_limit=10**6)
    res.assumptions = ["between synchronisation operations threads are not switched: without unsynchronised accesses (which are checked in every schedule) this loses no behaviour", "normal draws vary in the sequential part; all uniform draws of a run have the same outcome",
                       "accesses inside libraries (Python, HDF5) are not seen; the threads of a run call none of them"]
    return res
