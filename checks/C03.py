from vplib import *

def run(only=None):
    res = Result("C03", "model_checking")
    res.rule = ("the real code runs on 1 to 4 (thorough 5) ranks under an MPI controller that explores, with state caching, every matching order of messages, every choice of which sends are buffered and every point "
                "at which a rank may leave a collective; for every distribution of contents over the ranks, every sequence of output operations up to the depth, and runs of the whole program; after every "
                "complete schedule the file is read back and compared with the union of what the ranks stored; dead-locks, truncation, mismatched collectives, messages or requests left behind and ranks that fail are errors")
    mpi = ["-DUSEMPI", "-I" + os.path.join(LIB, "mpisim")]
    om = only is None or only["harness"] == "om"
    if only is None or only["harness"] == "om":
        exe = std_build("C03om", "C03.cc", parts=("Particles", "Tools", "IO/Output"), asan=True, extra=mpi, hextra=mpi + ["-I" + d for d in HDF5_INC])
        run_harness(res, exe, "om", only=only and only["key"], case_limit=10**6, share=0.5)
    if only is None or only["harness"] == "cli":
        exe = std_build("C03cli", "C03.cc", cli=True, extra=mpi, hextra=mpi + ["-DVP_CLI"] + ["-I" + d for d in HDF5_INC])
        run_harness(res, exe, "cli", only=only and only["key"], case_limit=10**6, share=0.5)
    res.assumptions = ["MPI calls outside the set the controller implements do not compile (the check then gives no answer)", "MPI_Send may complete before or after its receive, messages between two ranks do not overtake each other"]
    return res
