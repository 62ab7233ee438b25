from vplib import *

def run(only=None):
    res = Result("C04", "model_checking")
    res.rule = ("all sequences of seeding and drawing operations up to the depth on the real engine, all interleavings of two threads' operations, and the law of every "
                "draw from a fine grid of the underlying uniform or normal number")
    if not only or only["harness"] == "laws":
        run_harness(res, std_build("C04", "C04.cc", parts=("Tools",), asan=True), "laws", only=only and only["key"])
    if not only or only["harness"] == "seeds":
        run_harness(res, std_build("C04_seed", "C04_seed.cc", parts=("Tools",), rng=False), "seeds", only=only and only["key"])
    res.assumptions = ["the laws of the standard library's own uniform and normal distributions are trusted"]
    return res
