from vplib import *

def run(only=None):
    res = Result("C11", "exploration")
    res.rule = ("every single defect of the catalogue in four notations, pairs of defects, pairs of a defect and a valid setting and pairs of valid settings on decks of four fields; every command line of up to four characters over an alphabet, "
                "0-3 arguments, file names, odd files, decks cut off after every byte, each missing table and unusable output names; quick takes every fourth pair of defects and every second pair of valid settings on each deck")
    exe = std_build("C11", "C11.cc", cli=True)
    run_harness(res, exe, "C11", limit=850, only=only and only["key"])
    res.assumptions = ["names of histograms differ and steps resolve the motion", "the sequential build of the program"]
    return res
