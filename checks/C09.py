from vplib import *

def run(only=None):
    res = Result("C09", "model_checking")
    res.rule = ("every file of up to 4 (thorough 5) lines over 20 line shapes and every line of up to 5 (thorough 6) characters over 9 characters, read by INIReader and by a reference reader "
                "whose states are (section, last setting, values, first error); complete decks in every letter case, line style and section order through FileParser; "
                "malformed lines at every position")
    exe = std_build("C09", "C09.cc", parts=("Tools", "IO/Input"), asan=True)
    run_harness(res, exe, "C09", only=only and only["key"])
    res.assumptions = ["settings of at most 197 characters (longer ones are reported as malformed); no setting given twice"]
    return res
