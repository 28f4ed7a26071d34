"""What decides each property: exhaustive models, random histories, and case enumerations."""
from profiles import P

# Exhaustive models (spec/MC_<name>.cfg) whose behaviours are also executed by the real code.
MC = {
    "P01": ["struct", "ready"], "P02": ["struct"], "P03": ["struct"],
    "P04": ["ready"], "P05": ["frames"], "P06": ["modes"], "P07": ["term"],
    "P08": ["remove", "frames"], "P09": ["ptr", "keep"], "P10": ["paths"], "P11": ["sing"], "P12": ["sig", "sigfree"],
    "P13": ["log"], "P14": ["log"], "P15": ["scene"], "P16": ["scene", "shape"], "P17": ["fields"],
    "P20": ["unw"], "P22": ["cast"], "P24": ["bulk"], "P25": ["sig"], "P26": ["stray"], "P27": ["drop"],
}
# Random histories: profile and its share.
RANDOM = {k: [(k, 3), ("CORE", 1)] for k in P if k[0] == "P" and not k.endswith("deep") and k != "P28t"}
RANDOM["P28"] = [("P28", 5), ("P28t", 3)]
RANDOM["P14"] = [("P14", 2), ("P14deep", 1)]
# Few, but large trees.
for k in ("P01", "P02", "P03", "P04", "P05", "P08", "P10", "P15", "P16", "P24"):
    RANDOM[k].append(("BIG", 1))
# Fewer yet, with scenes of some three hundred nodes: chains, fans, and others.
for k in ("P01", "P02", "P03", "P04", "P05", "P08", "P10", "P14", "P15", "P16", "P24"):
    RANDOM[k].append(("HUGE", 1))
# Few, but long histories.
for k in ("P05", "P06", "P07", "P08", "P09", "P11", "P12", "P13", "P14", "P26", "P27"):
    RANDOM[k].append(("LONG", 1))
# Many listeners, singletons and pointers at a time.
for k in ("P08", "P09", "P11", "P12", "P24"):
    RANDOM[k].append(("MANY", 1))
# Hooks which act, whose effects' hooks act in turn.
for k in ("P04", "P05", "P08", "P12", "P14", "P27"):
    RANDOM[k].append(("NEST", 1))
# Objects outside of trees: exhaustive models (spec/OC_<name>.cfg) and their kinds, which random runs are made of too.
OBJECTS = {"P02": [("oname", "name")], "P10": [("opath", "path")], "P12": [("osig", "sig")], "P13": [("olog", "log")],
           "P17": [("field", "field"), ("arith", "field")], "P18": [("codec", "codec")], "P19": [("rid", "rid")], "P20": [("opt", "opt")],
           "P21": [("doc", "doc")], "P23": [("glam", "glam")]}
# Behaviours of two trees (spec/MT_<name>.cfg).
TWINS = {"P28": ["twins", "twinsig"]}
# Programs of declarations, scene expressions and connections (spec/MM_<kind>.cfg).
MACROS = {"P25": ["mclass", "mscene", "mconn"], "P22": ["mclass"]}
NOTE = ("The TLA+ specification is explored exhaustively by TLC within the bounds of spec/MC_*.cfg; every explored behaviour (or a seeded sample) "
        "is executed by the real code, and the complete visible state after each step of these and of random histories is validated by TLC against "
        "the specification. Assumes single-threaded use within the environment given in DESIGN.md; trusts TLC and the recording harness.")
