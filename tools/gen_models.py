#!/usr/bin/env python3
"""Writes spec/MC_<model>[_deep].cfg and spec/OC_<model>[_deep].cfg: the bounds of the exhaustive explorations of MCNodeTree and MCObjects."""
import os
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
BASE = dict(OPS=[], MAXOPS=3, MAXLIVE=5, MAXUID=7, NAMES=["A"], TREES=["pair"], SCENES=[], MODESET=[], MAXNEST=2, VERBS=["All"],
            LEVELS=[], HOWS=[], USES=[], PATHS=[], FIELDS=[], SINGS=["S", "T"])
M = {
    "struct": (dict(OPS=["addn", "add", "free", "rmc", "name"], MAXLIVE=6, MAXUID=7, NAMES=["A", "B"], SCENES=["Lpair"], MAXNEST=1),
               dict(MAXOPS=4, MAXUID=8, TREES=["pair", "chain"], NAMES=["A", "A1"], SCENES=["pair", "Lpair"], MAXNEST=2)),
    "ready": (dict(OPS=["addn", "add", "free"], TREES=["fork", "Lfork", "one"], SCENES=["chain", "Lpair", "twins"], MAXLIVE=7, MAXUID=10, MAXOPS=2, MAXNEST=3),
              dict(MAXOPS=3, SCENES=["chain", "Lpair", "twins"])),
    "frames": (dict(OPS=["process", "free", "queue", "addn"], TREES=["fork", "deep"], MAXOPS=3, MAXUID=6),
               dict(OPS=["process", "free", "rmc", "queue", "terminate", "addn", "pause", "unpause"], MAXOPS=5, MAXUID=7)),
    "modes": (dict(OPS=["process", "mode", "pause", "unpause"], TREES=["chain", "twins"], MODESET=["Always", "Pausable", "Inverse", "Inherit"], MAXOPS=5),
              dict(MAXOPS=7, TREES=["chain", "twins", "fork"])),
    "term": (dict(OPS=["process", "queue", "terminate", "free", "post", "pause", "unpause"], TREES=["pair"], LEVELS=["P"], MAXOPS=5, MAXNEST=2, VERBS=["All", "OnlyPanics"]),
             dict(TREES=["twins", "chain"], MAXOPS=6)),
    "remove": (dict(OPS=["free", "rmc", "addn"], TREES=["fork", "deep"], NAMES=["B"], MAXOPS=3, MAXNEST=2),
               dict(OPS=["free", "rmc", "addn", "process"], NAMES=["A", "B"], MAXNEST=3, MAXOPS=4, MAXUID=8, MAXLIVE=6)),
    "ptr": (dict(OPS=["ptr", "use", "free", "addn", "process"], TREES=["twins"], MAXOPS=3, MAXNEST=1, MAXUID=4,
                 HOWS=["thisd", "this", "childd", "child", "parentd", "parent", "ownerd", "owner", "rootd", "newd", "new"],
                 USES=["valid", "get", "try", "trym", "to", "todyn", "trytodyn", "is"]),
            dict(MAXOPS=4, TREES=["twins", "fork"], MAXUID=5)),
    "paths": (dict(OPS=["grid", "raw", "abs", "name", "free", "addn"], TREES=["chain", "twins"], NAMES=["A", "B"], MAXOPS=3, MAXNEST=0,
                   PATHS=["", "/", ".", "..", "A", "/A", "B", "/A/B", "A/B", "B/A", "../B", "./B/..", "B/.", "/A/B/A", "A/", "//A//B", "/B", "../.."]),
              dict(MAXOPS=4, TREES=["chain", "twins", "fork"])),
    "sing": (dict(OPS=["sing", "singx", "grid", "free", "addn", "name"], TREES=["twins"], MAXOPS=4, MAXNEST=0, PATHS=["S", "T", "A"], MAXUID=4),
             dict(MAXOPS=5, MAXNEST=1)),
    "sig": (dict(OPS=["conn", "disc", "emit"], TREES=["twins"], MAXOPS=5, MAXNEST=2),
            dict(MAXOPS=6, MAXNEST=3, TREES=["twins", "fork"])),
    "sigfree": (dict(OPS=["conn", "emit", "free"], TREES=["twins"], NAMES=["B"], MAXOPS=4, MAXNEST=2, MAXUID=4),
                dict(OPS=["conn", "disc", "emit", "free", "rmc", "addn"], MAXOPS=5, MAXNEST=3)),
    "log": (dict(OPS=["post", "process", "addn", "sing", "name"], TREES=["twins"], LEVELS=["D", "I", "W", "P"], VERBS=["All", "NoDebug", "OnlyIssues", "OnlyPanics"],
                 NAMES=["B"], SINGS=["S"], MAXOPS=3, MAXNEST=1),
            dict(MAXOPS=4)),
    "scene": (dict(OPS=["mk", "sl", "cl", "ap", "sh", "br", "scv", "adds"], TREES=["pair"], SCENES=["pair", "twins"], MAXOPS=4, MAXNEST=0, MAXLIVE=8, MAXUID=12),
              dict(MAXOPS=5, TREES=["pair", "twins", "Lpair"], SCENES=["pair", "twins", "chain"])),
    "shape": (dict(OPS=["shs"], TREES=["one"], MAXOPS=1), dict(MAXOPS=1)),
    "stray": (dict(OPS=["stray", "free", "rmc", "process"], TREES=["pair"], MAXOPS=2, MAXNEST=2),
              dict(MAXOPS=2, TREES=["pair", "twins", "Lpair"], RECALL=2)),
    "fields": (dict(OPS=["fw", "fv", "ft", "fr", "fq", "br", "adds"], TREES=["one", "Lpair"], FIELDS=["ex", "ed", "df", "uq", "pl"], MAXOPS=3, MAXNEST=0, MAXUID=8),
               dict(OPS=["fw", "fv", "ft", "fr", "fq", "br", "adds", "cl", "sl"], MAXOPS=4)),
    "drop": (dict(OPS=["free", "rmc", "process", "drop"], TREES=["twins"], MAXOPS=3, MAXNEST=2, MAXUID=3),
             dict(OPS=["free", "rmc", "process", "addn", "drop"], TREES=["fork", "deep"], MAXOPS=3, MAXUID=5)),
    "unw": (dict(OPS=["unw", "addn", "free", "process"], TREES=["pair"], MAXOPS=3, MAXNEST=1), dict(MAXOPS=4, VERBS=["All", "OnlyPanics"])),
    "cast": (dict(OPS=["ptr", "use", "free"], TREES=["twins"], HOWS=["thisd"], USES=["isof", "cast", "castm", "is", "to"], MAXOPS=3, MAXNEST=0),
             dict(MAXOPS=4, OPS=["ptr", "use", "free", "addn", "process"], MAXNEST=1)),
    "keep": (dict(OPS=["ptr", "use", "free"], TREES=["twins"], HOWS=["childd", "child", "parentd", "ownerd"], USES=["get", "derefm", "to", "todyn", "trytodyn"],
                  MAXOPS=4, MAXNEST=0, MAXUID=4), dict(MAXOPS=5)),
    "bulk": (dict(OPS=["td", "nodes", "free", "addn"], TREES=["fork", "deep"], MAXOPS=2, MAXNEST=0, MAXUID=6), dict(MAXOPS=3)),
}
INV = """P01_Rooted P02_Names P03_Owners P04_Once P04_All P04_Order P04_Loaded P05_Once P05_Order P05_All P06_Modes P07_Hooks
  P07_Exit P08_Once P08_Hooks P09_Type P10_Paths P11_Names P12_Due P12_All P12_Once P13_Levels P14_Status P14_Report P15_Loaded
  P16_Copied P16_Branch P24_Levels P24_Order P26_Gone P27_Once P27_Frame Script"""
PRO = "P06_Pause P07_OneWay P08_Told P09_Ptr P12_Stay P12_Live P16_Apart P17_Alone P26_Apart P27_Busy"


def val(v):
    if isinstance(v, list):
        return "{" + ", ".join(val(x) for x in v) + "}"
    return '"%s"' % v if isinstance(v, str) else str(v)


def write(name, c, emit, view):
    with open(os.path.join(SPEC, f"MC_{name}.cfg"), "w") as f:
        f.write("SPECIFICATION Spec\nCONSTANTS\n")
        for k, v in c.items():
            f.write(f"  {k} = {val(v)}\n")
        f.write(f"  EMIT = {'TRUE' if emit else 'FALSE'}\n")
        f.write("VIEW View\n" if view else "")
        f.write(f"CHECK_DEADLOCK FALSE\nINVARIANTS\n  {INV + (" P10_Steps" if name.startswith("paths") else "")}\nPROPERTIES\n  {PRO}\n")


if __name__ == "__main__":
    for name, (quick, deep) in M.items():
        recall = 0 if name == "sigfree" else 1 if name in ("ptr", "paths", "sing", "sig", "modes", "log") else 2
        write(name, {**BASE, "RECALL": recall, **quick}, True, True)
        write(name + "_deep", {**BASE, **quick, "RECALL": 0, **deep}, True, True)

# The objects outside of trees: kind, quick and deep bounds.
O = {
    "rid": ("rid", dict(MAXOPS=3), dict(MAXOPS=4)),
    "field": ("field", dict(MAXOPS=3, VALS=[5], USEOPS=["write", "take", "force", "void", "copy", "set", "from"]), dict(MAXOPS=4)),
    "arith": ("field", dict(MAXOPS=1, VALS=[0, 3, 6, 7, 8, 13, 20]), dict(MAXOPS=2, VALS=[0, 7, 13])),
    "opt": ("opt", dict(MAXOPS=2, VALS=[2, 5]), dict(MAXOPS=3)),
    "osig": ("sig", dict(MAXOPS=4), dict(MAXOPS=5)),
    "olog": ("log", dict(MAXOPS=2), dict(MAXOPS=3)),
    "opath": ("path", dict(MAXOPS=2), dict(MAXOPS=3)),
    "codec": ("codec", dict(MAXOPS=1), dict(MAXOPS=1)),
    "glam": ("glam", dict(MAXOPS=1), dict(MAXOPS=1)),
    "doc": ("doc", dict(MAXOPS=1), dict(MAXOPS=2)),
    "oname": ("name", dict(MAXOPS=1), dict(MAXOPS=1)),
}
for name, (kind, quick, deep) in O.items():
    for suffix, b in (("", quick), ("_deep", {**quick, **deep})):
        c = {**dict(MAXOPS=2, VALS=[1], USEOPS=[]), **b}
        with open(os.path.join(SPEC, f"OC_{name}{suffix}.cfg"), "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANTS\n  KIND = \"%s\"\n" % kind + "".join(f"  {k} = {val(v)}\n" for k, v in c.items())
                    + "INVARIANTS StepsOk Script\nCHECK_DEADLOCK FALSE\n")

# Two trees.
for name, quick, deep in [("twins", dict(OPS=["process", "queue", "free", "addn", "sing", "post"], MAXOPS=4, MAXNEST=2), dict(MAXOPS=5)),
                          ("twinsig", dict(OPS=["conn", "emit", "terminate", "name"], MAXOPS=6, MAXNEST=1), dict(MAXOPS=7, MAXNEST=2))]:
    for suffix, c in (("", quick), ("_deep", {**quick, **deep})):
        with open(os.path.join(SPEC, f"MT_{name}{suffix}.cfg"), "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANTS\n" + "".join(f"  {k} = {val(v)}\n" for k, v in c.items()))
            f.write("  EMIT = TRUE\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS P28_Sound P28_Own Script\nPROPERTIES P28_Alone\n")
