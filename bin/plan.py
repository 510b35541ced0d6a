"""What each check runs: models, input families and their amounts per tier."""

ASSUMPTIONS = [
    "little-endian 64-bit Linux build of the sources in /repo/src with gcc and AddressSanitizer; WORDS_BIGENDIAN and Windows branches are not executed",
    "handler tables, files and histories are as large as the generators and model bounds make them (DESIGN.md lists the bounds)",
    "TLC, its JSON module, the harness (harness/driver.c) and glibc stdio behave as documented",
]

import models as model_plan

# quick amounts; thorough multiplies them
FAMILIES = {
    "C01": [("contents", 8), ("tails", 8), ("read", 260), ("read_big", 1), ("stream", 30), ("hostile", 60), ("largeread", 12)],
    "C02": [("trunc", 22), ("hostile", 240), ("memory", 30), ("scarce", 20), ("largeread", 12)],
    "C03": [("contents", 8), ("stream", 20), ("write", 90), ("bottomup", 30), ("fault", 2), ("largewrite", 12), ("evolve", 20)],
    "C04": [("contents", 8), ("rewrite", 160), ("write", 50), ("read_big", 1), ("largewrite", 12)],
    "C05": [("stream", 20), ("fault", 14), ("scarce", 12), ("largewrite", 6), ("largeext", 2)],
    "C06": [("verdict", 420), ("ids", 3), ("verdictall", 24), ("largeverdict", 12), ("evolve", 60)],
    "C07": [("ids", 20)],
    "C08": [("contentscmp", 8), ("contents", 8), ("cmp", 150), ("cmpall", 9), ("largecmp", 12), ("evolve", 60)],
    "C09": [("searchshape", 8), ("search", 220), ("inspect", 15), ("largesearch", 5), ("evolve", 60)],
    "C10": [("lookup", 120), ("largelookup", 6), ("evolve", 80)],
    "C11": [("build", 200), ("bottomup", 60), ("track", 40), ("largebuild", 4), ("evolve", 100)],
    "C12": [("bottomup", 180), ("build", 120), ("largebuild", 6), ("evolve", 80)],
    "C13": [("track", 220), ("build", 80), ("largebuild", 2)],
    "C14": [("handlers", 160), ("scarce", 8), ("largefind", 3), ("evolve", 40)],
    "C15": [("ext", 60), ("stream", 30), ("largeext", 6)],
    "C16": [("values", 12), ("ext", 25)],
    "C17": [("searchshape", 8), ("memory", 90), ("scarce", 30), ("build", 50), ("trunc", 5), ("handlers", 40), ("search", 90), ("lookup", 12), ("fault", 3), ("ext", 5), ("largeread", 3), ("largebuild", 2), ("largesearch", 2), ("evolve", 40)],
    "C18": [("tails", 8), ("diag", 150), ("scarce", 8), ("stream", 40), ("verdict", 60), ("modes", 4), ("read", 60), ("fault", 2), ("largeread", 3), ("largeverdict", 2), ("evolve", 40), ("values", 3)],
    "C19": [("contents", 8), ("print", 200), ("largeprint", 9), ("evolve", 40)],
    "C22": [("tails", 8), ("stream", 160), ("read", 60), ("ext", 20), ("largestream", 2)],
    "C23": [("searchshape", 8), ("inspect", 160), ("fault", 3), ("largeverdict", 2), ("largecmp", 2), ("largesearch", 2), ("evolve", 50)],
    "C24": [("modes", 60), ("write", 30), ("largewrite", 12), ("largeread", 12)],
}
TOOLS = {"C20": 400, "C21": 420, "C25": 700}
SCALE = {"quick": 1, "thorough": 12}


def conformance(prop, tier):
    k = SCALE[tier]
    return {"families": [(f, n if f in ("read_big", "contents", "contentscmp") else n * min(k, 4) if f.startswith("large") else n * k) for f, n in FAMILIES.get(prop, [])], "tools": TOOLS.get(prop, 0) * k}


def needs(prop):
    n = {"driver"} if prop in FAMILIES else set()
    if prop == "C07":
        n.add("sweep")
    if prop in ("C01", "C03", "C06", "C08", "C09", "C10", "C11", "C12", "C13", "C19"):
        n.add("wide")
    if prop == "C02":
        n.add("deep")
    if prop in ("C20", "C25"):
        n.add("iffjoin")
    if prop in ("C21", "C25"):
        n.add("iffpp")
    return n


def models(prop, tier):
    return model_plan.models(prop, tier)


NOTE = "Bounded: the model is checked exhaustively within the bounds of its configuration, and the code is compared with it on the exported and generated behaviours of this run. Trusts TLC and the harness."
NOTES = {}
TECHNIQUE = {}
