"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LATER = {  # missed by the check as it was when the bug was planted -> what was added
    "exponent-warning-filter": "state of the process around calls that warn",
    "centred-matrix-cache": "in-place changes while older arrays stay alive",
    "identity-permutation-skipped": "endless draws end in a violation",
    "sqrt-absolute-value": "C03 `roots`",
    "mergesort-sorted-sampling": "C05 `orders`",
    "none-uses-global-state": "tests without random state in C15 `env`",
    "af-inv-one-pass-covariance": "C06 `offset`",
    "t-statistic-warning-filters": "state of the process after the threads",
    "centred-already-alias": "C15 `alias`",
    "cdist-dimension-broadcast": "C18 `dims` for every type",
    "shuffle-only-head": "C22 `decoded` with more than 1000 instances",
    "one-dimensional-subtraction": "large samples with reference (`FastDC`)",
    "t-statistic-int32": "C13 `large`",
    "error-state-after-failure": "C15 `faults`",
    "distance-blocks-tail": "C07 `largest`",
    "rowwise-lock": "C17 `callbacks`",
    "cov-one-pass-large": "C06 `lattice`",
    "resamples-limited-by-factorial": "C11 many resamples of few instances",
    "large-cdist-gram": "C07 `large` with close points",
}
if os.path.exists(HERE + "/tools/later.json"):
    LATER.update(json.load(open(HERE + "/tools/later.json")))
rows = ["## Planted bugs and the checks that catch them", "",
        "Every one builds, passes the 73 stable tests and has a demonstration. All are caught by the quick check of "
        "the property named;", "the last column tells what had to be added where the check first missed it.", "",
        "| bug | caught by | needs | added for it |", "|---|---|---|---|"]
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], LATER.get(i, "")))
rows += ["", ""]
p = HERE + "/DESIGN.md"
t = open(p).read()
a = t.find("## Planted bugs and")
if a < 0:
    a = b = t.index("## False alarms that")
else:
    b = t.index("## False alarms that")
open(p, "w").write(t[:a] + "\n".join(rows) + t[b:])
