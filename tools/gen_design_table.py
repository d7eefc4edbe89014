"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## 7. Which check catches which planted bug\n"
NOTE = {
    "c27-monomial-separator": "missed at first; the harnesses symbol1..symbol4 (a symbol in every index position) were added",
    "c12-conjugate-remembers-size": "found by the history runs",
    "c14-remembered-lattice": "found by the history runs",
    "c26-shared-slot": "access sets of two threads, replayed under TSan",
    "c08-negative-distance": "",
}
rows = ["", "Every one is caught by the check of its property (exit 1, `VIOLATION`, replayed natively).", "",
        "| planted bug | check | what it needs | what breaks | remark |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "\\|"),
                                               m["what_it_breaks"].replace("|", "\\|"), m.get("remark", NOTE.get(n, ""))))
p = V + "/DESIGN.md"
s = open(p).read()
i = s.index(MARK)
open(p, "w").write(s[:i] + MARK + "\n".join(rows) + "\n")
