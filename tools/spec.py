"""Source of properties.jsonl and MANIFEST.json (python3 tools/spec.py rewrites both)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from properties_config import PROPERTIES

P = []
def prop(id, title, statement, over, qtext, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}})

prop("P01", "Fixed-size vectors and matrices compute exact linear algebra",
     "Every operation on the fixed-size real and complex vectors and matrices (arithmetic, in-place variants, axpy, products, inner/cross/double products, transpose, determinant, inverse, solve, norms, conversions) returns what its mathematical definition says, for all entry values, and leaves its const operands unchanged. In-place operations stay correct when an operand aliases the target.",
     ["inputs"], "all entry values (reals/complex numbers), dimensions 1..4, both scalar types",
     "the unit tests evaluate a few constant vectors; wrong signs or indices in less used overloads, aliasing and frame conditions stay unseen",
     ["kernel/LinearAlgebra/SmallVector.h", "kernel/LinearAlgebra/SmallMatrix.h", "kernel/LinearAlgebra/SmallMatrix_impl.h", "kernel/LinearAlgebra/Axpy.h"],
     [("SmallVector / GSmallVector operators", "kernel/LinearAlgebra/SmallVector.h"), ("SmallMatrix / GSmallMatrix operators, determinant, inverse, solve", "kernel/LinearAlgebra/SmallMatrix_impl.h")])

def write():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        c = PROPERTIES.get(p["id"])
        if c:
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                           "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": c.get("technique", "contract-based deductive verification: contracts on the real functions, obligations from instrumented compilation of /repo, discharged by exact rational-function normal forms and z3"),
                           "level": c.get("level", "proof"), "level_note": c["note"]})
        else:
            na.append({"property": p["id"], "reason": NA[p["id"]]})
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the unmodified sources are instrumented at LLVM-IR level on every run (engine/HpvPass.cpp). See DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
NA = {}
exec(open(os.path.join(V, "tools", "spec_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "spec_more.py")) else None
if __name__ == "__main__":
    write()
