"""writes checks.json and MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ",".join("C%02d" % i for i in range(1, 21))
TB = ["gvc (/verif/gvc): obligation generator over golang.org/x/tools go/ssa of /repo's source, written for this task",
      "golang.org/x/tools v0.52.0 go/packages and go/ssa, and the Go compiler front end",
      "z3 4.8.12, z3-new, cvc5 1.1.2: an 'unsat' answer of one of them is believed",
      "Lean 4.33.0 kernel and Mathlib: they check the lemmas and definitions the contracts mark [lean] and [defn]; gvc translates their statements"]
AS = ["termination of loops and recursion is not proved (partial correctness)",
      "int is treated as a mathematical integer",
      "memory is never exhausted; no other goroutine runs on the same world",
      "an interface with one implementation in /repo (World, Tree, Components…) holds a value of that implementation",
      "a world is only changed through its methods (its exported fields are not written by others)"]
def P(level="proof", note="", technique="contract-based deductive verification of the Go source (gvc: SSA weakest preconditions, z3/cvc5), failed obligations replayed as run-time contracts on the real code", **kw):
    return dict(level=level, note=note, technique=technique, **kw)
W = "For all well-formed worlds, ids and parameters, by induction over operations (each operation re-establishes the world invariant it assumes). "
PROPS = {
 "C01": P(note=W + "Forest invariant of the tree and item map proved as postcondition of every mutating operation."),
 "C02": P(note=W + "Nest and Free proved against an exact description of every parent link."),
 "C03": P(note=W + "ItemDelete proved against an exact description of items, links and relationships."),
 "C04": P(note=W + "Relationship map keyed injectively by the ordered pair; ends exist; proved for every mutating operation. String concatenation injectivity is proved by the solvers' string theory over the code's own formatting."),
 "C05": P(note=W + "Item attributes, copies in the tree and in relationships proved equal to the stored item after every operation."),
 "C06": P(note=W + "RelCreate, RelSet, RelDelete proved against an exact description of the relationship map."),
 "C07": P(note=W + "Each query proved to return exactly what the state says (sound, distinct, complete, limits)."),
 "C08": P(note=W + "Each relationship query proved to return exactly the relationships that match."),
 "C09": P(note=W + "For every operation the error outcome and the unchanged state on error are proved."),
 "C20": P(note=W + "Every stored type is one of the ten types and conversions are proved to be inverse of one another."),
}
NA = {}
exec(open(os.path.join(V, "tools", "props_extra.py")).read())
for i in range(1, 21):
    k = "C%02d" % i
    if k not in PROPS and k not in NA:
        NA[k] = "contracts for this part are not finished"
json.dump({"trusted_base": TB, "assumptions": AS, "properties": {k: {x: y for x, y in v.items() if x not in ("note", "technique")} for k, v in sorted(PROPS.items())}}, open(os.path.join(V, "checks.json"), "w"), indent=1)
M = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": k, "quick_cmd": "python3 check.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + k, "technique": v["technique"], "level": v["level"], "level_note": v["note"]} for k, v in sorted(PROPS.items())],
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "No hooks in /repo: contracts live in /verif/contracts and bind to functions by name; obligations are generated from /repo's source on every run. Run-time contracts reach the packages through go test -overlay."}
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
