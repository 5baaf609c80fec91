"""Writes MANIFEST.json from the list of claimed properties."""
import json
LEVEL = {}
NOTE_GRAPH = ("Every obligation of the contracts in the property's cone, generated from /repo's source on this run, is discharged for all "
              "graph states satisfying the representation invariant, all arguments and all loop iterations. Trusted: the verification-condition "
              "generator pyvc and its model of built-in containers, z3/cvc5, real arithmetic for times; the bounded concrete search that runs beside it is not counted as proof.")
CLAIMED = {}
for p in ("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23").split():
    CLAIMED[p] = NOTE_GRAPH
CLAIMED["C22"] = NOTE_GRAPH + (" Saving and loading is proved over structured text (assumed: str/int/float/split/strip/find act on that structure as Python documents). "
                               "For snapshot graphs also assumed: adjacency_matrix is square of the graph's size, numpy turns numbers into text and back without change, "
                               "the graph made from a matrix has it as its adjacency matrix, every snapshot has a node, the option words do not occur in the delimiter.")
CLAIMED["C23"] = NOTE_GRAPH + (" Proved: both update functions, the enumeration (every connected node set of the motif's size is produced) and the main function up to "
                               "the two results the statement is about. Assumed: the recurrences of the counting functions (occurrences ending with / beginning with a group of "
                               "edges of one time), that occurrences depend only on the edges among their own nodes, that the nodes of an occurrence of a connected motif are a "
                               "connected set, networkx Graph.neighbors/subgraph. The participation table (pandas) is outside the statement and skipped.")
NA = {}
TODO = "no contract check is registered for this property yet"
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, sys; sys.path.insert(0, \".\"); import pyvc.verify' && chmod +x check.py",
     "checks": [{"property": p, "quick_cmd": "python3-vt check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + p,
                 "evidence_file": "evidence/%s.json" % p,
                 "technique": "contract-based deductive verification: contracts and invariants on the real methods, obligations generated by symbolic execution of their source and discharged by SMT",
                 "level": LEVEL.get(p, "proof"), "level_note": CLAIMED[p]} for p in props if p in CLAIMED],
     "not_applicable": [{"property": p, "reason": NA.get(p, TODO)} for p in props if p not in CLAIMED],
     "notes": "See DESIGN.md. No hooks are needed in /repo."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
