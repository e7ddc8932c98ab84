#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the modules in lib/ (a property is claimed
when lib/p_cNN.py exists) and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; traces of the real code validated against it"
NOTES = {
 "C01": "IndexSets.tla is the set-theoretic machine; every call history driven into the real IndexSet is checked call by call. Bounded by the generated histories (ranks 1-3, coordinates -4..20, sets to some hundred boxes).",
 "C02": "As C01 for the derived operations (complement, slice, take/drop/append, compaction).",
 "C03": "All pairs of intervals/points of a small universe are enumerated by TLC from Ranges.tla (exhaustive within it) and replayed; boxes of rank 1-3 are sampled.",
 "C04": "RTrees.tla gives the bag-of-objects machine and the structural invariants of a node dump; random and adversarial histories, bulk loads.",
 "C17": "Grammar.tla is the grammar as data; that it is unambiguous and that its recogniser reads all it derives is checked exhaustively on short strings over twelve sub-alphabets; sentences derived from it, the exhaustive short ones and mutations of both are parsed for real and the trees compared node by node.",
 "C18": "The same oracle on random bytes, token soup, every prefix of derived sentences, deep nestings and long lists; a death of the driver is an event no action explains.",
 "C19": "The tree of a random node of a derived sentence, that of its copy and both after a change of either side are compared; parents and positions of every node.",
 "C20": "Filters.tla holds the lexing, the grammar and the meaning of filter texts, with its own regular-expression matcher; all short texts over two alphabets are model checked and replayed, longer ones sampled.",
 "C22": "Inputs.tla; all extensions of up to four letters, sampled names, and commands that are run for real, the program started reporting what it was given.",
 "C23": "Simulation.tla is a compiled model as a state machine; IR.tla gives a meaning to the source and to the compiler's output in the field of integers modulo a prime. Generated models go through the real lowering and passes, and the runs of the resulting schedules, in two admissible orders, are checked against the source equations. LLVM code generation and the numeric runtime are not part of it.",
 "C24": "RuntimeProgram.tla extends the compiled model of Simulation.tla with storage and a pool of scheduled equations; the programs converted from generated models are run by its entry points, and their metadata compared with what the model, the filter and the annotation define.",
 "C21": "Serial.tla reads every annotation from its text and checks what pretty text, generic text and bytecode return; Serial's own writer and reader are proved inverse to each other over a small universe by TLC.",
 "C25": "WellPosed.tla decides from the source alone whether every name, call and subscript means something and whether the equations can be assigned to the unknowns one-to-one (Kuhn's algorithm on scalar cells); generated models with planted defects go through the real compiler.",
}
NA = {
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/lib/p_%s.py" % i.lower()):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH,
                       "level": "model_checking",
                       "level_note": NOTES.get(i, "TLC checks the specification; conformance is bounded by the generated cases.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: the harness compiles /repo's sources from the working tree and reaches non-public state through the C++ API only", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "check.py PROPERTY [--tier quick|thorough] [--seed N]; see DESIGN.md. Genuine defects: known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print("claimed:", [c["property"] for c in checks], "not claimed:", [x["property"] for x in na])
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid")
except ImportError:
    pass
