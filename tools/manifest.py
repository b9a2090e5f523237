"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = {
 "C01": "TLA+ acceptance model decides what may be accepted; every slice is parsed and every reader exercised on the real code, TLC checks that nothing panics and flags crashes and hangs. Inputs are enumerated from the catalogue (all headers, lengths, mutations), not all of 2^n.",
}
DEF = "TLC explores the specification exhaustively within the stated bounds; the link to the code is by replaying generated behaviours on the real crate and checking every recorded event against the specification, so code paths are covered up to the generated behaviours."
M = dict(version=1, setup_cmd="python3 bin/check.py --setup",
         hooks=dict(guard="none", enable="no hooks: the harness uses public items only", source_commits=[]),
         checks=[dict(property=p, quick_cmd="python3 bin/check.py %s --tier quick" % p, thorough_cmd="python3 bin/check.py %s --tier thorough" % p,
                      technique="TLA+ specification (TLC): exhaustive model checking + trace validation of the real code against it",
                      level="model_checking", level_note=NOTE.get(p, DEF)) for p in props],
         not_applicable=[])
json.dump(M, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
