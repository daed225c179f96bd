"""Writes engine/schema.json: the names in use when the rules were written (see engine/facts.py, renamed)."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import facts  # noqa: E402

out = {}
for n in ("paladin", "paladin_opkind_derive"):
    with open(os.path.join(sys.argv[1], n + ".json")) as f:
        out[n] = facts.shape(json.load(f))
with open(facts.SCHEMA, "w") as f:
    json.dump(out, f, indent=0, sort_keys=True)
    f.write("\n")
