"""Prints smaller variants of the spec on stdin, or generates a spec."""
import importlib
import json
import os
import sys

OUT = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
prop = sys.argv[1]
mod = importlib.import_module("checks." + prop.lower())
if len(sys.argv) > 2:
    import hashlib

    base, index, tier = sys.argv[3:6]
    h = hashlib.sha256(("%s/%s/%s" % (base, prop, index)).encode()).digest()
    json.dump(mod.gen(int.from_bytes(h[:6], "big"), int(index), tier), OUT)
else:
    spec = json.load(sys.stdin)
    json.dump(list(getattr(mod, "shrink", lambda s: [])(spec))[:200], OUT)
OUT.flush()
