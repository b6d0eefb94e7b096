"""Writes tools/open_symbols.json: per harness, the symbols its part of the
simulator refers to but never calls in the exploration (run on a tree where all
checks are quiet, after a harness or its source list changes)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks, vbuild

out = {}


def record(name, now):
    out[name] = sorted(now)
    return now


vbuild.allowed_open = record
for name, kw in checks.HARNESS.items():
    if kw.get("only") is not None:
        vbuild.build(name, **kw)
with open(os.path.join(vbuild.VERIF, "tools", "open_symbols.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
