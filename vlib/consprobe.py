"""Constructs cores and products and writes what they report: runs under the interpreter that has nmigen.

    consprobe.py IN.json OUT.json     IN: [[kind, config]], OUT: [{"error": text or null, "cons": {name: [component, value]}}]
"""
import importlib
import json
import os
import sys
import warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO + "/migen_src")
import constraints                        # noqa

FIELDS = ["height_min", "width_min", "bit_depth_min", "height_max", "width_max", "bit_depth_max", "height_multiple", "width_multiple"]
made = []
_init = constraints.Constraints.__init__


def init(self, *a, **k):
    made.append(self)
    _init(self, *a, **k)


constraints.Constraints.__init__ = init
out = []
for kind, cfg in json.load(open(sys.argv[1])):
    del made[:]
    r = {"error": None, "cons": None}
    try:
        m = importlib.import_module(kind[0])
        if cfg is None:
            getattr(m, kind[1])()
        else:
            getattr(m, kind[1])(cfg, constraints.Constraints())
        r["cons"] = [{f: getattr(c, f) for f in FIELDS} for c in made]
    except Exception as e:
        r["error"] = "%s: %s" % (type(e).__name__, e)
    out.append(r)
json.dump(out, open(sys.argv[2], "w"))
