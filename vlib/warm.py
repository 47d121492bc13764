"""Fill the derivative cache of this run (fresh TMPDIR) from the current code, through the public API."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, api
from vlib import rawgen, glmgen

kind, d = sys.argv[1], sys.argv[2]
os.makedirs(d, exist_ok=True)
with common.quiet():
    if kind == "gen":
        rng = common.rng_for("warm")
        c = rawgen.tiny_pv_case()
        p = os.path.join(d, "warm.RAW")
        open(p, "w").write(rawgen.write(c, 33))
    else:
        p = os.path.join(d, "warm.glm")
        open(p, "w").write(glmgen.tiny_case())
    api.solve_file(p, infeasibility=True)
