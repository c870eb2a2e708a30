"""rules.json -> structural rules over the compiled tree"""
import glob
import os

import run as R


def run(spec, tier):
    import effects
    units = sorted(u for g in spec["units"] for u in glob.glob(os.path.join(R.ROOT, "witness", g)))
    return effects.run(units, [spec["rule"]])
