#!/usr/bin/env python3
import argparse, os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
VPY = "/opt/veriftools/pyvenv/bin/python3"
if os.path.exists(VPY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv") and not os.environ.get("TV_PY"):
    os.environ["TV_PY"] = "1"
    os.execv(VPY, [VPY] + sys.argv)
sys.path.insert(0, ROOT)
os.chdir(ROOT)
from tv import build, runner  # noqa

ap = argparse.ArgumentParser()
ap.add_argument("property", nargs="?")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
ap.add_argument("--seed", type=int, default=None)
ap.add_argument("--cases", type=int)
ap.add_argument("--jobs", type=int)
ap.add_argument("--variant")
ap.add_argument("--only")
ap.add_argument("--keep-going", action="store_true")
ap.add_argument("--replay")
ap.add_argument("--setup", action="store_true")
a = ap.parse_args()
if a.setup:
    for v in ("rel", "asan", "tsan"):
        build.build(v)
    sys.exit(0)
if a.replay:
    sys.exit(runner.replay(a.replay))
seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
tier = a.tier if a.tier in ("quick", "thorough") else "quick"
try:
    rc = runner.check(a.property, tier, seed, a.jobs, a.cases, a.keep_going, a.variant,
                      a.only.split(",") if a.only else None)
except Exception:
    import traceback
    traceback.print_exc()
    rc = 2
sys.exit(rc)
