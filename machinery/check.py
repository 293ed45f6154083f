#!/opt/veriftools/pyvenv/bin/python3
"""check.py Cxx [--tier quick|thorough] [--replay FILE] [--only SUB] [--scale F]   (seed: VERIF_SEED)"""
import argparse, os, sys
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H, os.path.dirname(H) + "/checks"]
sys.dont_write_bytecode = True
import runner, qd
a = argparse.ArgumentParser()
a.add_argument("prop"); a.add_argument("--tier", default=None); a.add_argument("--replay")
a.add_argument("--only", action="append"); a.add_argument("--scale", type=float, default=1.0)
o = a.parse_args()
tier = o.tier or os.environ.get("VERIF_TIER", "quick")
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
mod = o.prop.lower()
if o.replay:
    import importlib
    for f, t in importlib.import_module(mod).BUILD:
        qd.build(f, *t)
    m = runner.replay(mod, o.prop, o.replay)
    print(m or "the case passes")
    if m:
        print(f"VIOLATION property={o.prop} replay={o.replay}")
    sys.exit(1 if m else 0)
sys.exit(runner.main(mod, o.prop, tier, seed, o.only, o.scale))
