#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough] | check.py --replay FILE"""
import importlib, json, os, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
for d in ("lib", "tools", "checks"):
    sys.path.insert(0, os.path.join(VERIF, d))


def load(pid):
    for f in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if f.endswith(".py") and f.split("_")[0] == pid:
            return importlib.import_module(f[:-3])
    sys.exit(f"no check for {pid}")


def main(a):
    import pbt
    if a[0] == "--replay":
        r = json.load(open(a[1]))
        return pbt.replay(load(r["property"]), a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        return pbt.main(load(a[0]), a[0], tier, seed)
    except pbt_build_error() as e:
        print(f"build error: {e}", file=sys.stderr)
        return 3


def pbt_build_error():
    import build
    return build.BuildError


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
