"""Entry point:  python -m mc.run PXX [--tier quick|thorough] [--replay FILE] [-v]"""
import glob
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mc import core  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    hits = glob.glob(os.path.join(ROOT, "checks", f"{pid.lower()}_*.py"))
    if len(hits) != 1:
        raise SystemExit(f"no check module for {pid}")
    mod = "checks." + os.path.basename(hits[0])[:-3]
    sys.exit(core.main(mod, sys.argv[2:]))
