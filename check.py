#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
if os.path.realpath(sys.prefix) != os.path.realpath(os.path.dirname(os.path.dirname(PY))) and os.path.exists(PY):
    os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("PYTHONHASHSEED", "0")
from engine import runner  # noqa: E402


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--conc-server":
        runner.conc_server(sys.argv[2])
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return runner.replay(a.prop, a.replay)
    return runner.run(a.prop, a.tier, int(os.environ.get("VERIF_SEED", "1")))


if __name__ == "__main__":
    sys.exit(main())
