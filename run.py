#!/usr/bin/env python3
"""python run.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE] [--only NAME|INDEX] [-v]"""
import os, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix != "/opt/venv":
    if os.path.exists(PY) and not os.environ.get("MON_REEXEC"):
        os.environ["MON_REEXEC"] = "1"
        os.execv(PY, [PY] + [os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + [os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
import importlib
from mon import runner


def modules():
    return {os.path.basename(f)[:3].upper(): os.path.basename(f)[:-3] for f in glob.glob(HERE + "/checks/c*.py")}


if __name__ == "__main__":
    prop = sys.argv[1].upper()
    mod = importlib.import_module("checks." + modules()[prop])
    sys.exit(runner.main(mod, sys.argv[2:]))
