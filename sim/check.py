#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--replay FILE]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simenv
simenv.setup()
import importlib
import core
sys.setswitchinterval(1e-3)
if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module("p_" + pid.lower())
    rc = core.main(mod, sys.argv[2:])
    sys.stdout.flush()
    sys.exit(rc)
