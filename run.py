#!/opt/venv/bin/python
"""Run one check: run.py <ID> [--tier quick|thorough] [--replay artefact]."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

if sys.argv[1:] == ["--selftest"]:
    # Nothing needs to be built. Verify that the reference code and the target import.
    from mc import core

    core.setup_env()
    core.import_target()
    print("ok")
    sys.exit(0)

from mc.core import main

sys.exit(main(sys.argv[1:]))
