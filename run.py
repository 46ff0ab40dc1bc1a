#!/opt/venv/bin/python
"""run.py <property id> [...]: runs the check of a property."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import env  # noqa  (may re-exec to fix the hash seed)
from vp.check import Check  # noqa


def main():
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid.lower())
    c = Check(pid, getattr(mod, "LEVEL", "model_checking"))
    mod.run(c)
    code = c.finish()
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    main()
