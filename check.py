#!/opt/venv/bin/python
"""Entry point: check.py <property> --tier quick|thorough [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
# worker processes are spawned: let them find the package
os.environ["PYTHONPATH"] = os.path.dirname(os.path.abspath(__file__))

from mc import common  # noqa: E402

if __name__ == "__main__":
    code = common.main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
