#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--proof-only] [--oracle-only]"""
import os
import sys

_env = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent-pycache", "LC_ALL": "C.UTF-8"}
if any(os.environ.get(k) != v for k, v in _env.items()):
    os.environ.update(_env)
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks.driver import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
