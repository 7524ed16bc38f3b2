"""pydv: a small deductive verifier for the Python subset used by cwl-utils."""
import os
import sys

# z3 lives in the verification tools' own environment; it is appended, so that
# every other package comes from the environment that runs cwl-utils.
_Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if os.path.isdir(_Z3) and _Z3 not in sys.path:
    sys.path.append(_Z3)
