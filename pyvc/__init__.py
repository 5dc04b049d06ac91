"""pyvc: a small deductive verifier for Python functions (see /verif/DESIGN.md)."""
import sys
_vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _vt not in sys.path:
    sys.path.append(_vt)
