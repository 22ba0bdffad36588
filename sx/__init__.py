import sys, os

_Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _Z3 not in sys.path:
    sys.path.append(_Z3)
