import sys

_Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3  # noqa: F401
except ImportError:
    sys.path.append(_Z3)
    import z3  # noqa: F401

    sys.path.remove(_Z3)
