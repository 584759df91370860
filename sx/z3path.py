"""Imports z3 from the verification tool environment without leaving that environment on sys.path."""

import sys

_P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3  # noqa: F401
except ImportError:
    sys.path.append(_P)
    try:
        import z3  # noqa: F401
    finally:
        sys.path.remove(_P)
