"""pydv: a small deductive verifier for the Python subset used by msg555/subsetter.

It reads the source of the functions in /repo on every run, executes them
symbolically over unbounded inputs (loops by summarisation or by invariant), and
discharges the resulting proof obligations with SMT solvers.
"""
import sys

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
