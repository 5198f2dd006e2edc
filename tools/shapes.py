"""Rewrite contracts/shapes.json: the loops of /repo's functions the invariants are written for."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import pydv  # noqa: E402,F401
from pydv import prove  # noqa: E402

json.dump({k: v for k, v in prove.shapes_of(prove.FILES).items() if v != [""]}, open(os.path.join(
    HERE, "contracts", "shapes.json"), "w"), indent=0)
