"""Records the wire schema and protocol constants of the current tree. Run once, on the pinned commit."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ygv.checks.lint import BASE, current                                       # noqa: E402
with open(BASE, "w") as f:
    json.dump(current(), f, indent=0, sort_keys=True)
    f.write("\n")
