#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property from the current sources of /repo."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from sa.report import main      # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    try:
        mod = importlib.import_module("rules." + prop.lower())
        title, run = mod.TITLE, mod.run
    except ModuleNotFoundError as exc:
        if exc.name != "rules." + prop.lower():
            raise
        from rules import cxxagree
        from rules.tables import AGREE
        from rules.agree import agree
        title, run = prop, (lambda ctx: cxxagree.agree(ctx, prop)) if prop in cxxagree.TABLE else (lambda ctx: agree(ctx, AGREE[prop]))
    sys.exit(main(prop, title, run, tier))
