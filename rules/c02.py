"""C02: copying a simulator object duplicates all of it and shares nothing it owns."""
from rules import cxxclone

TITLE = "Copying, moving and swapping simulator objects carries all of their state"


def run(ctx):
    facts = ctx.cxx(rpu=True, bind=True)
    n = cxxclone.run(ctx, facts, lambda name: True, rule="copy")
    ctx.need(n >= 60, "only %d copy/move/swap functions found" % n)
    ctx.at_least("copy", 300)
    ctx.assumptions.append("members listed as scratch, generator or external storage in rules/cxxclone.py carry no state of the object")
