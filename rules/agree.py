"""Reference agreement (sa.equiv) for a list of functions."""
from sa.equiv import Suite


def agree(ctx, table, rule="agrees"):
    """table: class or module (dotted, below aihwkit) -> names of functions, "*", or "* -name ..." for all but some."""
    suite = Suite(ctx, "*")
    only = set()
    for owner in [o for o in table if o.endswith("**")]:        # everything with a reference below a package
        pre = "aihwkit." + owner[:-2]
        only.update(s.qual for s in suite.specs if s.qual.startswith(pre))
    for owner, names in table.items():
        if owner.endswith("**"):
            continue
        pre = "aihwkit." + owner + "."
        have = {s.qual[len(pre):] for s in suite.specs if s.qual.startswith(pre) and "." not in s.qual[len(pre):].replace(".setter", "")}
        words = names.split()
        for n in sorted(have - {w[1:] for w in words}) if words[0] == "*" else words:
            if n in have:
                only.add(pre + n)
            elif pre + n not in suite.missing:
                ctx.skip(rule, owner + "." + n, "no reference, or the class is gone")
    suite.missing = [m for m in suite.missing if any(m.startswith("aihwkit." + o.rstrip("*")) for o in table)]
    suite.run(rule, only)
    ctx.count("functions compared with their reference", len(only))
    return suite
