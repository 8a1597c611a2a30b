"""Reference agreement (sa.equiv, sa.cinterp) for the C++ simulator: which modules carry which property."""
import re
from sa.cxx2py import CxxProgram, load_table
from sa.cinterp import CxxSuite

# state dictionaries, printing and copying are other properties (C02, C05) or not observable here
SKIP = r"(dumpExtra|loadExtra|swap__\d+|print\w*|disp\w*|insert__\d+|load__\d+|insertWithPrefix|getDPNames|getName|getTypeName|getDataTypeName|getCalibrationInfo|applySWA|swaWeights)$"

D = "rpu_%s_device"
TABLE = {
    "C34": ["rpu_forward_backward_pass", "math_util", "utility_functions"],
    "C35": ["sparse_bit_line_maker", "dense_bit_line_maker", "rpu_weight_updater", "rpu_pulsed_meta_parameter", "rng"],
    "C36": [D % "transfer", D % "buffered_transfer", D % "chopped_transfer", D % "dynamic_transfer"],
    "C37": [D % "vector", D % "onesided", "rpu_mixedprec_device_base", D % "mixedprec", D % "mixedprec_int"],
    "C38": ["weight_modifier", "weight_clipper", "weight_remapper", "weight_drifter"],
    "C39": ["rpu", "rpu_pulsed"],
    "C40": [D % "simple", D % "pulsed", D % "constantstep", D % "linearstep", D % "expstep", D % "powstep", D % "powstep_reference", D % "piecewisestep",
            D % "softbounds_reference", D % "hidden"],
}


def agree(ctx, prop, rule="agrees"):
    prog = CxxProgram(ctx.cxx(), load_table())
    suite = CxxSuite(ctx, prog, "*")
    pre = tuple("rpucuda.%s." % m for m in TABLE[prop])
    mine = lambda q: q.startswith(pre) and not re.match(SKIP, q.rpartition(".")[2])      # noqa: E731
    only = {s.qual for s in suite.specs if mine(s.qual)}
    suite.missing = [m for m in suite.missing if mine(m)]
    suite.run(rule, only)
    ctx.count("functions and defaults compared with their reference", len(only))
