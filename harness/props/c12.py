"""C12: math helper functions compute what they document."""
from hypothesis import strategies as st

from harness import mathcomp as mc

PID = "C12"
RULE = (
    "Random helper-function calls (sum, reduce_carrier_dim, select_from_lookup_arrays in one and "
    "two dimensions, get_val_at_index, roll, sum_next_n, where, group_sum, group_datetime, alone "
    "and inside arithmetic) on parameters, decision variables, global expressions and arithmetic "
    "over them, with missing cells, in 16 generated worlds; compared cell by cell with the "
    "element-wise definition. (any/defined are compared in C10's conditions and, here, as "
    "component conditions.) Non-trivial: at least one cell compared."
)
ASSUMPTIONS = ["Arithmetic inside a sum over a dimension that is also in foreach is not generated."]
EXAMPLES = {"quick": 1200, "thorough": 30000}
SECONDS = {"quick": 35, "thorough": 600}


def strategy(tier):
    return mc.component(True)


def run(c, rec):
    mc.run_component(c, rec)
