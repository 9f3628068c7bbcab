from vc.runner import Prop
from contracts import conds
from props.e_search import size_e2e


class P(Prop):
    id = "C09"
    files = ["search"]
    contracts = [conds.ParseSize, conds.ParseRange, conds.FindSize]
    e2e = [size_e2e]
    trusted = ["sscanf(\"%ld%n\") returns the decimal number at the start of its argument and how many characters it took",
               "size_table holds the message sizes (C04, C13)"]
