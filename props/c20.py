from vc.runner import Prop
from contracts import conds
from props.e_search import sort_e2e


class P(Prop):
    id = "C20"
    files = ["search"]
    contracts = [conds.DateCmp]
    e2e = [sort_e2e]
    trusted = ["qsort sorts according to a total preorder and permutes its input"]
