from vc.runner import Prop
from contracts import conds
from props.e_search import flag_e2e


class P(Prop):
    id = "C10"
    files = ["search"]
    contracts = [conds.FindFlag, conds.GetFlags]
    e2e = [flag_e2e]
    trusted = []
