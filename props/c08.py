from vc.runner import Prop
from props.e_search import bool_e2e


class P(Prop):
    id = "C08"
    e2e = [bool_e2e]
