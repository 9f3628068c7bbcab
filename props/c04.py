from vc.runner import Prop
from props.e_index import round_e2e


class P(Prop):
    id = "C04"
    e2e = [round_e2e]
