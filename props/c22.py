from vc.runner import Prop
from contracts import decode as K
from props.e_config import robust_e2e


class P(Prop):
    id = "C22"
    files = ["rfc822"]
    contracts = K.CONTRACTS
    e2e = [robust_e2e]
    unverified = ["the other functions of rfc822.c, nvp.c, mbox.c"]
