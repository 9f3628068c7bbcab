from vc.runner import Prop
from contracts import words as K
from props.e_index import tokens_e2e, mime_e2e


class P(Prop):
    id = "C15"
    files = ["db"]
    contracts = K.CONTRACTS
    e2e = [tokens_e2e, mime_e2e]
    trusted = ["the characters are classified as in the C locale (isalnum is true exactly for ASCII letters and digits)"]
    unverified = ["tokenise_message (which headers are cut with which mask)"]
