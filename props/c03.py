from vc.runner import Prop
from contracts import toks as K
from props.e_index import table_e2e


class P(Prop):
    id = "C03"
    files = ["tok"]
    contracts = K.CONTRACTS
    e2e = [table_e2e]
    trusted = ["hashfn is a function of the bytes, their number and the key", "a table has at most 2^29 slots", "strcmp compares strings"]
    unverified = ["that probing comes to an end (a table is never full)", "check_and_enlarge_toktable and the callers (tokenise_message)", "writer.c: writing the tables out"]
