from vc.runner import Prop
from contracts import purge as K
from props.e_index import purge_e2e


class P(Prop):
    id = "C06"
    files = ["db", "tok", "reader", "mbox"]
    contracts = K.CONTRACTS
    lemmas = K.LEMMAS
    e2e = [purge_e2e]
    budget = 700.0
    trusted = ["the bytes of the lists are read and written as C01 says", "the table handed to recode_toktable is well formed (C03)", "messages of type mbox name an mbox that is still there (C13)"]
    unverified = ["check_database_integrity"]
