from vc.runner import Prop
from contracts import dbs as K
from props.e_search import thread_e2e


class P(Prop):
    id = "C07"
    files = ["db"]
    contracts = K.THREADS
    lemmas = K.LEMMAS
    e2e = [thread_e2e]
    budget = 600.0
    trusted = ["the lists of the message-id table are read as they were recorded (C01)"]
    unverified = ["add_angled_terms", "the -t expansion in do_search"]
