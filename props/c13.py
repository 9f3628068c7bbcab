from vc.runner import Prop
from contracts import mboxes as K, updates as U
from props.e_index import hist_e2e


class P(Prop):
    id = "C13"
    files = ["mbox", "db"]
    contracts = K.KEPT + U.CONTRACTS
    e2e = [hist_e2e]
    trusted = ["the intact messages of a known mbox are its first ones (the appending and truncating a mail program does)",
               "strcmp is a total order",
               "what stat says about a file does not change during a run", "the list of files found is sorted and free of duplicates (build_message_list)"]
    unverified = ["build_mbox_lists", "create_ro_mapping", "scan_one_type"]
