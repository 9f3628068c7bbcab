from vc.runner import Prop
from contracts import mboxes as K
from props.e_index import from_lines, mbox_e2e


class P(Prop):
    id = "C12"
    files = ["mbox"]
    contracts = K.SPLIT
    e2e = [from_lines, mbox_e2e]
    trusted = ["the separator automaton's tables: compared exactly with the regular language of the manual (from_lines)",
               "fewer than 2^31 messages in one mbox", "no verbose output"]
    unverified = ["add_mbox_messages (copies the positions found)", "decompression (zlib, bzip2)"]
