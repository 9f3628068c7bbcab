from vc.runner import Prop
from contracts import fs as K
from props.e_config import results_e2e


class P(Prop):
    id = "C21"
    files = ["search", "dirscan"]
    contracts = K.NAMING
    uses = [K.ValidMh]
    e2e = [results_e2e]
    trusted = ["fprintf, fputs and fwrite write what they are given"]
    unverified = ["do_search (the loops over the results)", "get_validated_mbox_msg", "try_copy_to_path", "append_mboxmsg_to_mbox", "create_dir"]
