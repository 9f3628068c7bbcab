from vc.runner import Prop
from contracts import locks as K
from props.e_config import lock_e2e


class P(Prop):
    id = "C18"
    files = ["dotlock"]
    contracts = K.CONTRACTS
    e2e = [lock_e2e]
    trusted = ["link(2) is atomic: it makes the lock file, or fails with EEXIST because the lock file is there, or fails for another reason", "nothing else removes or replaces the lock file while it is held"]
    unverified = ["main (locks before it works on the database, unlocks on every way out)", "the signal handlers"]
