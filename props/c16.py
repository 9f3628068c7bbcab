from vc.runner import Prop
from contracts import globs as K


class P(Prop):
    id = "C16"
    files = ["glob"]
    contracts = K.CONTRACTS
    native = [dict(src="c16.c", rule="every pattern of up to 3 (thorough 4) elements against every string of up to 4 characters, seeded random patterns of up to 30 elements, random colon-separated lists; non-trivial = pairs that should match, lists of three or more entries")]
    trusted = ["patterns of more than 31 elements (recorded finding)"]
    unverified = ["split_on_colons", "make_globber_array (the loop over the list)", "is_folder_copy-free helpers of dirscan.c that call the matcher"]
