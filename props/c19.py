from vc.runner import Prop
from contracts import fs as K
from props.e_config import mfolder_e2e


class P(Prop):
    id = "C19"
    files = ["search", "dirscan"]
    contracts = K.CLEARING
    e2e = [mfolder_e2e]
    trusted = ["readdir, lstat and unlink as in POSIX; nobody changes the match folder between lstat and unlink"]
    unverified = ["search_top (clears the match folder only without -a)", "member_of and main (refusal of a match folder that is an indexed folder)", "try_copy_to_path, create_symlink (new names only)"]
