from vc.runner import Prop
from contracts import dirs as D
from props.e_config import folders_e2e


class P(Prop):
    id = "C17"
    files = ["mbox", "dirscan"]
    contracts = [D.ValidMh] + D.FOLDERS
    e2e = [folders_e2e]
    trusted = ["opendir, readdir and stat as in POSIX; the tree does not change while it is read", "is_globber_array_match and is_glob_match decide by the path alone (C16 proves what they decide)",
               "paths shorter than a megabyte"]
    unverified = ["glob_and_expand_paths, build_message_list (loops over the entries and the folders found)", "build_mbox_lists (symbolic links)",
                  "mairix.c parse_rc_file, expandstr.c expand_string (configuration file and environment)"]
