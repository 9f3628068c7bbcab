from vc.runner import Prop, NOT_SEARCH
from contracts import matching as M, tables as T, postings
from props.e_search import words_e2e


class P(Prop):
    id = "C02"
    files = ["search", "reader", "mbox"]
    contracts = M.CONTRACTS + T.CONTRACTS
    uses = [c for c in T.SUPPORT if c not in M.CONTRACTS]
    lemmas = M.LEMMAS
    native = [dict(src="c02.c", link=NOT_SEARCH, rule="all patterns and words of up to 4 letters over a 3-letter alphabet, seeded random patterns up to 31 and words up to 80 bytes, seeded random database images; non-trivial = alignment with fewer than 3 errors, or a table whose marks are compared")]
    e2e = [words_e2e]
    trusted = ["the database is well formed (its writer is the subject of C04)", "substring with an error count and '^' together is not specified by the manual and not constrained"]
    budget = 700.0
