from vc.runner import Prop
from contracts import postings as K


class P(Prop):
    id = "C01"
    files = ["tok", "reader"]
    contracts = K.CONTRACTS
    lemmas = K.LEMMAS
    native = [dict(src="c01.c", rule="increment sequences: all triples over 33 boundary increments, all values below 17000, seeded random lists up to 5000 entries; non-trivial = distinct list, encoded, decoded in memory and from a database image, copied, extended, truncated")]
    trusted = ["increments are below 63*2^24 (an index would need more than 10^9 messages)"]
