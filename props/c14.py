from vc.runner import Prop
from contracts import decode as K
from props.e_index import mime_e2e


class P(Prop):
    id = "C14"
    files = ["rfc822"]
    contracts = K.CONTRACTS
    e2e = [mime_e2e]
    trusted = ["the characters are classified as in the C locale"]
    unverified = ["decode_header_value", "do_body, do_multipart, do_attachment, parse_rfc822_headers", "nvp.c"]
