from vc.runner import Prop
from contracts import dates
from props.e_search import date_e2e, date_kinds


class P(Prop):
    id = "C11"
    files = ["dates", "search"]
    contracts = dates.CONTRACTS
    e2e = [date_kinds, date_e2e]
    trusted = ["mktime, localtime and time behave as in the C standard; mktime leaves a real calendar date alone",
               "scan_date_expr is a function of the expression, the default date and the current time"]
    budget = 600.0
