from .common import *
from rules import *
level = 'other'
explanation = 'The abstract state graph of every mechanism is explored to its end; from every distinct final object state of the SCRAM and GSSAPI mechanisms (after Ok(Finished) and after Err) one more step is analysed with an arbitrary message and with none.'
rule = PATH_RULE + ': no step after the end returns Ok, validates, writes or asks the application; every intermediate protocol state has an accepting successor; a SCRAM side never keeps its state over a successful step and writes at most two messages; the exchange is bounded'
assumptions = TRUST
floors = {'end states': 8, 'intermediate states': 400, 'steps after the end': 6}
def exchange(x, V):
    check_forward_only(x, V)
