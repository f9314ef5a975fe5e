from .common import *
from wellformed import *
level = 'other'
explanation = 'At every step in which a SCRAM side goes on after a peer message (and at every lookup made from one) the facts of the path about that message are compared with the grammar of RFC 5802: attribute letters in their places, flag and binding name, text and nonce characters, number of attributes, skipped extensions per abstract loop round; the error value table is evaluated in both directions.'
rule = PATH_RULE + ': going on after a message => its attributes in order under their letters, nothing behind the last one of server-first and client-final, no attribute skipped that may be m=, character sets of binding name and nonce, UTF-8 names; e= values: read(write(v)) == v'
assumptions = TRUST + ['oracle: grammar of RFC 5802 section 7, written in sa/wellformed.py; optional extensions after the nonce of client-first and before the proof of client-final may be passed over']
floors = {'SCRAM sides': 10, 'client-first messages': 100, 'client-final messages': 100, 'server-first messages': 50, 'server-final messages': 10, 'errors read': 50, 'errors sent': 20}
def selects(m, side): return m.name.startswith('SCRAM-')
def exchange(x, V):
    check_messages(x, V)
    check_errors(x, V)
