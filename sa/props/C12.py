from .common import *
from framing import *
level = 'other'
explanation = 'Client: everything a succeeding step writes is laid out as constants, application values and loop rounds and compared with the layout of the mechanism. Server: at each lookup and validation the facts the path established about the peer message must include every part of the framing.'
rule = PATH_RULE + ': client message == layout of its specification for the values given, round for round; server lookup/validation => number of parts, constant prefixes and terminators and UTF-8 of text fields are facts of the path'
assumptions = TRUST + ['oracle: layouts of RFC 4616, RFC 4505, RFC 4422 A, draft-murchison-sasl-login, RFC 7628 and the XOAUTH2 documentation, written in sa/framing.py']
floors = {'client mechanisms': 6, 'messages compared': 20, 'server mechanisms': 6, 'validations and lookups': 15, 'rounds over extra fields': 2}
def exchange(x, V):
    check_layout(x, V)
    check_framing(x, V)
