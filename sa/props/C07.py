from .common import *
from ident import *
level = 'other'
explanation = 'On every abstract exchange of every server mechanism each property shown to the validation callback and to credential lookups is a term over the peer message; it is brought to a canonical field (message, separator, part number, bytes cut off) and compared with the field the mechanism specification assigns to that property.'
rule = PATH_RULE + ': validate/lookup context == {property: field of the current exchange per specification}, nothing missing unless the field is known empty, nothing extra, lookup context == validation context; OAUTHBEARER: every iteration over the parts either takes the token or appends exactly that part\'s key and value'
assumptions = TRUST + ['oracle: field tables of RFC 4616, RFC 4505, RFC 4422 A, draft-murchison-sasl-login, RFC 7628, the XOAUTH2 documentation and RFC 5802, written in sa/ident.py']
floors = {'server mechanisms': 12, 'contexts shown': 200, 'lookups compared': 60, 'message parts followed': 2}
def selects(m, side): return side == 'server'
def exchange(x, V):
    check_identity(x, V)
