from .common import *
from framing import *
level = 'other'
explanation = 'Every application value in every buffer a client writes, on succeeding and failing abstract exchanges and in each abstract iteration of a loop, is followed back to the property it comes from; what the path knows about its bytes must exclude the separators of the message, or the value must be the image of the escape function, whose effect on every ASCII character is computed from its MIR.'
rule = PATH_RULE + ': bytes of each written value exclude the separators of the mechanism (PLAIN: NUL; XOAUTH2, OAUTHBEARER: 0x01, and = in keys; GS2 header and SCRAM: , and = unless sent as =2C and =3D, NUL), PLAIN and SCRAM names and PLAIN passwords are not empty'
assumptions = TRUST + ['oracle: separators of RFC 4616, RFC 5802, RFC 7628 and the XOAUTH2 documentation']
floors = {'values written': 100, 'escaped values': 50, 'values that must not be empty': 100}
def selects(m, side): return side == 'client'
def exchange(x, V):
    check_values(x, V)
