from .common import *
from secrets_ import *
level = 'other'
explanation = 'Taint analysis over the provenance terms: on every abstract exchange each written message, callback context, action value, error value and printed value is searched for secrets of the application (passwords, tokens, salted, cached, stored and derived keys) that occur outside the releasing constructions.'
rule = PATH_RULE + ': a secret term may occur in an output only as an HMAC key, under PBKDF2, in XOR with HMAC(key, AuthMessage) or (PLAIN, LOGIN, XOAUTH2, OAUTHBEARER) once in the message; derived keys only as value of the caching action; mechanisms without secrets never request one'
assumptions = TRUST + ['error values of the standard library and stringprep carry positions or single characters, not the input']
floors = {'secret requests': 500, 'writes': 200, 'contexts': 100, 'error values': 3000, 'secrets in their field': 10, 'cache actions': 100}
def exchange(x, V):
    check_secrets(x, V)
