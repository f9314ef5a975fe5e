from .common import *
from scram import *
level = 'other'
explanation = 'Messages and cryptographic inputs of every abstract SCRAM exchange, client and server, are compared as terms with the RFC 5802 construction over the values of that exchange.'
rule = PATH_RULE + ': message layouts, AuthMessage, ClientKey/ServerKey/StoredKey/proof/signature formulas, key provenance'
assumptions = TRUST + ['the password is used as the application gives it (rsasl leaves SASLprep of it to the application) or saslprepped']
floors = {'client-final messages': 500, 'accepting paths': 30, 'challenges': 60}
def selects(m, side): return is_scram(m)
def exchange(x, V):
    if x.side == 'client':
        for cp in client_exchanges(x):
            check_client_transcript(cp, V)
    else:
        for sp in server_exchanges(x):
            if sp.first is not None:
                V.count('challenges')
                if server_first(sp, V):
                    check_server_accept(sp, V, 'C03')
