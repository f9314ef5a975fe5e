from .common import *
from scram import *
level = 'other'
explanation = 'Every client-first and server-first of every registered SCRAM mechanism on every abstract exchange is taken apart; the own nonce and the decoy salt must be terms that are independent draws from the thread or OS generator made in this exchange.'
rule = PATH_RULE + ': own nonce == >= 18 characters, each a separate draw (draw numbers differ) from an OS seeded generator over a constant alphabet of > 60 distinct printable characters without comma; salt without stored password == fresh random bytes'
assumptions = TRUST + ['rand::thread_rng is seeded by the operating system']
floors = {'client nonces': 500, 'server nonces': 300, 'decoy salts': 30, 'stored salts': 100, 'scram units': 12}
def selects(m, side): return is_scram(m)
def exchange(x, V):
    V.count('scram units')
    if x.side == 'client':
        for cp in client_exchanges(x):
            check_fresh(cp, V, False)
    else:
        for sp in server_exchanges(x):
            check_fresh(sp, V, True)
