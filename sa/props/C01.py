from .common import *
from scram import *
level = 'other'
explanation = 'Every abstract exchange of every registered SCRAM server mechanism is enumerated from the MIR; each one that reaches validation or sends a server signature must, on that very path, have passed the nonce, channel-binding and proof comparisons over terms of this exchange.'
rule = PATH_RULE + ': accept => nonce == client nonce||server nonce, b64d(c) == gs2 header||binding, H(proof XOR HMAC(StoredKey, AuthMessage)) == StoredKey of the named user, hash of the mechanism name'
assumptions = TRUST
floors = {'accepting paths': 30, 'server mechanisms': 6}
def selects(m, side): return is_scram(m) and side == 'server'
def exchange(x, V):
    V.count('server mechanisms')
    n = 0
    if alg_of(x.mech) is None:
        V('unknown-hash', 'no hash known for mechanism %s' % x.mech.name)
        return
    for sp in server_exchanges(x):
        check_server_accept(sp, V, 'C01')
        n += sp.accept is not None
    if not n:
        V('no-accepting-path', 'no path of this server accepts a client: the rule has nothing to check')
