from .common import *
from scram import *
level = 'other'
explanation = 'Every abstract exchange of every registered SCRAM client mechanism is enumerated from the MIR; proofs, success and key caching must be dominated by the comparisons RFC 5802 requires.'
rule = PATH_RULE + ': Finished or key caching => b64d(v) == HMAC(ServerKey, AuthMessage) known on the path; proof written => server nonce extends client nonce and iteration count parsed and non-zero'
assumptions = TRUST
floors = {'proofs sent': 500, 'successful ends': 100, 'cache offers': 50, 'client mechanisms': 6}
def selects(m, side): return is_scram(m) and side == 'client'
def exchange(x, V):
    V.count('client mechanisms')
    fin = 0
    for cp in client_exchanges(x):
        W = Quiet()
        check_client_transcript(cp, W)
        check_client_gate(cp, V)
        fin += cp.steps[-1]['kind'] == 'Finished'
    if not fin:
        V('no-successful-path', 'no path of this client finishes: the rule has nothing to check')
class Quiet:
    def __call__(self, *a, **k): pass
    def count(self, *a): pass
