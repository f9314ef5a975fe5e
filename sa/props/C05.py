from .common import *
from scram import *
level = 'other'
explanation = 'On every abstract exchange of every SCRAM mechanism and side the GS2 flag, the binding data and the availability of -PLUS known on the path are related; the client is explored from its constructor and from every state its selector can reach over any offer list.'
rule = PATH_RULE + ": client flag == what it does ('p=' name with data of that name in c=, 'y' iff started by its selector without -PLUS offered, else 'n'); server challenges no 'y' when started with registries that have its -PLUS, -PLUS only 'p=', and accepts only against data obtained for the announced name"
assumptions = TRUST
floors = {'client-first messages': 500, 'challenges': 300, 'bound accepts': 10, 'unbound accepts': 10, 'unoffered -PLUS starts': 10, 'scram units': 12, 'registries tried': 4, 'bound client-firsts': 20}
def selects(m, side): return is_scram(m)
def exchange(x, V):
    V.count('scram units')
    if x.side == 'client':
        for cp in client_exchanges(x):
            check_client_binding(cp, V)
    else:
        for sp in server_exchanges(x):
            check_server_flag(sp, V)
            check_server_accept(sp, V, 'C05')
        check_downgrade(x, V)
