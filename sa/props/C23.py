from .common import *
from layers import *
level = 'other'
explanation = 'In every distinct situation of every abstract exchange (fresh, between steps, finished, failed) of every mechanism and side, has_security_layer, encode and decode of the mechanism object are analysed; for every finished GSSAPI exchange the offered, accepted and selected layer bytes are evaluated over all values the path allows.'
rule = PATH_RULE + ': the three operations agree on whether a layer is active, only a finished negotiation activates one, and without one they fail with the "no security layer" error and neither wrap, unwrap nor write; finite-domain evaluation of the layer bytes: selected is non-empty, within the offer and within what the application accepts, a layer is active iff one was selected, data is encrypted iff confidentiality was selected'
assumptions = TRUST + ['a wrap or unwrap of the GSS context returns what the library specifies (confidentiality of wrap is what its flag requests)']
floors = {'situations asked for a layer': 400, 'situations with a layer': 10, 'protected transfers': 20, 'finished negotiations': 300, 'offers': 400, 'selections compared': 20, 'offers held against the application': 1000, 'selections held against the application': 1000}


def exchange(x, V):
    check_ops(x, V)
    if x.mech.name == 'GSSAPI':
        check_negotiation(x, V)
