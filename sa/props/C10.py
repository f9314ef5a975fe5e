from .common import *
from totality import *
level = 'other'
explanation = 'Every loop of the control flow graphs reached by any abstract exchange, session, request or start needs an argument that it ends: a finite iterator (by its type) moved in every round and not renewed, or a quantity which the abstract run shows to move towards a bound in every round. The writer loop is decided by induction over its rounds. Calls that come back to a function already running are followed; the run must end. Iterator consumers must not be given an iterator without end.'
rule = 'natural loops of MIR control flow graphs: no round avoids every progress step; type-based finiteness of iterators; state graph of the crate\'s own iterators has no yielding cycle; abstract interpretation completes without open recursion'
assumptions = TRUST + ['the list of offered mechanism names given to the client ends', 'library calls return (including the writer\'s and the application\'s)']
floors = {'loops': 2, 'iterator consumers': 2, 'exchanges that end': 500, 'rounds of the writer loop': 20}
statics = ['check_framework_ends', 'check_writer_ends']


def exchange(x, V):
    check_exchange_ends(x, V)
