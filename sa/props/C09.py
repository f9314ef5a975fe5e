from .common import *
from totality import *
level = 'other'
explanation = 'Every abstract exchange is followed with arbitrary peer input and arbitrary callback values; each MIR assertion (bounds, overflow, division), slicing, unwrap, length-checked copy and explicit panic on the way is an obligation the run must discharge. The same for sessions, requests, actions, validations, name parsing, starting clients and servers and the vectored writer.'
rule = PATH_RULE + ': no path on which a panicking operation is feasible in a state of a live exchange; a call of a panicking library function without a model counts as undischarged'
assumptions = TRUST + ['allocation succeeds', 'a message is shorter than isize::MAX bytes']
floors = {'exchanges without panic': 500, 'panicking operations excluded': 50, 'framework parts': 8}
statics = ['check_framework_panics', 'check_writer_panics']


def exchange(x, V):
    check_exchange_panics(x, V)
