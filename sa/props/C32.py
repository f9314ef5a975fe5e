from .common import *
import vectored
level = 'other'
explanation = 'The crate\'s only loop over partial writes, the write_all_vectored of VectoredWriter, is analysed from every state (any number of its buffers already gone, the rest of arbitrary length) of writers of one to eight buffers, each round with an arbitrary number of accepted bytes.'
rule = 'induction over the rounds of the writer loop by abstract interpretation of its MIR: each round hands out exactly the bytes not accepted so far, in order, for every accepted length, and it ends successfully only when all were accepted'
assumptions = TRUST[:2] + ['a writer reports at most as many bytes as it was offered', 'a writer of more than eight buffers behaves like one of eight: the code treats the number of buffers uniformly']
floors = {'writer states': 4, 'writes by the writer loop': 200, 'ends of the writer loop': 100}


def check_loop(f, V):
    vectored.check_writes(f, V)


statics = ['check_loop']
