from .common import *
from rules import *
import vectored, sessions, layers, totality
level = 'other'
explanation = 'Every successful step of every abstract exchange is searched for failed or partly accepted writes; the encode and decode operations of every mechanism object with a layer likewise; the writer loop of VectoredWriter is decided by induction over its rounds for writers of one to eight buffers; step64 is analysed on its polymorphic body around an abstract mechanism.'
rule = PATH_RULE + ': Ok => no failed and no partly accepted write in this step; the vectored writer hands out exactly the bytes not yet accepted, in order, and ends only when all are; step64 ends its encoder after the step and reports a failure to do so'
assumptions = TRUST + ['a writer reports at most as many bytes as it was offered', 'core2::io::Write::write_all and base64::write::EncoderWriter hand over every byte or fail']
floors = {'complete writes': 1000, 'successful steps': 1500, 'writer states': 4, 'base64 steps': 12, 'protected transfers': 20}


def exchange(x, V):
    check_complete(x, V)
    layers.check_ops(x, Only(V, ('encode-failure-ignored', 'decode-failure-ignored', 'encode-output', 'decode-output')))


def check_writer_loop(f, V):
    vectored.check_writes(f, Only(V, ('foreign-', 'wrong-', 'write-error', 'incomplete', 'no-vectored')))


def check_writer_idle(f, V):
    totality.check_writer_ends(f, V)


def check_base64_end(f, V):
    sessions.check_base64(f, Only(V, ('finish-ignored', 'unfinished', 'encoder')))


statics = ['check_writer_loop', 'check_writer_idle', 'check_base64_end']
