from .common import *
from rules import *
level = 'other'
explanation = 'Every abstract exchange of every registered mechanism is followed from its constructor to its end; validation events (with their outcome) are counted along each exchange, loop bodies included.'
rule = PATH_RULE + ": a finished server exchange contains exactly one validation event, outside loops, whose outcome is Ok, or (SCRAM) its last message is the protocol's e= rejection; a step whose validation failed returns Err; client exchanges contain none"
assumptions = TRUST
floors = {'client exchanges': 3000, 'failing validations': 15, 'finished server exchanges': 150, 'rejections by the mechanism': 50}
def exchange(x, V):
    check_validation(x, V)
