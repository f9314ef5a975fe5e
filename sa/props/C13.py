from .common import *
from rules import *
level = 'other'
explanation = 'Each failure event (callback error, missing value, validation error, writer error, security-library error, failed decoding of a peer field or application value) on each abstract exchange is followed to the return of the step it happened in.'
rule = PATH_RULE + ": a step with a failure event returns Err, and a failure inside a loop leaves the loop; exempt: the SCRAM client's cache action, and PLAIN's password, which may be bytes"
assumptions = TRUST
floors = {'failures followed': 1500, 'optional cache offers refused': 100}
def exchange(x, V):
    check_no_swallow(x, V)
