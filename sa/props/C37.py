from .common import *
from causes import *
level = 'other'
explanation = 'The error of every failing step of every abstract exchange is compared with the failure the step met: the failing request, action, validation, write or library call, or none of them; error values of mechanisms are classified by analysing their kind(); the predicates on errors are analysed on every variant.'
rule = PATH_RULE + ": a failure of the application, writer or security library comes out as its own error, a missing property as NoCallback with its name, missing binding data with the name asked for; errors of the application are never made up; MutualAuthenticationFailed exactly for a wrong server signature, kind Outcome exactly for an error the server sent; is_missing_prop, is_mechanism_error and is_no_callback are true of exactly their variants"
assumptions = TRUST
floors = {'failures passed on': 1500, 'missing properties': 60, 'failures of the mechanism': 1000, 'classified errors': 1000, 'answers of error predicates': 28, 'steps after a successful end': 30}
statics = ['check_predicates']
def exchange(x, V):
    check_causes(x, V)
    check_after_end(x, V)
