from .common import *
from rules import *
level = 'other'
explanation = 'For every step of every abstract exchange the outcomes with an input message are compared with those without one.'
rule = PATH_RULE + ": if a step's outcome depends on its input then without input it returns SessionError::InputDataRequired and has no callback, validation or write event before that; exempt: the first step of the first-speaking side and steps for which an empty message is meaningful (ANONYMOUS and EXTERNAL server, second XOAUTH2/OAUTHBEARER client step)"
assumptions = TRUST
floors = {'steps that need input': 500, 'refusals without input': 500}
def exchange(x, V):
    check_input_required(x, V)
