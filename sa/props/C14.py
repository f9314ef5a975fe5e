from .common import *
from rules import *
level = 'other'
explanation = 'Every step of every abstract exchange that reports Finished is listed with its write events and the MessageSent constant it returns.'
rule = PATH_RULE + ': MessageSent::No => no write event in this step; the flag is a constant on every path; a Running result is a message by construction of the State type'
assumptions = TRUST
floors = {'finishing steps': 700, 'finished with message': 300, 'finished without message': 300, 'answers of State': 9}
statics = ['check_state_predicates']
def exchange(x, V):
    check_message_sent(x, V)
