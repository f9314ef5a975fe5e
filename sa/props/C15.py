from .common import *
from callbacks import *
level = 'other'
explanation = 'need_with, maybe_need_with and action are analysed with every scripted application of up to two operations (answer with the requested or another property, by value or closure, passing the result on or dropping it; take an action; fail in each way), symbolic values and closures throughout.'
rule = 'abstract interpretation of MIR of the callback machinery against scripted abstract applications; the oracle is the documented outcome of each script: evaluated closures, values delivered, results seen by the application and by the mechanism'
assumptions = TRUST[:2] + ['two different property types have different type identities']
floors = {'applications that answer': 250, 'applications that act': 80, 'outcomes of requests': 500, 'answers given': 500}
statics = ['check_asks', 'check_actions']
