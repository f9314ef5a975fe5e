from .common import *
from sessions import *
level = 'other'
explanation = 'A session fresh from its constructors is stepped with an abstract mechanism that validates, and an abstract callback that performs every sequence of up to two operations per validation (with/finalize, own or another type, passing errors on or not) over up to two steps, with symbolic values and closures; the session result is then taken twice.'
rule = 'abstract interpretation of the polymorphic MIR of Session, MechanismData::validate, Validate and Tagged against scripted abstract mechanisms and callbacks; the oracle is: first value under the own type wins, nothing else is evaluated or stored, taken once'
assumptions = TRUST[:2] + ['two different validation types have different type identities']
floors = {'sessions scripted': 150, 'histories of a validation': 200, 'answers given': 300}
statics = ['check_results']
