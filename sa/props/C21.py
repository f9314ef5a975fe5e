from .common import *
from names import *
level = 'other'
explanation = 'Every function that returns a mechanism name is analysed with an arbitrary argument: each way to succeed must have established that the string is not empty and that all its bytes are in the allowed set, each refusal must name the first byte outside it; call sites of the private unchecked constructor are enumerated and judged by what they pass; the names of the registered mechanisms are read off their constants.'
rule = 'abstract interpretation of MIR of every function making a Mechname, with byte-set facts per element; enumeration of the call sites of unchecked constructors and of impls giving mutable access'
assumptions = TRUST[:2]
floors = {'functions making names': 2, 'ways to refuse a name': 2, 'built-in names': 8, 'ways to make a name': 2, 'calls of unchecked constructors': 4}
statics = ['check_parse', 'check_builtin', 'check_escape']
