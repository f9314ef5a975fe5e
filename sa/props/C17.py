from .common import *
from unsafe_ import *
level = 'other'
explanation = 'Every unsafe operation in the MIR of the crate (raw pointer reads, transmutes and pointer casts, calls of unsafe functions, unsafe impls, statics and unions) is enumerated. Each reinterpretation must be between a transparent wrapper and the type of its single field (compared modulo lifetimes), or lie behind a comparison of the type identity recorded for that very object with the target, or turn bytes into text that are known to be ASCII on that path; type identities are checked against the tag of each erased type.'
rule = 'enumeration over MIR of unsafe operations; per operation, type relation by layout attribute and field type, path facts from abstract interpretation for guarded downcasts and text'
assumptions = TRUST[:2] + ['code expanded from the linkme and formatting macros is as sound as those crates']
floors = {'bodies searched': 300, 'unsafe operations': 8, 'reinterpretations': 8, 'downcasts behind a type comparison': 4, 'between a transparent wrapper and its content': 1, 'bytes taken as text': 1, 'identities read': 4, 'types that can be erased': 1, 'impls searched': 100}
statics = ['check_unsafe', 'check_identity', 'check_unsafe_items']
