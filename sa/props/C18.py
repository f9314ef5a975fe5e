from .common import *
from starting import *
level = 'other'
explanation = 'SASLClient::start_suggested_iter is followed from a configuration built by the crate\'s constructors, over some 600 combinations of registry contents (every entry with and without client implementation, pairs, triples, all) and offered names (matching, near misses, repeated, an unknown name), with the application\'s preference and its channel binding switch answering every way they can; in addition every selector is explored as a finite machine over all sequences of offered names.'
rule = 'abstract interpretation of the polymorphic MIR of the start path; oracle: every eligible entry is put to the application exactly once against the current choice, the session runs and reports the choice kept at the end, no choice means NoSharedMechanism; selectors choose their own entry exactly when its name was offered, -PLUS never without channel binding'
assumptions = TRUST[:2] + ['a registry longer than those followed is walked the same way: the walk is a loop over its entries']
floors = {'starts': 300, 'outcomes': 3000, 'sessions': 2000, 'selectors': 20, 'selector ends': 40, 'default starts': 100}
statics = ['check_clients', 'check_machines', 'check_defaults']
