from .common import *
from starting import *
level = 'other'
explanation = 'Every static of type Mechanism is read through constant evaluation of its initialiser; its client and server functions are followed to the type of the object they create, its selector through the states it can reach; registries and configuration made from plain credentials are built through the crate\'s constructors.'
rule = 'constant evaluation and abstract interpretation of MIR; oracle: name grammar, uniqueness, object type of the same mechanism, side and hash (core type and output size), own selector, first-speaking side of the mechanism\'s specification, ranking; password-only registries, LOGIN only without authorization identity, credentials answered under their own property'
assumptions = TRUST[:2] + ['the path of a mechanism\'s module names the mechanism (rsasl::mechanisms::<name>)']
floors = {'entries': 6, 'implementations': 20, 'rankings': 12, 'credential registries': 3, 'credential answers': 8, 'selectors': 20}
statics = ['check_bindings', 'check_credentials', 'check_own_selectors']


def check_own_selectors(f, V):
    import rules
    check_machines(f, rules.Only(V, ('selects-another', 'never-selected', 'selector-implementation', 'offered-but-not')))
