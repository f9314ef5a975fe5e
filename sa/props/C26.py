from .common import *
import features
level = 'other'
explanation = 'For every feature selection in the list (each mechanism feature alone, all pairs, all together, under every provider/base64/builder/registry base; thorough: every subset) a witness crate depending on the current tree with exactly these features is type-checked by rustc; it names the mechanisms, the provider and builder entry points the selection must offer and demands Send and Sync for sessions, configurations, callbacks and errors. For each mechanism feature alone and all together the contents of the default registry, built-in and collected, are read from the compiler facts.'
rule = 'rustc accepts the witness of every selection; the default registry holds exactly the mechanisms of the enabled features (no -PLUS variants, which are offered through their base mechanism)'
assumptions = ['the type checker of rustc 1.82.0 (the toolchain the baseline builds with) decides trait bounds and name resolution correctly', 'linkme collects every static placed in its link section']
floors = {'feature selections': 100, 'registries': 20, 'registered mechanisms': 20, 'mechanisms exposed': 150, 'credential registries': 40}
needs_facts = False


def check_selections(f, V):
    features.check_selections(f, V)


def check_registries(f, V):
    features.check_registries(f, V)


statics = ['check_selections', 'check_registries']
once = statics
