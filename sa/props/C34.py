from .common import *
from contexts import *
level = 'other'
explanation = "Context::get_ref and get_mut are analysed with every scripted provider of up to three offers (property asked for or another, by reference or mutably), through build_context, `and`, ThisProvider, EmptyProvider and the default provide_mut; the binding data requests with every source of data and scripted application."
rule = 'abstract interpretation of the polymorphic MIR of Context, Demand, Tagged, the provider combinators and the binding data requests against scripted abstract providers and applications; the oracle is: the first offer of the property asked for, given in the way asked for, or nothing'
assumptions = TRUST[:2] + ['two different property types have different type identities', 'a provider returns as soon as a demand is answered (documented convention of Provider, followed by all of this crate)']
floors = {'questions asked': 150, 'answers compared': 150, 'outcomes of requests for binding data': 40, 'answers of binding data suppliers': 3}
statics = ['check_contexts', 'check_combinators', 'check_binding', 'check_suppliers']
