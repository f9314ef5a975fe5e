from .common import *
from sessions import *
from starting import check_sides
level = 'other'
explanation = 'Sessions started for a client and for a server must know their side, mechanism and implementation. Session::step, step64, encode, decode, has_security_layer, get_mechname and are_we_first are analysed on their polymorphic bodies for both sides, with and without input, from a session and configuration built by their own constructors, around an abstract mechanism that validates, asks and requests binding data and then succeeds or fails; all statics, types and calls of the crate are searched for shared mutable state.'
rule = 'abstract interpretation of the polymorphic MIR of Session and its construction: the mechanism receives exactly this input, writer, callback, binding provider, description and side and its result is returned unchanged; step64 wraps the caller\'s writer in the standard encoder and ends it; plus a type and effect query: no mutable, thread-local or non-freeze static, no interior mutability in shared types, no hand-written Send or Sync'
assumptions = TRUST[:2] + ['base64::write::EncoderWriter and base64::Engine::decode implement base64 for the engine given to them']
floors = {'steps forwarded': 8, 'callbacks observed': 16, 'binding data requests observed': 8, 'operations forwarded': 6, 'base64 steps': 8, 'statics': 6, 'shared types': 20, 'sessions': 8, 'server sessions': 2}
statics = ['check_step', 'check_rest', 'check_base64', 'check_sides', 'check_shared']
