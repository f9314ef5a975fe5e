from .common import *
from starting import *
level = 'other'
explanation = 'SASLServer::start_suggested and get_available are followed for registries of up to three entries about which nothing is known but whether they have a server implementation, and a requested name about which nothing is known.'
rule = 'abstract interpretation of the polymorphic MIR of the start path; oracle: a session starts only on a path where the requested name equals the entry\'s, the entry has a server implementation and the session holds what that implementation\'s constructor returned; NoSharedMechanism only where the name equals none of the servable entries; the announced list is the servable entries in order'
assumptions = TRUST[:2] + ['a registry longer than those followed is walked the same way: the walk is a loop over its entries']
floors = {'announced lists': 8, 'server starts': 8, 'server outcomes': 15, 'server sessions': 6}
statics = ['check_servers']
