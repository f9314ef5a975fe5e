from .common import *
import reentry
level = 'other'
explanation = 'Call graph over the MIR of the crate, instances by type arguments so that each closure passed to a request is its own node; every function reachable from the methods of the types an application holds inside a callback is visited, through trait objects to every implementation.'
rule = 'no path from a method handed out to a callback reaches SessionCallback::callback, SessionCallback::validate or Authentication::step'
assumptions = ['rustc (nightly) resolves calls correctly', 'library code (std and dependencies) calls back only into functions and trait implementations passed to it, which are followed when compiled into the crate', 'the application itself does not step a session from inside its callback (it holds none there)']
floors = {'methods handed out': 5, 'closures run in callbacks': 4, 'issuing calls outside': 1}


def check(f, V):
    reentry.check_reentry(f, V)


statics = ['check']
