from .common import *
from honest import explore
level = 'other'
explanation = 'Every exchange of every mechanism but GSSAPI is followed with messages given as constants and fields of the grammar (any length and content the grammar allows); no possible path may end in an error that is not the application\'s, the writer\'s or the secret\'s.'
rule = PATH_RULE + ": the peer's messages are those of the mechanism's specification, with every optional part present and absent; questions about them are answered from the structure of the message and left open where they depend on what a field holds; a step that fails, or is answered with a SCRAM error, is excused only by a failing writer, callback or validation, a missing property, text SASLprep refuses or keys that do not match (the registry of the -PLUS-less server has every other mechanism, so nothing is a downgrade); every conversation has a path on which it completes"
assumptions = TRUST + ['the grammar of each message is that of RFC 4616, 5802, 4505, 4422 A, 7628 and of the LOGIN and XOAUTH2 documentation, as scripted in sa/honest.py']
floors = {'conversations': 60, 'completed': 60, 'exchanges': 300}
