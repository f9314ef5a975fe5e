from .common import *
from refusal import *
level = 'other'
explanation = 'Every OAUTHBEARER and XOAUTH2 exchange is followed on both sides; the JSON form of the error is read from the derived code run on scripted field lists.'
rule = PATH_RULE + ": server: a step on which the application's answer is an error writes exactly that error and is Running (the next step only ends the exchange); an accepting answer finishes without writing; client: a step with a non-empty answer finishes only after the application was told, by the action of the mechanism, exactly the fields or text received; the encoder's and decoder's field names are those of RFC 7628 and no decoded field needs text without escapes"
assumptions = TRUST + ['serde_json writes and reads JSON as its documentation says; serde derive passes each value to the field whose name its field visitor returns']
floors = {'refused tokens': 3, 'accepted tokens': 2, 'errors received': 4, 'empty answers': 3, 'objects decoded': 10, 'objects written': 2}
statics = ['check_form']
def exchange(x, V):
    check_server(x, V)
    check_client(x, V)
