TRUST = [
    'rustc (nightly) type checking, trait resolution and MIR construction are right about the crate; the crate is analysed under --all-features',
    'models of the standard library and of the dependencies hmac, digest, pbkdf2, base64, rand, serde_json, stringprep, libgssapi (sa/models.py) describe those calls: names of results, possible failures, possible panics',
    'an application callback passes on the error it gets from answering a request (documented contract of SessionCallback)',
]
PATH_RULE = ('abstract interpretation of MIR from every Mechanism entry (constructor, then step after step) with a provenance domain: '
             'values are terms over peer inputs and callback answers, paths are partitioned by branch outcome, loops with data dependent '
             'bounds are widened; the rule is evaluated on every abstract exchange')
