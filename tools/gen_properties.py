#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
M="src/mechanisms/"
p("C01","A SCRAM server accepts only after verifying the client's proof",
 "A SCRAM server (every registered hash, bare and -PLUS) sends its server signature and hands the user to validation only if, in this exchange, the nonce the client returned is exactly the client nonce followed by the server nonce it was sent, the channel-binding attribute it returned decodes to exactly the GS2 header and binding data of the first message, and the proof it sent yields the stored key of the named user under the hash of that mechanism. An unknown user, or any failing one of these checks, never reaches validation nor receives a server signature. The proof and the signatures are computed from the values of this same exchange.",
 ["inputs","histories"],"every pair of client messages, every stored credential the application returns, every reachable sequence of steps",
 "The integration tests run a handful of well-formed exchanges and one wrong password; they do not enumerate the combinations of nonce, binding, proof and user that must each be refused.",
 [M+"scram/server.rs",M+"scram/tools.rs",M+"scram/parser.rs"],
 [("final-message checks (binding, nonce, proof) before verifier and validation",M+"scram/server.rs handle_client_final")],
 [("SCRAM server state","what the exchange is waiting for and the values of the first message",M+"scram/server.rs ScramServerState")],
 ["Session::step on the server side","the validation callback"])
p("C02","A SCRAM client succeeds only after verifying the server's signature",
 "A SCRAM client (every registered hash) reports the exchange finished only if the server's last message carries a signature that decodes to exactly the one the client computed for this exchange; an error attribute, a wrong or missing signature makes the step fail. Before sending any proof the client requires that the server's nonce extends its own nonce by at least one byte and that the iteration count is a non-zero number. The derived keys are offered to the application for caching only after the signature was verified.",
 ["inputs","histories"],"every server-first and server-final message, every way the application supplies key material",
 "Tests exercise matching signatures; a server that skips or truncates the signature, or shortens the nonce, is an input the tests do not sample.",
 [M+"scram/client.rs",M+"scram/parser.rs"],
 [("verifier comparison",M+"scram/client.rs handle_server_final"),("nonce and iteration checks",M+"scram/client.rs handle_server_first")])
p("C03","Both SCRAM sides sign the RFC 5802 transcript of the exchange",
 "In every SCRAM exchange the messages written have the RFC 5802 layout (client-first, server-first, client-final, server-final, in this attribute order), and client signature and server signature are each an HMAC over client-first-bare, server-first and client-final-without-proof built from exactly the nonces, salt, iteration count, user name and channel-binding attribute that were put on or read from the wire. The client signature is keyed with the hash of the client key and the server signature with the server key, the proof is the client key XOR the client signature, and both keys derive from the password, salt and iteration count of this exchange or from the application's cached key material. Client and server use the same construction.",
 ["inputs","histories"],"all user names, nonces, salts, iteration counts, channel bindings, hashes and sources of key material",
 "Tests check a few exchanges of this crate with itself, which stay green when both sides change alike, or when a field only differs for values the tests do not use.",
 [M+"scram/client.rs",M+"scram/server.rs",M+"scram/tools.rs",M+"scram/parser.rs"],
 [("signature construction",M+"scram/tools.rs compute_signatures, derive_keys, hash_password"),("message layouts",M+"scram/parser.rs as_ioslices/to_ioslices, "+M+"scram/client.rs send_client_first")])
p("C04","SCRAM nonces and decoy salts are fresh, random and well-formed",
 "Every SCRAM exchange draws its own nonce from the operating system seeded generator inside the exchange, never from peer input, a constant or an earlier exchange; every registered SCRAM mechanism uses a nonce of at least 18 characters, each drawn independently from an alphabet of more than 60 distinct printable ASCII characters without the comma. The salt shown for an unknown user is random as well and is never taken from peer input.",
 ["inputs","histories","configurations"],"every exchange and every registered SCRAM mechanism, on both sides",
 "Randomness and freshness are invisible to a test that runs an exchange once; a constant or reused nonce passes every functional test.",
 [M+"scram/tools.rs",M+"scram/client.rs",M+"scram/server.rs",M+"scram/mechinfo.rs"],
 [("nonce generation",M+"scram/tools.rs generate_nonce, PRINTABLE"),("nonce length",M+"scram/mechinfo.rs NONCE_LEN")])
p("C05","SCRAM channel binding cannot be downgraded or faked",
 "A SCRAM client announces exactly what it does: 'p=' with the name of the binding whose data it signs when running a -PLUS mechanism, 'y' only when it would have bound but was not offered -PLUS, 'n' otherwise; a -PLUS client never proceeds without binding data. A SCRAM server refuses a client that announces it believes the server lacks channel binding whenever the matching -PLUS mechanism is available, a -PLUS exchange is accepted only when the client bound it, and a bound exchange is accepted only against data obtained for the announced binding name. Binding data comes from the session's binding provider when it has it and otherwise from the application; if neither has it the exchange fails.",
 ["inputs","histories","configurations"],"all client-first messages, all registries, all binding providers and callbacks",
 "The downgrade cases are sequences produced by an attacker or an unusual registry; tests only run the honest combinations.",
 [M+"scram/client.rs",M+"scram/server.rs",M+"scram/mechinfo.rs","src/session.rs","src/channel_bindings.rs"],
 [("flag handling",M+"scram/server.rs handle_client_first, "+M+"scram/client.rs send_client_first"),("can_cb computation",M+"scram/mechinfo.rs"),("binding data lookup","src/session.rs maybe_need_cb_data/need_cb_data")])
p("C06","A server reports success only after the application's validation ran",
 "On the server side every exchange that finishes has called the application's validation callback exactly once before the finishing step returns, except where the mechanism itself already rejected the peer with its protocol-defined failure message; an error of the validation callback makes the step fail. On the client side the validation callback is never called. No mechanism reports an exchange as finished after validation failed.",
 ["inputs","histories"],"every mechanism, every message sequence, every outcome of the callbacks",
 "Tests cover one or two message sequences per mechanism; the property is about every path by which a step can finish.",
 [M+"*/server.rs",M+"*/client.rs","src/session.rs"],
 [("validation call of each server mechanism",M+"*/server.rs"),("forwarding","src/session.rs MechanismData::validate")],None,["SessionCallback::validate","Session::step result"])
p("C07","Validation sees exactly the identity the peer authenticated with",
 "The properties a server mechanism exposes to the application's validation callback are taken from the peer's message fields the mechanism's specification assigns to them: user name, authorization identity, password, token and extra fields each arrive under their own property, complete, and never swapped, truncated, taken from another field or from another exchange. For SCRAM the user name and authorization identity shown at validation are those of the first message, i.e. the ones the credentials were looked up for and the proof was checked against. The credential lookup and the validation of one exchange are shown the same values.",
 ["inputs","histories"],"every mechanism, every well-formed message including empty and repeated fields",
 "A swapped or stale field only shows up for inputs where the fields differ in the right way; tests use one user.",
 [M+"*/server.rs",M+"oauthbearer/parser.rs",M+"scram/parser.rs","src/context.rs"],
 [("providers of the server mechanisms",M+"*/server.rs impl Provider"),("field extraction",M+"*/server.rs, "+M+"*/parser.rs")])
p("C08","Secrets stay out of messages, contexts and errors",
 "Passwords, salted passwords, cached and derived keys and stored keys obtained from the application never reach the message writer, an error value or a callback context in the clear: SCRAM releases them only through the keyed hash, key derivation or XOR construction of its proof and signature, and hands derived keys back only in the caching action. PLAIN and LOGIN write the password, and XOAUTH2 and OAUTHBEARER the token, only into the message field defined for it. Password-less mechanisms never ask for a secret.",
 ["inputs","histories","configurations"],"every mechanism and side, every path through a step, every application callback",
 "A leak on an error path or in a debug field is not visible in the output tests compare.",
 [M+"*/client.rs",M+"*/server.rs",M+"scram/tools.rs"],
 [("uses of secret properties",M+"*/client.rs, "+M+"scram/server.rs")])
p("C09","No peer message or application value can make a step panic",
 "For every mechanism and side, no input bytes from the peer and no values returned by application callbacks make a step panic, be it a step of a live exchange or one taken after the exchange finished or failed: no out-of-range slicing or indexing, no failed unwrap or expect, no arithmetic overflow, no length-mismatched copy. Starting a session from any list of offered mechanism names, parsing a mechanism name and writing a message to any writer do not panic either.",
 ["inputs","histories"],"all byte strings, all step sequences, all callback results",
 "The unit tests feed well-formed messages; panics hide behind particular short or malformed inputs.",
 ["src/mechanisms","src/session.rs","src/registry.rs","src/mechname.rs","src/vectored_io.rs"],
 [("length-checked access to message parts",M+"scram/parser.rs, "+M+"oauthbearer/parser.rs"),("selector finalisation","src/registry.rs")])
p("C10","Every step terminates",
 "One call to step returns after finitely many operations for every input: each loop reachable from a step advances through a finite input, list or buffer on every iteration, and recursion among the mechanism's functions is bounded because every recursive call is made in a strictly later protocol state.",
 ["inputs","histories"],"all inputs and all step sequences, every mechanism and side",
 "A non-terminating path needs a specific malformed input; tests that do not contain it cannot show it.",
 ["src/mechanisms","src/vectored_io.rs","src/registry.rs"],
 [("iterator-driven loops",M+"scram/parser.rs, "+M+"oauthbearer/parser.rs, src/vectored_io.rs"),("state change before recursion",M+"gssapi/*.rs")])
p("C11","Client-supplied fields cannot forge message structure",
 "A client mechanism whose message delimits fields with a separator refuses to send, or escapes, an application-supplied value that contains the separator: PLAIN rejects NUL in every field and empty user names and passwords, SCRAM escapes ',' and '=' and rejects NUL and empty names, and XOAUTH2 and OAUTHBEARER reject the 0x01 separator in every field they send. A rejected value makes the step fail before that value is written.",
 ["inputs"],"all user names, authorization identities, passwords, tokens and extra fields",
 "Injection needs a value containing a separator in a particular field; only some PLAIN cases are tested.",
 [M+"plain/client.rs",M+"scram/client.rs",M+"scram/parser.rs",M+"xoauth2/client.rs",M+"oauthbearer/client.rs"],
 [("NUL and emptiness checks",M+"plain/client.rs"),("SaslName escaping",M+"scram/parser.rs")])
p("C12","Client message layouts match what the server side parses",
 "For PLAIN, LOGIN, EXTERNAL, ANONYMOUS, XOAUTH2 and OAUTHBEARER the client writes its fields in the order and with the constant framing its specification prescribes, and the server accepts a message only if it has exactly that framing: constant parts equal, all required fields present, no surplus field where the framing is closed, text fields valid UTF-8. Malformed framing makes the step fail without calling validation.",
 ["inputs"],"all field values for the client, all byte strings for the server",
 "Tests check a few messages; a parser that drops a check accepts additional inputs no test contains.",
 [M+"plain",M+"login",M+"external",M+"anonymous",M+"xoauth2",M+"oauthbearer"],
 [("client writers",M+"*/client.rs"),("server parsers",M+"*/server.rs, "+M+"oauthbearer/parser.rs")])
p("C13","No error is swallowed on the way out of a step",
 "Whenever the application callback (other than answering 'no value' to an optional request), the validation callback, the output writer, the security library, or the decoding of a required message part fails during a step, that step returns an error. The only failure that may be ignored is the client's optional offer to cache SCRAM keys.",
 ["fault_sequences","inputs"],"every mechanism and side, every position at which one of these operations can fail",
 "Tests inject no writer or callback faults, so a dropped error on any of the paths is invisible to them.",
 ["src/mechanisms","src/session.rs","src/callback.rs","src/vectored_io.rs"],
 [("error propagation",M+"*/*.rs"),("callback result filtering","src/session.rs MechanismData")])
p("C14","'Finished without message' means nothing was written",
 "If a step reports that the exchange finished and no message is to be sent, then this step wrote nothing to the writer, for every mechanism, side and path; every other successful step reports that a message is to be sent. The side whose message ends the exchange in the mechanism's specification reports that message even if it is empty (PLAIN, LOGIN, EXTERNAL and ANONYMOUS clients, SCRAM servers, OAuth clients answering an error); the other side reports none. State's predicates is_running, is_finished and has_sent_message say exactly that.",
 ["inputs","histories"],"all paths of all steps",
 "Only the honest path of each mechanism is tested; an error-reply path that writes and then reports 'no message' drops a reply.",
 [M+"*/*.rs","src/session.rs"],
 [("result of each step",M+"*/client.rs, "+M+"*/server.rs")],None,["Session::step result and writer"])
p("C15","Callback requests are type-safe, answered at most once and never guessed",
 "Answering a request with a value of a property other than the requested one leaves the request untouched and does not evaluate the value; the first answer of the right property is delivered to the mechanism exactly once and ends the callback; later answers to the same request neither evaluate their value nor fail. A mechanism that requires a value and gets none fails with the 'no callback' error naming the property; an optional request without answer yields no value; any other callback error is passed on; an action whose value was not taken is reported as not handled.",
 ["programs","histories"],"every application callback, in any order and number of answers",
 "The order and number of answers is up to arbitrary application code; tests contain one or two shapes.",
 ["src/callback.rs","src/session.rs","src/typed.rs"],
 [("answer delivery","src/callback.rs ClosureCR, Request"),("required/optional requests","src/session.rs need_with/maybe_need_with/action")])
p("C16","A validation result is set once, by its own type, and taken once",
 "Only a value given under the server's own validation type is stored, the first such value wins for the whole exchange, a mismatching type neither stores nor evaluates anything, and the protocol implementation can take the stored value exactly once. A session never starts with a validation result already present.",
 ["programs","histories"],"every validation callback, any sequence of answers of any types",
 "Arbitrary application code decides how often and with which type it answers; tests use one answer.",
 ["src/validate.rs","src/session.rs","src/sasl.rs"],
 [("guarded store","src/validate.rs finalize/with"),("take","src/session.rs validation")])
p("C17","Type erasure never reinterprets a value as another type",
 "Every unsafe reinterpretation in the crate converts only between a transparent wrapper and the very type it wraps, or downcasts after comparing the type identity recorded for that very value, or treats bytes as text only after checking that they are ASCII. No other unsafe operation exists in the crate outside those sites.",
 ["programs","configurations"],"all callers and all type parameters, in every feature configuration",
 "Undefined behaviour from a wrong reinterpretation usually still passes tests; only the source shows which types a cast connects.",
 ["src/typed.rs","src/callback.rs","src/context.rs","src/validate.rs","src/config.rs","src/mechname.rs",M+"scram/parser.rs"],
 [("transparent wrappers and their casts","src/typed.rs downcast_mut, src/callback.rs Request::new_*, src/context.rs build_context/Demand::new, src/validate.rs Validate::new, src/config.rs cast, src/mechname.rs const_new")])
p("C18","A client only ever runs a mechanism that was offered, enabled and preferred",
 "The mechanism a client session starts is in the configured registry, has a client implementation, and its name was among the names the server offered; a -PLUS mechanism is started only when channel binding is enabled. Among the eligible mechanisms the one the application's preference keeps is chosen, by default the highest priority, and the session runs the implementation belonging to the reported mechanism. If there is no eligible mechanism, starting fails.",
 ["inputs","configurations"],"all offered lists, all registries, all preference callbacks",
 "Tests try a few offered lists; the combinations of offered names, registries and channel-binding settings are unbounded.",
 ["src/registry.rs","src/config.rs","src/sasl.rs",M+"scram/mechinfo.rs"],
 [("selection fold","src/registry.rs Registry::select"),("selectors","src/registry.rs Matches, "+M+"scram/mechinfo.rs ScramSelector*")])
p("C19","A server only starts the mechanism the client named, if it supports it",
 "Starting a server session succeeds only for a mechanism whose name equals the requested name, that is in the configured registry and has a server implementation, and the session then runs that mechanism's server implementation; otherwise it fails with 'no shared mechanism'. The list of available mechanisms a server announces contains exactly the registered mechanisms with a server implementation.",
 ["inputs","configurations"],"all requested names and all registries",
 "Tests request names that exist; prefix, case and not-registered names are not enumerated.",
 ["src/sasl.rs","src/config.rs","src/registry.rs"],
 [("lookup by name","src/sasl.rs server_start_suggested/get_available")])
p("C20","Each mechanism name is bound to its own implementation",
 "Every built-in mechanism entry carries a valid, unique mechanism name, the client and server implementation of that very mechanism and hash, the selector for its own name, and the correct first-speaking side; the default preference order ranks SCRAM above PLAIN above LOGIN, -PLUS above its bare variant and SHA-2 above SHA-1. Registries for plain credentials contain only password mechanisms and leave out LOGIN whenever an authorization identity is set.",
 ["configurations"],"all built-in mechanisms and feature configurations",
 "Tests start a few mechanisms by name and run them against themselves, which cannot notice that both sides run the wrong hash.",
 [M+"*/mechinfo.rs","src/registry.rs","src/config.rs"],
 [("mechanism tables",M+"*/mechinfo.rs"),("registries","src/registry.rs")])
p("C21","Mechanism names contain only the characters RFC 4422 allows",
 "Parsing a mechanism name succeeds exactly for non-empty strings consisting of upper-case ASCII letters, digits, '-' and '_'; a rejected name reports its first offending byte and position. No safe public function yields a mechanism name that was not so checked, and all built-in names satisfy the rule.",
 ["inputs"],"all byte strings",
 "The test has six valid and six invalid names; the rule is about every byte value and length.",
 ["src/mechname.rs"],[("byte predicate and parse loop","src/mechname.rs is_valid, Mechname::parse")])
p("C22","Sessions forward faithfully and share no mutable state",
 "A session passes the caller's input, writer and security-layer data to its mechanism unchanged, tells callbacks its own mechanism and side, asks the right party to go first, and returns the mechanism's result unchanged. The base64 variant decodes exactly the whole input and encodes exactly the mechanism's output. The crate has no process-wide mutable state, so concurrent sessions and a shared configuration cannot influence each other.",
 ["schedules","programs","histories"],"all interleavings of sessions, all inputs",
 "Tests run sessions one after another; isolation and faithful forwarding are claims about all of them.",
 ["src/session.rs","src/config.rs","src/sasl.rs"],
 [("forwarding","src/session.rs Session"),("immutable configuration","src/config.rs SASLConfig")])
p("C23","A security layer is used exactly when one was negotiated",
 "A session reports a security layer if and only if its encode and decode operations use one, and both agree on it; otherwise they fail with 'no security layer' and write nothing. For GSSAPI a layer becomes active only after the negotiation step succeeded, the server accepts only a non-empty selection contained in what it offered, the server offers only layers its security context provides and the application accepts, the client selects exactly one that the server offered and the application accepts, and encryption is requested exactly when confidentiality was selected; until then data is never wrapped or unwrapped for the application.",
 ["histories","inputs"],"all negotiation tokens and all sequences of step, encode and decode",
 "The GSSAPI mechanism cannot run in the test suite at all (it needs a Kerberos realm).",
 [M+"gssapi/client.rs",M+"gssapi/server.rs","src/mechanism.rs","src/session.rs"],
 [("state-dependent encode/decode",M+"gssapi/*.rs"),("defaults","src/mechanism.rs Authentication")])
p("C24","Challenge-response exchanges cannot be replayed or rewound",
 "A SCRAM or GSSAPI exchange only moves forward: after a step failed or finished, no further step of that session succeeds, validates or writes, and a SCRAM challenge can be answered at most once, so one session never checks two proofs against the same nonces. Every successful intermediate step leaves the session waiting for the next message of the protocol.",
 ["histories"],"all sequences of steps with arbitrary inputs",
 "Tests perform the honest sequence once; retrying after a failed or finished step is a history they do not contain.",
 [M+"scram/client.rs",M+"scram/server.rs",M+"gssapi/client.rs",M+"gssapi/server.rs"],
 [("state taken before each step",M+"scram/*.rs, "+M+"gssapi/*.rs")])
p("C25","A message is written completely or the step fails",
 "A step that succeeds has handed every byte of its message to the writer in order: partial writes are continued, a writer that stops accepting data makes the step fail, and the base64 variant flushes its last block and reports a failure to do so. No mechanism ignores how much of a buffer the writer accepted.",
 ["fault_sequences","inputs"],"all writers, including ones that accept data piecemeal or stop at any byte",
 "The one test uses a writer that splits at five bytes and never refuses data.",
 ["src/vectored_io.rs","src/session.rs",M+"*/*.rs"],
 [("vectored write loop","src/vectored_io.rs write_all_vectored"),("final base64 block","src/session.rs step64")])
p("C26","Every feature selection builds and exposes its mechanisms",
 "Each mechanism feature on its own, combined with the provider features, and the bare crate all type-check, the default registry offers exactly the mechanisms whose features are enabled, a configuration made from credentials has every enabled password mechanism, and a session, a configuration and its callbacks remain usable across threads in every one of these configurations.",
 ["configurations"],"all single-mechanism feature selections with and without the provider, base64 and builder features",
 "The tests run exactly two feature sets.",
 ["Cargo.toml","src/lib.rs","src/mechanisms/mod.rs"],
 [("feature gates","Cargo.toml, src/lib.rs, src/mechanisms/mod.rs")])
p("C27","A mechanism never issues a callback from inside a callback",
 "While an application callback is running on behalf of a mechanism, no mechanism code runs that issues another callback request, action or validation, so an application that locks its state inside the callback cannot deadlock or observe a half-finished request.",
 ["programs","schedules"],"every mechanism, side and callback",
 "Re-entrancy only shows with an application that holds a lock across the callback; tests have none.",
 ["src/session.rs",M+"*/*.rs"],
 [("closures passed to requests",M+"*/*.rs"),("request issuing","src/session.rs MechanismData")])
p("C28","A step that needs the peer's data refuses to run without it",
 "Every mechanism step that consumes a peer message fails with 'input required' when called without one, before it asks the application for anything, validates, or writes; only the first step of the side that speaks first, and steps for which an empty message is meaningful, run without input.",
 ["histories","inputs"],"every mechanism, side, state and absent input",
 "Tests always pass the input that the honest exchange has.",
 [M+"*/*.rs"],[("input presence check",M+"*/*.rs step")])
p("C29","SCRAM parsers accept only well-formed RFC 5802 messages",
 "A SCRAM side accepts a peer message only if it has the attributes RFC 5802 requires, in order, under their own letters: unknown mandatory extensions are refused, and so is anything after the last attribute of server-first and client-final (optional extensions after the nonce of client-first and before the proof may be passed over), the GS2 flag is 'n', 'y' or 'p=' with a name of letters, digits, '.' and '-', user name and authorization identity are valid UTF-8, and a client nonce consists of printable ASCII without comma. Server error values are read exactly as they are written.",
 ["inputs"],"all byte strings received as any of the four SCRAM messages",
 "Tests parse a few well-formed messages; acceptance of malformed ones is an unbounded input question.",
 [M+"scram/parser.rs"],[("attribute parsing",M+"scram/parser.rs parse functions")])
p("C30","Secret-dependent comparisons take time independent of the secret",
 "Comparing proofs, stored keys, signatures and nonces takes time that does not depend on where they differ.",
 ["inputs"],"all secrets and all guesses",
 "Timing is not observable in functional tests.",
 [M+"scram/server.rs",M+"scram/client.rs"],[("comparisons",M+"scram/server.rs, "+M+"scram/client.rs")])
p("C31","SCRAM outputs equal the RFC 5802 values",
 "For every password, salt, iteration count and nonce the SCRAM proofs and signatures equal the values RFC 5802/7677 define numerically.",
 ["inputs"],"all passwords, salts, counts and nonces",
 "Only published vectors can be compared in tests.",
 [M+"scram/tools.rs"],[("hash, HMAC and PBKDF2 crates",M+"scram/tools.rs")])
p("C32","Bytes reach the writer in order under arbitrary partial writes",
 "For every sequence of partial writes the bytes accepted by the writer are exactly the message in order, without loss or duplication.",
 ["fault_sequences"],"all sequences of partial write lengths",
 "One split pattern is tested.",
 ["src/vectored_io.rs"],[("skip and re-slice arithmetic","src/vectored_io.rs write_vectored_inner")])
p("C33","GSSAPI contexts authenticate the peer the Kerberos library vouches for",
 "The security context GSSAPI sessions build is with the service the application named and provides the protection its flags claim.",
 ["inputs","histories"],"all Kerberos realms and tokens",
 "Needs a Kerberos environment.",
 [M+"gssapi/client.rs",M+"gssapi/server.rs"],[("libgssapi context",M+"gssapi/*.rs")])
p("C34","Callbacks see exactly the facts the mechanism provides",
 "Asking the context of a callback for a property yields the first value the mechanism provided under that property and nothing for a property it did not provide; a value given by reference is never handed out mutably nor the reverse, and combined providers answer in their order. The crate's own suppliers of channel binding data give their data for exactly their own type (ThisCb) or never (NoChannelBindings). When a mechanism asks for channel binding data it receives exactly the data the protocol implementation has for the named type, else exactly the application's answer to a request whose context names the type and still holds the mechanism's facts; if neither has any, a required request fails naming the type and an optional one yields none.",
 ["programs","histories"],"every property type, every provider, every combination of offers, every source of binding data",
 "Which property is asked for, and from which combination of providers, is up to arbitrary mechanisms and applications; the one test asks a single-value provider for its value.",
 ["src/context.rs","src/typed.rs","src/session.rs"],
 [("typed demands","src/context.rs Demand, Context"),("combinators","src/context.rs And, ThisProvider"),("binding data","src/session.rs maybe_need_cb_data, need_cb_data")])
p("C35","A refused OAuth login is told exactly and never taken for success",
 "When the application refuses a token, an OAUTHBEARER or XOAUTH2 server sends the client exactly the error the application gave (as RFC 7628 JSON, resp. verbatim), keeps the exchange open for the client's answer, and then only ends it without asking, validating or sending anything more; when the application accepts, it finishes and sends nothing. A client that receives an error finishes only after its application was told exactly that error, whatever the order, number and escaping of its fields; an error the application does not take, or that cannot be read, makes the step fail; an empty answer is no error.",
 ["inputs","histories"],"every token, every answer of the application, every error message",
 "Tests send one error without optional fields through one side at a time.",
 [M+"oauthbearer/server.rs",M+"oauthbearer/client.rs",M+"oauthbearer/properties.rs",M+"xoauth2/server.rs",M+"xoauth2/client.rs"],
 [("answer of the application",M+"oauthbearer/server.rs, "+M+"xoauth2/server.rs step"),("received error",M+"oauthbearer/client.rs, "+M+"xoauth2/client.rs step"),("JSON form",M+"oauthbearer/properties.rs")])
p("C36","No well-formed message of the peer is refused",
 "Whatever a conforming peer sends - any length and content its mechanism's grammar allows for names, passwords, tokens, nonces, salts, counts, extra fields, every optional part present or absent - a step fails, or is answered with a SCRAM error, only for a reason other than the form of the message: the writer or a callback failed, a property was not provided, validation refused, SASLprep refuses the text, the keys do not match, or a downgrade was detected. PLAIN, LOGIN, EXTERNAL, ANONYMOUS, XOAUTH2, OAUTHBEARER and SCRAM, both sides; every such conversation can complete.",
 ["inputs"],"every conforming message of every mechanism",
 "Tests send a few short messages; a parser that trips over an empty optional part, a separator inside a value or an unusual length passes all of them and locks those users out.",
 [M+"plain/server.rs",M+"login",M+"external",M+"anonymous",M+"xoauth2",M+"oauthbearer/parser.rs",M+"scram/parser.rs"],
 [("parsers",M+"scram/parser.rs, "+M+"oauthbearer/parser.rs, "+M+"plain/server.rs")])
p("C37","A failed step reports its cause",
 "The error of a failed step tells what failed: an error of the application's callback, of its validation, of the writer or of the security library comes out as that error; a property nobody supplied as CallbackError::NoCallback with its name, missing binding data with the name of the binding type; a wrong server signature, and nothing else, as MutualAuthenticationFailed; an error sent by the server, and nothing else, as a mechanism error of kind Outcome; a step after a finished multi-step exchange as MechanismDone. Errors of the application, of the writer or of a security layer are never made up. is_missing_prop, is_mechanism_error and is_no_callback hold of exactly the errors they name.",
 ["inputs","fault_sequences"],"every failing step of every exchange",
 "Protocol crates decide by the error whether to try another mechanism, ask for a password again or warn of an impostor; tests look at a handful of errors on one mechanism.",
 ["src/error.rs","src/callback.rs",M+"scram/client.rs",M+"gssapi",M+"oauthbearer/properties.rs"],
 [("errors","src/error.rs, "+M+"*/: conversions and kind()")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
