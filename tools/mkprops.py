#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=None)))
L = "oauth1-request/src/"
D = "oauth1-request-derive/src/"
C = "oauth-credentials/src/"

p("C01", "HMAC-SHA1 signatures verify at an RFC 5849 server",
  "For every request method, base URI, client credentials, optional token credentials, protocol options and request parameters with URI-safe names, the signature in an `Authorization` header made with HMAC-SHA1 is exactly the one an RFC 5849 server computes from the same request, the shared secrets and the protocol parameters in that header. This includes repeated parameter names (ordered by their encoded values), empty and very long strings, arbitrary Unicode, secrets of any length and a missing token.",
  ["inputs"], "all (method, URI, credentials, token or none, options, parameter multiset, value type)",
  "The tests compare four fixed Twitter-style requests, with one key length and ASCII or kana values; nothing varies secrets, lengths, duplicates, neighbours of the oauth_* names or value types.",
  [L+"signature_method/hmac_sha1.rs", L+"signature_method/digest_common.rs", L+"serializer/auth.rs", L+"util/percent_encoding.rs", L+"request/parameter_list.rs"],
  [("incremental base string", L+"serializer/auth.rs"), ("signing key buffer with overflow to a digest", L+"signature_method/hmac_sha1.rs"), ("double percent encoding", L+"util/percent_encoding.rs")],
  ["oauth_signature in Builder::authorize output"])

p("C02", "PLAINTEXT signatures decode to the RFC 5849 signing key",
  "For all client and token secrets, the `oauth_signature` that PLAINTEXT puts into a header, a form or a query, once percent-decoded as RFC 5849 prescribes for that carrier, is the percent-encoded client secret, an ampersand and the percent-encoded token secret (empty without a token). The signature never adds a further pair to the form, query or header it is placed in, and it depends on nothing but the two secrets.",
  ["inputs"], "all (client secret, token secret or none) x carriers x requests",
  "No test looks at a PLAINTEXT signature at all; one test only checks that signing an empty request does not panic.",
  [L+"signature_method/plaintext.rs", L+"signature_method.rs"],
  [("signing key construction", L+"signature_method.rs"), ("signature buffer", L+"signature_method/plaintext.rs")],
  ["oauth_signature in header, form, query"])

p("C03", "RSA-SHA1 signatures verify under the public key, for both rsa backends",
  "For every RSA private key able to hold a PKCS#1 v1.5 SHA-1 signature and every request, the RSA-SHA1 `oauth_signature` verifies under the matching public key against the RFC 5849 signature base string. The result is the same for both supported rsa crate versions, for owned, borrowed and key-converted signature methods, and does not depend on any shared secret.",
  ["inputs", "configurations"], "all (key, request) x {rsa 0.6, rsa 0.9} x {owned, by reference, AsRef from the private key}",
  "One fixed key and one fixed base string are tested, only through the by-reference signer.",
  [L+"signature_method/rsa_sha1.rs", L+"signature_method/rsa_sha1_06.rs", L+"signature_method/rsa_sha1_09.rs", L+"signature_method/digest_common.rs"],
  [("digest then PKCS#1 v1.5 sign", L+"signature_method/rsa_sha1.rs"), ("reference cast from key to method", L+"signature_method/rsa_sha1.rs")],
  ["oauth_signature in Builder::authorize output"])

p("C04", "The Authorization header carries exactly the protocol parameters supplied",
  "For every input, the `Authorization` header is `OAuth ` followed by comma-separated `name=\"value\"` items with only unreserved characters and percent escapes in the values, which decode to exactly the supplied consumer key, token, callback, verifier, nonce, timestamp, the signature method's name and version 1.0. Each appears once if and only if it was supplied or is mandatory (an empty string counts as supplied), followed by one signature as the last item; request parameters and secrets never appear.",
  ["inputs"], "all combinations of present/absent options and all strings for them, all signature methods",
  "Tests fix one option combination (all but callback/verifier set) and ASCII values.",
  [L+"serializer/auth.rs", L+"lib.rs"],
  [("header writer", L+"serializer/auth.rs"), ("option setters", L+"util.rs")],
  ["Builder::authorize output"])

p("C05", "Signed forms and queries carry the whole request and verify by themselves",
  "For every request, signing into a form or a query yields an urlencoded string that decodes to exactly the request's parameters, the protocol parameters and one `oauth_signature`, nothing lost, added or altered; the query variant is the given URI, a `?`, and that string. An RFC 5849 server that sees only the method, the base URI and that string accepts the signature.",
  ["inputs"], "all (method, URI, credentials, options, parameter multiset), form and query carriers, HMAC-SHA1 and PLAINTEXT and RSA-SHA1",
  "No test calls the signing form/query entry points; only the header and the unsigned encoders are exercised.",
  [L+"serializer/auth.rs", L+"serializer/urlencode.rs", L+"lib.rs"],
  [("parameters go both to the signer and the output", L+"serializer/auth.rs"), ("delimiter state", L+"serializer/urlencode.rs")],
  ["Builder::to_form / to_query output"])

p("C06", "Unsigned form and query encoding is lossless, ordered and URI-safe",
  "For every request with URI-safe names, the unsigned form decodes to exactly the request's parameters in the request's order, uses only unreserved characters, upper-case percent escapes, `=` and `&`, and contains no OAuth protocol parameter that the request itself did not have. The unsigned query is the given URI followed by `?` and that same string, or just the URI when there are no parameters; values marked as already encoded are copied verbatim.",
  ["inputs"], "all parameter multisets, value types and URIs",
  "Tests sample a handful of literal strings; the encoder has per-byte, per-chunk and first/next-delimiter behaviour that ranges over all strings.",
  [L+"serializer/urlencode.rs", L+"util/percent_encoding.rs", L+"lib.rs"],
  [("percent encoding adapter", L+"util/percent_encoding.rs"), ("delimiter state", L+"serializer/urlencode.rs")],
  ["to_form / to_query output"])

p("C07", "A parameter list is always a sorted permutation of what was put in",
  "However a parameter list is built or extended, it holds exactly the pairs put into it, in ascending order of name and, for equal names, of percent-encoded value. Building from an already sorted sequence succeeds exactly when the sequence is in that order and keeps it unchanged, and iteration, slice view, unwrapping and serialization all show the same sequence.",
  ["inputs", "histories"], "all sequences of construct / extend / iterate / unwrap operations over all pair multisets and container types",
  "One doctest sorts three pairs; extend, collect, the sorted constructor and element containers by reference are not tested.",
  [L+"request/parameter_list.rs"],
  [("sort on every construction path", L+"request/parameter_list.rs"), ("sortedness test", L+"request/parameter_list.rs")],
  ["ParameterList iteration and serialization"])

p("C08", "Every request feeds a serializer each protocol hook once, in sorted place",
  "Serializing any request type (unit, optional, references, sorted iterator, parameter list, derived) calls each of the eight protocol-parameter hooks exactly once and every request parameter exactly once, with the whole sequence of names in ascending order counting the hooks under their protocol names. Serializing the same request again, or through a reference or `Some`, gives the same sequence, and the bundled recorder reports precisely the calls it received.",
  ["inputs"], "all parameter multisets (dense around the protocol names) x request types",
  "Derive tests cover a few fixed structs; no test checks sorted iterators, parameter lists or names that fall between protocol names other than one.",
  [L+"request.rs", L+"util/oauth_parameter.rs", L+"request/parameter_list.rs", L+"serializer/recorder.rs", L+"util.rs"],
  [("merge of protocol names into the sorted sequence", L+"request.rs"), ("protocol name order", L+"util/oauth_parameter.rs")],
  ["Recorder history"])

p("C09", "Derived requests serialize exactly the declared fields",
  "For every struct with named fields accepted by the derive macro, serialization yields exactly the non-skipped fields under their (renamed) names in ascending name order merged with the protocol parameters: absent options and fields whose skip condition holds are omitted, options are unwrapped, values go through the custom or default formatter and are percent-encoded unless marked encoded. Field declaration order, generics, lifetimes, raw identifiers and macro-generated types make no difference.",
  ["programs", "inputs"], "all struct definitions over the documented attributes and field types, and all field values",
  "About fifteen fixed structs are tested; attribute combinations and name orderings are a program space the tests only sample.",
  [D+"lib.rs", D+"method_body.rs", D+"method_body/helper.rs", D+"field.rs", D+"meta.rs", D+"util.rs", L+"util/oauth_parameter.rs"],
  [("code generation", D+"method_body.rs"), ("field ordering", D+"lib.rs"), ("attribute parsing", D+"meta.rs")],
  ["to_form / Recorder output of generated programs"])

p("C10", "Invalid derive input is rejected at compile time, at its own field",
  "Deriving a request on an item with an unknown, malformed, duplicated or wrongly typed attribute, two fields with the same parameter name, a parameter name that is not URI-safe, or on anything but a struct with named fields is a compile error reported inside that item, at the field (or its attribute) that is at fault if one is. The macro never panics, and an invalid item never makes a valid one in the same program fail.",
  ["programs"], "all item definitions with one or more attribute or naming faults, mixed with valid items",
  "The UI tests list about forty fixed faults, each alone; combinations, positions and other spellings are not covered.",
  [D+"lib.rs", D+"meta.rs", D+"field.rs", D+"ctxt.rs", D+"container.rs"],
  [("attribute parser with accumulated errors", D+"meta.rs"), ("duplicate name detection", D+"lib.rs")],
  ["rustc diagnostics on generated programs"])

p("C11", "A builder's output depends only on its latest settings",
  "After any sequence of setter calls and signing calls on a builder or on its clones, a signing call's output is determined by the last value given to (or cleared from) each setting and by the call's own arguments. Signing never changes the builder, and with nonce and timestamp pinned repeating a call repeats its output exactly.",
  ["histories"], "all interleavings of set/clear of token, callback, verifier, nonce, timestamp, version with header/form/query signing, cloning and consuming calls",
  "No test makes more than one signing call on a builder or clears a setting.",
  [L+"lib.rs", L+"serializer/auth.rs", L+"util.rs"],
  [("builder state", L+"lib.rs"), ("option setters", L+"util.rs")],
  ["outputs of a history of Builder calls"])

p("C12", "All entry points for the same request agree",
  "For every request, the per-method shorthands, the free functions, the generic call, the consuming variants, the caller-supplied-buffer variants and the low-level serializer produce the same header, form or query for the same method, URI, credentials, signature method and pinned nonce and timestamp. Buffer variants append to what the buffer already holds without altering it.",
  ["inputs"], "all requests x all nine method shorthands x {header, form, query} x {borrowing, consuming, buffer, free function, serializer}",
  "The tests call two of the roughly fifty entry points.",
  [L+"lib.rs", L+"serializer/auth.rs"],
  [("shorthand macros", L+"lib.rs"), ("constructor family", L+"serializer/auth.rs")],
  ["outputs of every public signing function"])

p("C13", "Automatic nonces are unique and random, timestamps are current",
  "When no nonce is set, every signing call, from any thread, process or builder, gets a fresh nonce made only of URI-safe characters, with at least 64 unpredictable bits, so that none repeats within any feasible number of calls. When no timestamp is set the current Unix time in seconds at the call is used; a set nonce or timestamp is used verbatim.",
  ["histories", "schedules"], "all sequences of signing calls within and across builders, threads and processes",
  "Every test pins or ignores the nonce and the timestamp.",
  [L+"serializer/auth.rs"],
  [("nonce generator", L+"serializer/auth.rs"), ("clock read", L+"serializer/auth.rs")],
  ["oauth_nonce and oauth_timestamp over many outputs"])

p("C14", "Custom signature methods receive the exact RFC 5849 base string",
  "A user-defined signature method is given the two secrets and then, call by call, pieces that concatenate to exactly the RFC 5849 signature base string of the request, delimiters included; specialised per-parameter callbacks are used for the protocol parameters, and it is finalised once. If it declines nonce or timestamp, that parameter appears neither in the base string nor in the output, and its own method name and signature text are placed in the output as given.",
  ["inputs"], "all requests x all four nonce/timestamp policies x default or overridden per-parameter callbacks x header/form/query",
  "The only custom method in the tests is a pass-through that prints its calls.",
  [L+"signature_method.rs", L+"serializer/auth.rs"],
  [("Sign callbacks with default forwarding", L+"signature_method.rs"), ("append order and delimiter flag", L+"serializer/auth.rs")],
  ["calls seen by a recording signature method"])

p("C15", "A run-time choice of signature method behaves like the chosen one",
  "Signing with a two-way choice between signature methods makes exactly the calls on, and gives exactly the output of, the method in the selected variant, for every request and every pair of methods including user-defined ones that override callbacks or decline nonce or timestamp. Nested choices behave the same.",
  ["inputs", "configurations"], "all requests x all pairs of methods x either variant x nesting",
  "No test uses the choice type.",
  [L+"signature_method/either.rs"],
  [("delegation macro", L+"signature_method/either.rs")],
  ["output and callback trace compared with the plain method"])

p("C16", "Debug output never reveals credential secrets",
  "For all credentials, formatting a credentials pair, a token or a builder (with HMAC-SHA1 or PLAINTEXT, and any options) with any `Debug` format flags shows the identifiers but never any part of a secret longer than coincidence.",
  ["inputs"], "all identifier/secret strings and string types x {pair, token, builder} x Debug flags",
  "No test formats credentials.",
  [C+"lib.rs", L+"lib.rs"],
  [("hand-written Debug", C+"lib.rs")],
  ["Debug strings"])

p("C17", "Credentials survive serde and reject incomplete or duplicate responses",
  "Serializing credentials yields exactly the fields `oauth_token` and `oauth_token_secret`, and deserializing that from any self-describing format, with fields in any order and any unrelated fields around them, gives back the same credentials. A response with either field missing or given twice, or with a value of the wrong type, is an error rather than a guess.",
  ["inputs"], "all identifier/secret strings x field orders x extra fields x formats (urlencoded, JSON text, JSON value, byte-keyed maps), and all faulty responses",
  "Doctests deserialize one well-formed response and serialize one pair.",
  [C+"serde_imp.rs"],
  [("map visitor", C+"serde_imp.rs"), ("field identifier", C+"serde_imp.rs")],
  ["serde results"])

p("C18", "Credential and token conversions never mix up their parts",
  "For all strings, building, borrowing, converting, mapping, cloning and copying credentials and tokens keep the client identifier, client secret, token identifier and token secret each in its own place, and mapping calls the given function exactly once per contained string, identifier before secret and client before token. Mapping only one half leaves the other half untouched.",
  ["inputs", "histories"], "all strings and all compositions of conversions, with stateful mapping functions",
  "Doctests only check that the conversions compile; they run on empty strings.",
  [C+"lib.rs"],
  [("accessors and map family", C+"lib.rs")],
  ["fields after conversions"])

p("C19", "Valid requests never panic and debug builds catch misuse",
  "Signing and encoding never panic on valid input, with or without debug assertions. In debug builds a URI that contains a question mark, however the URI value writes itself, and request parameters fed to the signer in descending name order are caught by a panic instead of producing a wrong signature.",
  ["inputs", "configurations"], "all valid requests; all URIs with `?` at any position and chunking; all name sequences with at least one descent; both build profiles",
  "One test checks one descending pair; the question mark check is not tested at all.",
  [L+"serializer/auth.rs"],
  [("debug assertions on URI and key order", L+"serializer/auth.rs")],
  ["panic / no panic"])

p("C20", "A failing sink or value never yields a truncated result",
  "If the caller's output buffer, or a parameter value or URI being formatted, reports an error at any point, the signing or encoding call does not return normally; if none fails, the result is complete. What was written before the failure is a prefix of the complete result.",
  ["fault_sequences", "inputs"], "all requests x all fault positions in the sink (byte budget or n-th write) and in value/URI formatting",
  "No test uses a sink or value that can fail.",
  [L+"serializer/auth.rs", L+"serializer/urlencode.rs", L+"util/percent_encoding.rs", L+"signature_method/digest_common.rs"],
  [("unwrap on every write", L+"serializer/auth.rs"), ("error propagation in the encoders", L+"util/percent_encoding.rs")],
  ["returned value or panic, sink contents"])

p("C21", "Features and build profile do not change results",
  "For the same request, credentials, options, nonce and timestamp, every supported feature set (neither `std` nor `alloc`, `alloc` only, `std`, everything enabled, with or without each signature method and the derive macro) and both build profiles give byte-identical headers, forms, queries and signatures, equal to the RFC 5849 reference. Without `std` and `alloc` the library itself allocates nothing, and caller-supplied fixed buffers work as well as strings. Without `std` there is no clock: a missing timestamp is refused by a panic, never guessed, unless the signature method uses none.",
  ["configurations", "inputs"], "feature sets x profiles x all requests",
  "Each feature set runs its own few fixed tests; their results are never compared.",
  [L+"lib.rs", L+"serializer/auth.rs", L+"util.rs", L+"signature_method/plaintext.rs", C+"lib.rs"],
  [("cfg-dependent items", L+"serializer/auth.rs")],
  ["outputs of the same cases across builds"])

p("C22", "Only a value's text matters, not how it is formatted or typed",
  "Two values, URIs or names with the same `Display` text give identical forms, queries, orderings and signatures, however many pieces the text is written in, wherever multi-byte characters and encoded bytes fall within those pieces, and whatever types and containers hold them. The produced text is always valid UTF-8 and, for values, the RFC 3986 encoding of every character.",
  ["inputs"], "all texts x all ways to split them into writes x value and container types; every Unicode scalar value",
  "Tests use plain strings, which are written in one piece.",
  [L+"util/percent_encoding.rs", L+"request/parameter_list.rs", L+"serializer/auth.rs"],
  [("streaming encoders with unchecked UTF-8 slices", L+"util/percent_encoding.rs")],
  ["outputs for differently chunked equal values"])

p("C23", "Serializers cloned part-way and shared builders do not interfere",
  "A partly fed signer or encoder can be cloned at any point and each copy finishes exactly as if it alone had been fed all its calls. One builder shared by many threads, each signing different requests at the same time, gives every thread the result it would get alone.",
  ["histories", "schedules"], "all call sequences with forks at any points; concurrent signing from several threads",
  "No test clones a serializer or signs from more than one thread.",
  [L+"serializer/auth.rs", L+"serializer/urlencode.rs", L+"signature_method/hmac_sha1.rs", L+"signature_method/digest_common.rs", L+"lib.rs"],
  [("serializer state is owned by value", L+"serializer/auth.rs")],
  ["outputs of forked serializers and of threads"])

p("C24", "Already-encoded values are signed and sent without further encoding",
  "A parameter given as already percent-encoded is written to forms and queries verbatim and enters the signature as that same encoded text, so that it is indistinguishable, in output and signature, from the same value given unencoded and encoded by the library. This holds for every mixture of encoded and plain parameters in one request, through hand-written and derived requests.",
  ["inputs"], "all values x all plain/encoded mixtures x header, form, query, unsigned",
  "One test signs two fixed encoded values, and only for the header.",
  [L+"serializer/auth.rs", L+"serializer/urlencode.rs", D+"method_body.rs"],
  [("separate encoded path", L+"serializer/auth.rs")],
  ["outputs and signatures of paired requests"])

p("C25", "Memory-safe, and every piece of text handed out is UTF-8",
  "Through the safe API no input causes undefined behaviour: every string slice the library hands to a sink, a signature method or its caller is valid UTF-8, a private key seen as a signature method (`RsaSha1`) is exactly that key, and no access falls outside memory the library may use. This holds as well when callers misbehave: values whose text changes between writes, that fail or panic, and sinks that fail or panic at any write.",
  ["inputs", "faults"], "all requests, values, URIs and keys x misbehaving values and sinks",
  "The tests look at final strings of a few inputs; undefined behaviour can leave those unchanged.",
  [L+"util/percent_encoding.rs", L+"signature_method/rsa_sha1.rs", L+"serializer/auth.rs", L+"request/parameter_list.rs"],
  [("from_utf8_unchecked on encoder output", L+"util/percent_encoding.rs"), ("reference cast between key and method", L+"signature_method/rsa_sha1.rs")],
  ["every write to a sink, AddressSanitizer and Miri reports"])

p("C26", "Results do not depend on the platform",
  "The same request, credentials, options, nonce and timestamp give the same forms, queries, headers, base strings and signatures on 32-bit and 64-bit, little-endian and big-endian platforms, all equal to the RFC 5849 reference; timestamps and integer values keep their full 64-bit range everywhere.",
  ["configurations", "inputs"], "platforms of both word sizes and byte orders x all requests",
  "The tests run on the build machine only.",
  [L+"util/oauth_parameter.rs", L+"serializer/auth.rs", L+"signature_method/digest_common.rs", L+"util/percent_encoding.rs"],
  [("integers formatted into parameters", L+"serializer/auth.rs")],
  ["outputs of the same cases interpreted for several platforms"])

p("C27", "The whole three-legged exchange works with a server that knows only RFC 5849",
  "Client applications built from this library alone (builders, credentials, their serde forms, forms, queries and headers) complete the exchange of RFC 5849 section 2 against a conforming server that sees only the wire: temporary credentials, authorization, exchange for a token, calls, in every carrier and with every signature method. Builders may be kept, changed, cloned and reused through the steps and from one session to another, credentials stored and read back; the server is told exactly the callback, verifier, token, version and parameters of each step, never takes a message for a replay that is none, and refuses replayed messages, wrong verifiers and wrong secrets.",
  ["histories", "inputs"], "all interleavings of sessions, reuse of builders and carriers x all identifiers, secrets and parameters",
  "No test goes beyond a single request.",
  [L+"lib.rs", L+"serializer/auth.rs", L+"signature_method.rs", C+"lib.rs", C+"serde_imp.rs"],
  [("builder settings", L+"lib.rs"), ("credentials read from responses", C+"serde_imp.rs")],
  ["what the server hears at each step"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
