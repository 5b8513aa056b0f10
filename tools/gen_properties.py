#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source is this table)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": hook}})

p("C01", "Signed tokens cannot be forged and survive rendering and parsing",
  "For every secret and every string, parsing a signed token succeeds only if the string is two dot-separated unpadded URL-safe base64 segments of which the second decodes to the HMAC-SHA256, under that secret, of the bytes of the first, and always succeeds for the canonical rendering of such a pair (line breaks inside a segment and unused trailing bits are immaterial); the result then holds exactly those key and signature bytes, and every other string yields an error and no token. Rendering a token and parsing it under the same secret returns the same key and signature, and no token is valid under a different HMAC key. The validity and equality predicates of a token agree with this for all byte strings, including empty, truncated and extended signatures.",
  ["inputs"], "all secrets, keys and candidate strings (byte flips, truncations, extensions, swapped segments, foreign secrets, extra dots, padding, other alphabets)",
  "Tests parse one generated token and four malformed strings; they never tamper with a signature of the right length or use a second secret.",
  ["hs256.go"], [("HMAC-SHA256 over the key", "HS256TokenFromKey"), ("split, decode, verify", "ParseHS256Token, Valid, Equal")],
  ["return values of the exported token functions"])

p("C02", "Generated tokens are fresh, full-length and fail closed without entropy",
  "Every generated token has a key of exactly the requested length that consists only of bytes freshly drawn from the secure random source, and no drawn byte is used for two tokens, however the source fragments its reads and however many goroutines generate concurrently. If the source fails at any point the generator reports an error (the Must variant panics) and returns no token. A server whose random source fails during a request hands out no token or code in that request, and serves later requests normally once the source works again.",
  ["inputs", "fault_sequences", "schedules"], "all lengths, read fragmentations, failure positions, numbers of concurrent generators, and grant types hit by the failure",
  "The one test uses an immediately empty source; short reads, partial failures, concurrency and failures inside a server request are not reached.",
  ["hs256.go", "server.go"], [("io.ReadFull on the random source", "GenerateHS256Token"), ("deferred unlock", "Server.ServeHTTP")],
  ["generated tokens against the recorded byte tape of the random source", "HTTP responses of the server under injected failures"],
  hook="proxy in front of crypto/rand.Reader (in the harness)")

p("C03", "Only authenticated clients obtain, revoke or inspect credentials",
  "At the token, revocation and introspection endpoints a request that names an unknown client, or a confidential client without exactly its secret, is refused as invalid_client and neither returns nor changes any credential; only confidential clients can use the client credentials grant. Public clients need no secret, and every correctly authenticated client is let through, whether the token endpoint receives its credentials in the authorization header or in the body. When both are given, the authorization header decides.",
  ["inputs", "histories"], "all client registries, credential placements and near-miss secrets (empty, prefix, case, other client's, suffix), grants and preceding histories",
  "The suite tries one wrong secret and one unknown name per endpoint with a single confidential and a single public client.",
  ["server.go", "token.go", "introspection.go", "revocation.go"], [("client lookup and secret comparison", "tokenEndpoint, revocationEndpoint, introspectionEndpoint"), ("credential source", "ParseTokenRequest")],
  ["HTTP responses", "later acceptance of the credentials concerned"])

p("C04", "User grants need the owner's password and are attributed to that owner",
  "The password, implicit and authorization code grants yield a token or a code only when the request carries, in its body, the name of a registered resource owner and exactly that owner's password; otherwise the answer is access_denied. Every token obtained this way, through a code or by any chain of refreshes is reported as belonging to exactly that owner and to exactly the client it was issued to, and tokens of the client credentials grant belong to no owner.",
  ["inputs", "histories"], "all user registries, near-miss credentials, parameter placements, and chains of exchanges and refreshes",
  "Tests use one user, one wrong password, and never look at the owner a token is attributed to.",
  ["server.go"], [("owner lookup and password comparison", "handleResourceOwnerPasswordCredentialsGrant, handleImplicitGrant, handleAuthorizationCodeGrantAuthorization"), ("attribution", "issueTokens")],
  ["HTTP responses", "introspection of issued tokens"])

p("C05", "An authorization code is redeemable once, by its client, for its redirect URI",
  "An authorization code yields tokens at most once, only while it has not expired, only to the client it was issued to, and only with exactly the redirect URI of the authorization request; the tokens carry the scope and owner approved there, whatever scope the exchange request names. Any other presentation is refused without issuing anything, and a refused first presentation leaves the code redeemable by its rightful client. A redemption counts even if its response could not be delivered.",
  ["histories", "inputs", "fault_sequences"], "all histories of issuing and presenting codes, with wrong clients, redirect URIs, expired, foreign, tampered codes, and failing response writers",
  "The suite runs one fixed sequence; the order of failures, several codes in flight, near-miss redirect URIs and lost responses are not covered.",
  ["server.go", "token.go"], [("used flag, ownership, redirect and expiry checks", "handleAuthorizationCodeGrant")],
  ["HTTP responses", "introspection of issued tokens"], state=[{"name": "AuthorizationCodes", "meaning": "issued codes and whether they were used", "where": "server.go"}])

p("C06", "Replaying a used code revokes every token that descends from it",
  "When an already used authorization code is presented again by an authenticated client, the request is refused and every access and refresh token issued from that code, directly or through any chain of refreshes, stops working at all endpoints, however often and however late the replay happens. Tokens that do not descend from the code are unaffected.",
  ["histories"], "all interleavings of exchanges, refresh chains, revocations, time steps and replays over several codes",
  "The suite replays right after the exchange with no refresh in between and no other tokens present.",
  ["server.go"], [("lineage mark on tokens", "issueTokens"), ("sweep on replay", "handleAuthorizationCodeGrant")],
  ["resource access, refresh and introspection after a replay"], state=[{"name": "ServerCredential.Code", "meaning": "code a token descends from", "where": "server.go"}])

p("C07", "Refresh tokens rotate: each works once, for its own client only",
  "A refresh token yields new tokens exactly once, only while unexpired and unrevoked, and only to the client it was issued to; a successful refresh returns a new access token and a new, different refresh token for the same owner and client and spends the presented one for good. A refused presentation issues nothing and leaves the refresh token usable by its rightful client. A refresh counts even if its response could not be delivered.",
  ["histories", "inputs", "fault_sequences"], "all histories of refresh chains over several clients with foreign, spent, revoked, expired, tampered and wrong-kind tokens, and failing response writers",
  "The suite follows one chain of two refreshes with one client.",
  ["server.go"], [("ownership, expiry and scope checks, deletion", "handleRefreshTokenGrant")],
  ["HTTP responses", "later acceptance of spent and fresh tokens"], state=[{"name": "RefreshTokens", "meaning": "live refresh tokens", "where": "server.go"}])

p("C08", "Granted scope never exceeds what is allowed or what was granted before",
  "No grant yields a token whose scope names anything outside the server's allowed scope, and no refresh yields a scope outside that of the presented refresh token; such requests are refused as invalid_scope and every request within bounds is granted exactly the scope it asked for, a refresh without scope inheriting the presented token's scope. The scope announced in the response, the scope reported by introspection and the scope enforced at the protected resource are the same set. Scope names are compared exactly.",
  ["inputs", "histories"], "all allowed scopes, requested scopes (subsets, supersets, duplicates, near-miss names, odd spacing, empty), grants and refresh chains",
  "The suite uses one valid, one invalid and one exceeding scope and never narrows a scope.",
  ["server.go", "scope.go"], [("inclusion checks", "handle*Grant"), ("scope inheritance", "handleRefreshTokenGrant"), ("set inclusion", "Scope.Includes")],
  ["token responses, introspection and resource access"])

p("C09", "A protected resource opens only for a live access token with enough scope",
  "Resource authorization succeeds exactly when the request carries, as a bearer token, an access token that this server issued, that has neither expired nor been revoked, and whose scope includes everything required. Refresh tokens, authorization codes, tampered tokens and tokens of other servers never open a resource. Every refusal has already been answered with a bearer challenge of the matching error and status and an empty body, and success leaves the response untouched.",
  ["inputs", "histories"], "all histories producing credentials of all kinds and states, all required scopes, all authorization header shapes",
  "The suite shows one token per kind of failure against one required scope.",
  ["server.go", "bearer.go"], [("parse, lookup, expiry, scope", "Server.Authorize")],
  ["return value and response of resource authorization"])

p("C10", "Revocation takes effect at once, for the owner's token only",
  "After an authenticated client's revocation of one of its own tokens has been answered with success, that token is refused at every endpoint for ever, whatever type hint was given. A client can never revoke a token issued to another client: it is refused as invalid_client and the token keeps working. Revocation affects no token other than the one named, and revoking a genuine but unknown or already dead token succeeds without effect.",
  ["histories", "inputs"], "all histories of issuing, refreshing and revoking tokens over several clients with all hints",
  "The suite revokes one token of one client and checks that token only.",
  ["server.go", "revocation.go"], [("owner check and deletion", "revocationEndpoint, revokeToken")],
  ["HTTP responses", "later use of the revoked and of all other tokens"])

p("C11", "Introspection reports exactly the live tokens and their true attributes",
  "Introspection answers active for a token exactly when it is an unexpired, unrevoked and unspent access or refresh token of the asking client, and then reports the kind, scope, client, owner and expiry it was issued with; for its own dead tokens and genuine tokens the server does not know it reports inactive and no attributes. A client never learns anything about a token issued to another client: a live one is refused as invalid_client. Introspection never changes what a token can do.",
  ["histories", "inputs"], "all histories over credentials of all kinds and states, asking clients and hints",
  "The suite only reads the active flag and type of fresh tokens of the asking client; expired tokens are never introspected.",
  ["server.go", "introspection.go"], [("lookup, owner and expiry check", "introspectionEndpoint")],
  ["introspection responses compared with the issuing history"])

p("C12", "The authorization endpoint redirects nowhere but to the registered URI",
  "Whatever is sent to the authorization endpoint, a redirection is only ever written to the exact redirect URI registered for the client named in the request, extended by response parameters; an unknown client or response type, a redirect URI that differs in any way from the registered one, or a malformed request is answered directly without any redirection. A GET request never issues a credential, and implicit grants never issue a refresh token.",
  ["inputs", "configurations"], "all registered URIs and near misses (prefix, suffix, case, query, encoding, userinfo, port, fragment, other client's URI), parameter placements and methods",
  "One invalid URI is tried.",
  ["server.go", "authorization.go", "oauth2.go"], [("exact comparison before any redirect", "authorizationEndpoint"), ("URI parsing", "ParseAuthorizationRequest"), ("Location", "WriteRedirect")],
  ["status and Location of responses"])

p("C13", "Redirects carry every parameter unchanged and keep the redirect URI intact",
  "A redirection's Location, read as form-encoded query or fragment, contains exactly the response's parameters with their exact values, in the query or the fragment as requested and never in both, while scheme, authority, path and existing query parameters of the redirect URI are retained. The state of an authorization request comes back unchanged in every redirected response to it, success or error, and is absent when it was not sent. Access tokens travel only in the fragment; redirected responses are never cacheable, always have status 303, and suppress referrers.",
  ["inputs", "configurations"], "all parameter names and values (delimiters, percent signs, plus, spaces, non-ASCII, control characters), redirect URIs with ports, escapes and queries",
  "Tests use values that need no escaping.",
  ["oauth2.go", "token.go", "code.go", "error.go"], [("encoding of parameters", "WriteRedirect"), ("parameter maps", "Map methods")],
  ["Location and headers decoded by an independent RFC 3986 / form decoder"])

p("C14", "Concurrent requests behave as if they ran one after another",
  "For every interleaving of concurrent requests and resource authorizations the responses are explained by some sequential order that respects real time: a code or refresh token presented concurrently is redeemed exactly once, and nothing succeeds with a token after its revocation or family replay was acknowledged. Responses never mix data of different requests. Concurrent use of one server, including reading its registries under its mutex, is free of data races and always completes.",
  ["schedules", "histories"], "all schedules of concurrent clients over the endpoints and resource authorization, with delays in request bodies, response writers and the random source",
  "No test issues two requests concurrently.",
  ["server.go"], [("one mutex around every request", "Server.ServeHTTP, Server.Authorize")],
  ["client-side call/return histories checked for linearizability", "race detector reports"], state=[{"name": "Mutex", "meaning": "guards all registries", "where": "server.go"}],
  hook="proxy in front of crypto/rand.Reader (in the harness), used to inject delays")

p("C15", "Every request gets one complete, well-formed, uncacheable protocol answer",
  "For every HTTP request, however malformed, the server returns without panicking exactly one answer: not found for unknown paths and otherwise a token, introspection or error document, an empty revocation success, a redirection, or the notice for GET. Every error document is JSON with a registered error name whose status matches, 401 answers carry a challenge, and every JSON answer forbids caching. The server then still serves valid requests, also after responses whose writing failed or panicked, request bodies that broke off, and clients or owners having been removed or changed.",
  ["inputs", "fault_sequences", "histories"], "all methods, paths, headers, content types, bodies (garbage, oversized, truncated, duplicate and conflicting parameters) and writer failures",
  "A handful of malformed requests per endpoint.",
  ["server.go", "oauth2.go", "error.go", "token.go", "authorization.go", "introspection.go", "revocation.go"], [("dispatch", "Server.ServeHTTP"), ("writers", "Write, WriteError, WriteRedirect")],
  ["responses captured by a strict response writer"])

p("C16", "Built requests parse back to the values they were built from",
  "For every token, introspection and revocation request, building an HTTP request and parsing it on the server side returns the same values, for arbitrary text in every field, provided the client identifier is non-empty and contains no colon, the scope names are non-empty and contain no white space at their ends nor spaces, and the redirect URI is valid. Built requests are POST requests to the given URI with a form body and basic credentials, or no Authorization header if neither identifier nor secret is set, and secrets, tokens, codes and passwords never appear in their URL. Form values produced for a request contain exactly the non-empty fields, and changing one entry never changes another or the request.",
  ["inputs"], "all field values, including delimiters, percent signs, non-ASCII and control characters, and all subsets of set fields",
  "One request with plain ASCII values per type.",
  ["token.go", "introspection.go", "revocation.go"], [("values and builders", "*RequestValues, Build*Request"), ("parsers", "Parse*Request")],
  ["parsed request values", "wire form of built requests"])

p("C17", "Request parsers take values only from their place and reject bad requests",
  "A request parser returns either a request or an invalid_request error, never both or neither: it accepts exactly the documented methods and the requests that carry all required parameters, and the parameters of token, introspection and revocation requests are read from the body only, never from the URL. Introspection and revocation require basic credentials, token requests accept basic or body credentials, and parameters without a value count as omitted. A redirect URI is accepted only if it is a valid URI without a fragment, and is then returned exactly as the client meant it, whether it was form encoded once or additionally escaped.",
  ["inputs"], "all methods, parameter sets, placements in URL or body, authorization headers, content types and redirect URIs",
  "Each parser sees a minimal, a full and up to six bad requests; placement and redirect URI syntax are hardly exercised.",
  ["authorization.go", "token.go", "introspection.go", "revocation.go", "oauth2.go"], [("parsers", "Parse*Request")],
  ["parser results compared with an independent reading of the same wire request"])

p("C18", "Written responses and errors parse back; internals never leak",
  "Token responses, introspection responses and errors written as JSON and read by the library's parsers return the same public values for arbitrary text, and carry the given status, JSON content type and no-store caching headers. The error constructors always return independent values with the error name and status that RFC 6749, 6750 and 7009 assign. Errors unknown to the library are written as a bare server_error (an empty 500 as bearer error) that contains nothing of their text, and an active introspection answer with an unknown token type is refused without writing anything. A document that could not be written, and a redirection to something that is not a URI, is reported as an error.",
  ["inputs"], "all field values and subsets of set fields, all error constructors and foreign errors",
  "One document per type with plain values.",
  ["token.go", "introspection.go", "error.go", "oauth2.go", "bearer.go"], [("writers", "Write, WriteError, Write*Response"), ("parsers", "ParseTokenResponse, ParseIntrospectionResponse, ParseRequestError")],
  ["wire form of responses and parse results"])

p("C19", "The client succeeds only on a genuine answer, within limits, and cleans up",
  "The client reports success exactly when the server answered 200 and, for token and introspection requests, sent a JSON document of JSON content type that is complete within the configured response limit; every other answer, a transport failure or an invalid endpoint yields an error and no result, and an error document yields an error with its values and the answer's status. The client reads no more of a document than its limit, always closes the response body, and sends each call (redirects followed by the underlying HTTP client aside) as exactly one request to the configured endpoint, its credentials only in the authorization header and body. One client can be used concurrently and every call gets the answer to its own request.",
  ["inputs", "fault_sequences", "schedules", "configurations"], "all statuses, content types, bodies around the limit, truncations, transport failures, endpoint configurations, and concurrent calls",
  "Tests use the reference server's small well-formed answers sequentially.",
  ["client.go", "token.go", "introspection.go", "error.go"], [("status check, limited read, deferred close", "Client methods, Parse*Response, ParseRequestError")],
  ["client results against a scripted transport that records reads and closes"])

p("C20", "Scopes behave as sets of exact names and survive text and JSON",
  "Parsing scope text yields the space-separated names in order with surrounding white space and empty names removed; rendering and parsing, as text or JSON, is lossless for every scope of proper names and stable for every text. Containment holds exactly for listed names, inclusion exactly when every name of the other scope is listed, so that it is reflexive and transitive, independent of order and duplicates, and true for an empty scope; a scope is empty exactly when it lists nothing. Only JSON strings (and null, as an empty scope) are accepted as scopes, and a failed decoding leaves the scope unchanged.",
  ["inputs"], "all strings and lists of names, including near misses, duplicates, odd white space and JSON of other types",
  "Three strings and a few pairs are tried.",
  ["scope.go"], [("parse, contain, include, marshal", "Scope")],
  ["return values against an independent set model"])

p("C21", "Bearer tokens and challenges are read and written without loss or injection",
  "A bearer token is extracted exactly when the authorization header consists of the scheme name in any case, one space and a non-empty remainder, and the remainder is returned unchanged; no header yields a plain 401 challenge and anything else an invalid_request error, and tokens in the URL or body are never considered. The challenge written for an error has the error's status, an empty body, and parses under the HTTP quoted-string grammar back to exactly the error's parameters unless these contain control characters, and no text placed in an error can add or alter another parameter; an error without parameters yields a realm.",
  ["inputs"], "all header values and all error field texts of printable characters including quotes, backslashes and commas",
  "Six headers and three errors with plain text.",
  ["bearer.go", "error.go"], [("prefix checks", "ParseBearerToken"), ("parameter rendering", "Error.Params, WriteBearerError")],
  ["parser results", "challenge parsed by an independent RFC 7235 parser"])

p("C22", "The conformance suite passes good servers and fails every deviating one",
  "For every combination of declared capabilities the reusable test suite passes against a conforming server, and refuses to run with a specification that lacks a required value. It fails against every server that deviates in something the suite covers: one that accepts wrong client or user credentials, foreign, unknown, expired, spent, replayed or revoked credentials, exceeding scopes or changed redirect URIs, refuses valid ones, answers with a wrong status, error name, token type, scope, lifetime or state, or omits tokens, challenges or documents. Conforming here includes that the password, client credentials and authorization code grants come with a refresh token. The suite ends by reporting failures, without a crash, whatever the server answers.",
  ["programs", "configurations"], "all capability configurations and a catalogue of server deviations, one at a time, in both the reference server's and a foreign token format",
  "The suite itself is only ever run against the one conforming server, so a lost assertion goes unnoticed.",
  ["oauth2test/spec.go", "oauth2test/grants.go", "oauth2test/endpoints.go", "oauth2test/general.go", "oauth2test/utils.go", "oauth2test/request.go"], [("assertions on every exchange", "oauth2test")],
  ["exit status and failing subtests of the suite run in a child process"])

p("C23", "Credentials live exactly as long as announced",
  "An access token, refresh token and authorization code works until the lifespan configured for its kind has elapsed since it was issued, and never afterwards; the lifetime announced with a token and the expiry reported by introspection state that same instant in whole seconds. No use of a credential, and nothing that happens to other credentials, prolongs or shortens its life, apart from revocation, redemption and replay. A refreshed token gets the full configured lifespan of its own kind.",
  ["histories", "configurations"], "all lifespans per kind (shorter or longer than one another, sub-second parts, days) and all sequences of uses and time steps, in particular just before and just after expiry",
  "Tests use the default lifespans and never let time pass.",
  ["server.go"], [("expiry at issue and check on use", "issueTokens, Authorize, handle*Grant, introspectionEndpoint")],
  ["responses under a virtual clock"])

p("C24", "Client and server agree over real connections, even when these break",
  "When the library's client talks to the server over HTTP, a call that reports success returned credentials that are live on the server and attributes that the server holds, and a call refused by the server returns the server's error name, description and status. If a connection breaks before, during or after the exchange, or the answer is cut short, the call returns an error and never a partial success; the server executes each call at most once and keeps serving other clients.",
  ["fault_sequences", "schedules", "histories"], "all sequences of calls and connection faults (refused, dropped before or after processing, answer cut at any byte), sequential and concurrent",
  "Tests use a healthy loopback connection with one client.",
  ["client.go", "server.go", "token.go", "introspection.go", "revocation.go", "error.go"], [("client and server paths together", "Client, Server")],
  ["client results, and the server's request log and later behaviour"])

p("C25", "Rejecting a token takes work independent of how much of its signature is right",
  "The work done to reject a token with a wrong signature, counted in executed instructions, does not depend on which or how many bytes of the signature are right, as long as its key and the length of its signature are the same: not when it is parsed, validated or compared directly, and not when it is presented to a server endpoint that knows a credential with that key. So the time of a rejection tells nothing that helps to forge a signature.",
  ["inputs"], "all keys and secrets, all presented signatures of equal length that agree with the right one in some set of bytes, all functions and endpoints that reject tokens",
  "Functional tests observe the verdict only; a comparison that stops at the first difference gives the same verdict.",
  ["hs256.go", "server.go"], [("constant time comparison", "HS256Token.Equal"), ("rejection of tokens", "ParseHS256Token, Valid, Server.Authorize and endpoints")],
  ["instructions executed by a child process that is single-stepped"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
