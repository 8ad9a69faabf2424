#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that titles, statements and anchors stay in one place)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,symbols=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
A='adapter/'
prop('C01','Every authorization request is mediated and decided fail-closed',
 "A request is let through without a credential check only when no configured policy entry covers its namespace, service, path and method; otherwise the answer is exactly the one the JWT or the OIDC strategy gives for the selected policy. A request whose instance, target, request, params or headers are missing, or whose policy or configuration cannot be resolved, is answered with an error and never with a pass.",
 ['inputs','configurations'],"every request message (including partially filled ones), every policy engine answer, every strategy answer",
 "The top-level handler has no runnable unit test in the baseline (its package needs a cluster); the engine tests sample a dozen targets.",
 [A+'adapter.go',A+'policy/engine/engine.go'],
 [('HandleAuthnZ dispatch',A+'adapter.go'),('input validation',A+'adapter.go'),('Evaluate',A+'policy/engine/engine.go')],
 ['gRPC HandleAuthnZ response and error'])
prop('C02','The most specific configured policy entry is the one applied',
 "The entry applied to a request is one of the request's own namespace and service: the one at the exact path, else the one at the closest enclosing prefix, and at one path the entry for the request's method wins over the entry for all methods; an entry for another method, or a removed one, never hides an enclosing prefix. The choice depends only on which entries are configured, not on the order in which they were added, and a trailing slash or a login-callback or logout suffix on the request path does not change it.",
 ['inputs','histories','configurations'],"all sets and insertion orders of policy entries, all request targets",
 "The tests store one or two entries at a time and look up a handful of paths; precedence and hiding only show with particular combinations and orders of entries.",
 [A+'policy/engine/engine.go',A+'policy/store/policy/localstore.go',A+'policy/store/pathtrie/pathtrie.go',A+'adapter.go'],
 [('endpoint lookup',A+'policy/store/policy/localstore.go'),('longest prefix walk',A+'policy/store/pathtrie/pathtrie.go'),('endpoint variants',A+'policy/engine/engine.go')],
 ['PolicyStore.GetPolicies','PolicyEngine.Evaluate'])
prop('C03','Policies and configurations of different owners never mix',
 "Setting or removing a policy entry, key set, client or policy record changes what is found under that one key (namespace, service, path and method, or namespace/name) and nothing else. A policy's configuration name is resolved only in the namespace of the protected service; a JWT policy without its key set, an OIDC policy without its client, and a policy of an unknown type make the request fail with an error.",
 ['inputs','histories'],"all keys, all store contents, all sequences of store operations",
 "Tests read back the key they wrote; they do not look at every other key.",
 [A+'policy/store/policy/localstore.go',A+'policy/engine/engine.go'],
 [('store maps',A+'policy/store/policy/localstore.go'),('configuration resolution',A+'policy/engine/engine.go')],
 ['PolicyStore getters','PolicyEngine.Evaluate'])
prop('C04','JWT-protected requests pass only with valid bearer tokens',
 "Under a JWT policy a request passes if and only if its authorization header is 'Bearer <access token>' or 'Bearer <access token> <id token>' (scheme Bearer or bearer) and the access token validates as an access token, and the ID token validates as an ID token whenever one is supplied or a rule of the policy is about the ID token, against that policy's key set and rules. Every other request is answered as unauthenticated with a direct HTTP response whose status follows the error and which carries a Bearer challenge naming the required scopes, the error code and a description.",
 ['inputs'],"all authorization headers, all rule lists, all validator answers",
 "Tests use a mock validator and a short list of headers; none has ID-token rules with a missing ID token.",
 [A+'strategy/api/api.go'],
 [('header parsing',A+'strategy/api/api.go'),('validation sequence',A+'strategy/api/api.go'),('challenge',A+'strategy/api/api.go')],
 ['HandleAuthnZResponse of the API strategy'])
prop('C05','A JWT is accepted only under the policy\'s own published key',
 "A JWT is accepted only if it parses and verifies, including its validity times, under the key that the given key set returns for the key id in the token's own header. An empty token, a missing key set, a missing, empty or non-string key id, and a key id the key set does not know are always rejected with an error.",
 ['inputs'],"all token strings and headers, all key sets",
 "Tests use a fixed pair of tokens and keys.",
 [A+'validator/validator.go'],[('key lookup callback',A+'validator/validator.go'),('getClaims',A+'validator/validator.go')],
 ['TokenValidator.Validate result','key handed to the JWT library'])
prop('C06','ALL, ANY and NOT claim rules mean what the policy language says',
 "For a claim read from its dotted path, an ANY rule holds iff at least one listed value is among the claim's values, a NOT rule iff none is, and an ALL rule (also the default for any other match word) iff the list is non-empty and every listed value is. A claim's values are the pieces of a string between single spaces, the textual form of a number (rounded to an integer) or boolean, or, for an array of strings, numbers and booleans, the textual form of each element (a string element as a whole); a missing claim has no values, and a claim of any other shape is a violation.",
 ['inputs'],"all claim trees, all dotted names, all value lists of any length",
 "Table-driven tests fix about thirty claim/rule pairs; order, position and length of lists are barely varied.",
 [A+'validator/validator.go'],[('checkAccessPolicy and matchers',A+'validator/validator.go'),('nested claim lookup',A+'validator/validator.go'),('claim conversion',A+'validator/validator.go')],
 ['checkAccessPolicy / Validate result'])
prop('C07','Every rule of a policy is enforced on the token it is about',
 "A validated token is accepted only if it satisfies every rule of the policy whose source is that kind of token, a rule without a source being about the access token; rules about the other token do not affect it. An OIDC policy configured without rules requires the client's id among the access token's audiences; rejections name the scopes of the policy's first scope rule.",
 ['inputs','configurations'],"all rule lists in any order and length, both token kinds",
 "Tests use one- or two-rule lists.",
 [A+'validator/validator.go',A+'policy/engine/engine.go'],[('rule loop',A+'validator/validator.go'),('default rules',A+'policy/engine/engine.go')],
 ['validateClaims / Validate result','Action.Rules'])
prop('C08','Only access tokens may be vouched for by the userinfo endpoint',
 "In OIDC validation a token that is not a verifiable JWT is accepted only if it is an access token for which the authorization server's userinfo endpoint, queried with exactly that bearer token, answers 200 on this very validation, and only if no rule is about the access token. An ID token is never accepted that way, and a verifiable JWT is never accepted without its claim rules.",
 ['inputs','fault_sequences'],"all tokens, endpoints, HTTP outcomes and rule lists",
 "Tests use three mock endpoints.",
 [A+'validator/validator.go'],[('userinfo fallback',A+'validator/validator.go')],
 ['OidcTokenValidator.Validate result','HTTP request sent'])
prop('C09','An OIDC request passes only with a session validated on that request',
 "Under an OIDC policy a request that is not a login callback or logout passes only if its session cookie for that policy's client names a stored session whose access token and ID token (after at most one refresh) both validate on this request against the client's key set and the policy's rules. The passed request carries exactly 'Bearer <access token> <ID token>' of that session; a session that fails validation for another reason than expiry is forgotten, and every other request is sent to log in or gets an error.",
 ['inputs','histories','fault_sequences'],"all cookie headers, all session stores, all validator and authorization-server answers",
 "Tests go through one session at a time with a mocked validator.",
 [A+'strategy/web/web.go'],[('isAuthorized',A+'strategy/web/web.go'),('HandleAuthnZRequest',A+'strategy/web/web.go')],
 ['HandleAuthnZResponse of the web strategy','session store'])
prop('C10','A session is created only by a verified login callback',
 "The callback stores a session, under a freshly generated identifier set in the cookie of that policy's client, only after the state check succeeded, the received code was exchanged with the original callback URL, and both returned tokens validated against the client's key set and the policy's rules; it then redirects to the configured redirect address or else to the original URL. An error parameter, a missing code or any failed step stores nothing, sets no session cookie and never passes the request.",
 ['inputs','fault_sequences'],"all callback parameters and cookies, all exchange and validation outcomes",
 "Tests cover one failure per step with fixed inputs.",
 [A+'strategy/web/web.go',A+'strategy/web/utils.go'],[('handleAuthorizationCodeCallback',A+'strategy/web/web.go')],
 ['HandleAuthnZResponse','session store','token exchange call'])
prop('C11','The login state check cannot be bypassed',
 "A callback's state is accepted only if the state cookie of that client decodes and authenticates under the adapter's cookie keys and that cookie's name, has not expired, and carries a non-empty value equal to the callback's state parameter.",
 ['inputs'],"all cookies, state parameters, times, encryptor answers",
 "Tests use a handful of cookies; equality, emptiness and expiry are not varied together.",
 [A+'strategy/web/web.go'],[('validateState',A+'strategy/web/web.go'),('parseAndValidateCookie',A+'strategy/web/web.go')],
 ['validateState result'])
prop('C12','Refreshing replaces a session only with validated tokens',
 "An expired session with a refresh token is replaced, under the same session identifier, only by tokens newly obtained with that refresh token for that client and validated like login tokens; the passed request carries the new tokens and renews the same cookie. If refreshing is impossible or fails the request is not passed; a response without a new refresh token does not lose the old one.",
 ['inputs','fault_sequences'],"all sessions, refresh answers and validation outcomes",
 "Tests use a fixed token response that always includes a refresh token.",
 [A+'strategy/web/web.go',A+'client/client.go'],[('handleRefreshTokens',A+'strategy/web/web.go')],
 ['HandleAuthnZResponse','session store'])
prop('C13','Logout ends the session named by the cookie',
 "A request whose path ends in /oidc/logout under an OIDC policy removes the session named by that client's cookie from the session store, leaves every other session alone, and is answered with a redirect that expires that client's cookie; it is never passed to the service.",
 ['inputs'],"all cookie headers, paths and session stores",
 "One logout test with one session.",
 [A+'strategy/web/web.go'],[('handleLogout',A+'strategy/web/web.go')],
 ['HandleAuthnZResponse','session store'])
prop('C14','Login redirects are complete and bound to the state cookie',
 "A request without a usable session is answered with an unauthenticated 302 response to the client's authorization endpoint whose query carries the client id, response type code, the request's own scheme, host and path followed by /oidc/callback (once: the address itself when the request already is a callback) as redirect address, the client's scopes and a state, keeping any query the endpoint already had; it sets the client's cookie to an encrypted record of that same state. If the state cookie cannot be produced the answer is an error.",
 ['inputs'],"all requests and clients, all encryption outcomes",
 "Tests check that a redirect exists, not what state, cookie and parameters agree on for every input.",
 [A+'strategy/web/web.go',A+'strategy/web/utils.go'],[('handleAuthorizationCodeFlow',A+'strategy/web/web.go'),('generateAuthorizationURL',A+'strategy/web/utils.go')],
 ['HandleAuthnZResponse direct response'])
prop('C15','State cookies are sealed with the shared cluster keys and expire',
 "The state cookie is encoded with an encryptor built from the hash and block keys of the cluster secret (created with the configured key sizes only when it cannot be read) and records an expiry one hour ahead; once such an encryptor exists it is reused. If neither reading nor creating the secret succeeds, no cookie is produced or accepted.",
 ['inputs','fault_sequences'],"all secret contents and API failures",
 "Tests use the fake clientset that never fails.",
 [A+'strategy/web/web.go'],[('getSecureCookie',A+'strategy/web/web.go'),('generateSecureCookie',A+'strategy/web/web.go'),('generateEncryptedCookie',A+'strategy/web/web.go')],
 ['cookie produced','encryptor keys'])
prop('C16','Policy add, update and delete keep the store equal to the policies',
 "After a policy is added or updated every endpoint it declares holds its actions (the last one declared if an endpoint is declared twice), endpoints only its previous version declared no longer hold it, and endpoints of other policies are untouched. After it is deleted no endpoint holds it any more, endpoints held by other policies are untouched, and its record is gone.",
 ['histories','inputs'],"all sequences of add, update and delete events of all policies",
 "Tests do one add and one delete of one policy; updates that drop an endpoint and policies sharing an endpoint are not exercised.",
 [A+'policy/handler/crdeventhandler/add_event.go',A+'policy/handler/crdeventhandler/delete_event.go',A+'policy/store/policy/localstore.go'],
 [('policy add handler',A+'policy/handler/crdeventhandler/add_event.go'),('policy delete handler',A+'policy/handler/crdeventhandler/delete_event.go')],
 ['PolicyStore contents after the event'])
prop('C17','Cluster events reach the store as the right operation',
 "A queued key whose object exists is handled as add/update of that object and one whose object is gone as a delete of that key and kind; when the lookup itself fails nothing is added or removed and the key is retried up to its limit. Each JwtConfig or OidcConfig event sets or removes exactly the key set or client registered under its namespace/name, built from its own spec; objects of other kinds change nothing.",
 ['inputs','histories','fault_sequences'],"all keys, objects, lookup failures and kinds",
 "The controller has no tests of lookup failure.",
 [A+'policy/controller/controller.go',A+'policy/handler/handler.go',A+'policy/handler/crdeventhandler/add_event.go',A+'policy/handler/crdeventhandler/delete_event.go'],
 [('processNextItem',A+'policy/controller/controller.go'),('CrdHandler',A+'policy/handler/handler.go')],
 ['handler calls','PolicyStore contents'])
prop('C18','Policy targets become exactly the declared endpoints',
 "For every target and path entry, in order, an exact path yields one endpoint at that path without trailing slashes (the root stays '/'), a prefix yields one endpoint at that prefix ending in '/*', an entry with neither yields the service-wide '/*', each with the entry's service, the policy's namespace, the entry's actions and its method (all methods when absent or unknown). Nothing else is produced and the target itself is not modified.",
 ['inputs'],"all target lists, all path entries",
 "Tests have about ten tables of one or two entries.",
 [A+'policy/handler/crdeventhandler/utils.go',A+'policy/action.go'],[('ParseTarget',A+'policy/handler/crdeventhandler/utils.go')],
 ['ParseTarget result'])
prop('C19','Key sets refresh on unknown ids and never lose good keys on failure',
 "Looking up a key id returns the key currently held for it without contacting the server, otherwise one refresh is made and its result returned. A successful refresh replaces the key map with exactly the decodable, named keys of the response; a failed one changes nothing.",
 ['inputs','fault_sequences'],"all responses, failures and key ids",
 "Tests use two fixed key documents.",
 [A+'authserver/keyset/keyset.go'],[('PublicKey',A+'authserver/keyset/keyset.go'),('updateKeys',A+'authserver/keyset/keyset.go')],
 ['PublicKey result','HTTP requests sent'])
prop('C20','JSON web keys decode to the RSA key they denote or are refused',
 "A JWK of type RSA with modulus and exponent decodes to the public key with exactly that modulus and exponent, whether base64url or standard base64 and padded or not. A key of another type, with a missing or undecodable part, or with an exponent that does not fit is refused.",
 ['inputs'],"all JWKs",
 "Tests decode one key and a few malformed ones.",
 [A+'authserver/keyset/key.go'],[('decodePublicKey',A+'authserver/keyset/key.go'),('safeDecode',A+'authserver/keyset/key.go')],
 ['decodePublicKey result'])
prop('C21','Only a complete discovery document configures an authorization server',
 "An authorization server's endpoints are taken only from a discovery response with status 200 that has a non-empty issuer, key-set, authorization, token and userinfo address, and then all from that one response; until then every use tries again and nothing is set, and after that discovery is not repeated. A server whose key set was not supplied obtains it from the discovered address once that is known, and a configuration loaded while discovery was unavailable recovers in the same way.",
 ['inputs','fault_sequences','histories'],"all discovery responses and failures in any order of calls",
 "Tests use one good and a few bad documents.",
 [A+'authserver/authserver.go',A+'policy/handler/crdeventhandler/add_event.go'],[('initialize',A+'authserver/authserver.go'),('KeySet',A+'authserver/authserver.go')],
 ['endpoint getters','HTTP requests sent'])
prop('C22','Token requests follow the grant and the client authentication method',
 "A token request is a form POST to the discovered token endpoint carrying the refresh token with grant refresh_token when one is given, else the code and redirect address with grant authorization_code; the client's id and secret go into the form only for client_secret_post and into basic authentication otherwise. Tokens are returned only from a 200 answer with an access token; everything else yields an error and no tokens.",
 ['inputs','fault_sequences'],"all arguments, all HTTP outcomes",
 "Tests do not look at the request body for all combinations.",
 [A+'authserver/authserver.go',A+'client/client.go'],[('GetTokens',A+'authserver/authserver.go'),('ExchangeGrantCode, RefreshToken',A+'client/client.go')],
 ['HTTP request sent','GetTokens result'])
prop('C23','HTTP answers are decoded, validated and closed; retries are bounded',
 "A 2xx answer is decoded into and validated as the success value, any other into the failure value, and a transport, decoding or validation failure is returned as an error; every received response body is closed. A retried call is made until its first success, at most the given number of times, and returns that success or the last error.",
 ['inputs','fault_sequences'],"all statuses, bodies, failures, attempt counts",
 "Tests sample a few status codes; closing is not observed.",
 [A+'networking/networking.go',A+'validator/validator.go'],[('Do',A+'networking/networking.go'),('Retry',A+'networking/networking.go')],
 ['Do result','Retry result','body closed'])
prop('C24','OAuth errors map to the right HTTP status and text',
 "invalid_request maps to 400 Bad Request, invalid_token to 401 Unauthorized, insufficient_scope to 403 Forbidden and everything else to 500; the scope string lists exactly the error's scopes in order, and an error without a code is not a valid OAuth error.",
 ['inputs'],"all error values",
 "Tests sample the codes.",
 [A+'errors/oautherror.go'],[('HTTPCode, ShortDescription, ScopeStr, OK',A+'errors/oautherror.go')],
 ['OAuthError methods'])
prop('C25','Configuration options accept only listed sizes',
 "Setting an enumerated integer option stores the value if and only if the text is a decimal integer among the listed options, and otherwise returns an error and leaves the value; the defaults are themselves listed.",
 ['inputs'],"all option sets and texts",
 "Tests sample a few texts.",
 [A+'config/intoptions.go',A+'config/config.go'],[('Set',A+'config/intoptions.go')],
 ['IntOptions value and error'])
prop('C26','OIDC clients are built from their own configuration',
 "The client secret is the non-empty value of the referenced key of the referenced secret in the configuration's own namespace when that can be read, else the plain-text secret; the scopes are the configured ones joined by spaces, by default 'openid profile email'; the authentication method defaults to basic; id, name and authorization server are those of the configuration.",
 ['inputs','fault_sequences'],"all OidcConfig objects, all secret contents and API failures",
 "Tests sample seven secret combinations.",
 [A+'policy/handler/crdeventhandler/add_event.go',A+'client/client.go'],[('GetClientSecret',A+'policy/handler/crdeventhandler/add_event.go'),('remoteClient',A+'client/client.go')],
 ['GetClientSecret result','Client getters'])
prop('C27','No request can crash the adapter',
 "Handling an authorization request ends in a response or an error for every request content, cookie, token, claim tree, policy rule list and answer of an external service: no nil dereference, out-of-range access, bad type assertion or write to a nil map is reachable from the strategies, the validators, the policy engine or the store.",
 ['inputs','fault_sequences'],"all requests, tokens and external answers under the adapter's own wiring",
 "Tests only reach the panics their inputs happen to trigger.",
 [A+'adapter.go',A+'policy/engine/engine.go',A+'validator/validator.go',A+'strategy/api/api.go',A+'strategy/web/web.go',A+'strategy/web/utils.go',A+'authserver/authserver.go'],
 [('nil and range guards',A+'validator/validator.go')],
 ['absence of panics'])
prop('C28','The path trie behaves as a map from paths to values',
 "After storing a value at a path, looking up that path finds it and looking up any other path finds what it found before; deleting a path makes exactly that path empty and reports true when it held a value. The wildcard lookup returns the value of the path itself if it has an accepted one and otherwise of the deepest enclosing '/*' entry that has one.",
 ['inputs','histories'],"all tries reachable by puts and deletes, all paths of any depth",
 "Tests use one fixed set of six to eight paths.",
 [A+'policy/store/pathtrie/pathtrie.go',A+'policy/store/pathtrie/utils.go'],[('Put, Get, Find, GetActions, Delete',A+'policy/store/pathtrie/pathtrie.go'),('PathSegmenter',A+'policy/store/pathtrie/utils.go')],
 ['Trie Get / GetActions results'])
prop('C29','Copies of policy objects are equal and independent',
 "Copying a policy, configuration or any part of one yields an equal value that shares no slice or object with the original, so changing one never shows in the other.",
 ['inputs'],"all objects with lists of any length, nil or empty",
 "No test covers the copies.",
 [A+'pkg/apis/policies/v1/zz_generated.deepcopy.go'],[('DeepCopyInto',A+'pkg/apis/policies/v1/zz_generated.deepcopy.go')],
 ['DeepCopy results'])
prop('C30','Concurrent requests and cluster events never race on shared state',
 "Requests and policy events handled at the same time never access the policy store, the session store, the cookie encryptor, a key set or discovered configuration in a way that can crash the process or show a partly updated value.",
 ['schedules'],"all interleavings of requests and cluster events",
 "Unit tests are sequential and do not run the race detector across components.",
 [A+'policy/store/policy/localstore.go',A+'strategy/web/web.go',A+'authserver/keyset/keyset.go',A+'authserver/authserver.go'],
 [('encryptor mutex',A+'strategy/web/web.go')],
 ['race freedom'])
prop('C31','Session identifiers and login states are unpredictable',
 "Every new session identifier and login state is drawn fresh from a large space and cannot be guessed from earlier ones.",
 ['histories'],"all histories of issued identifiers",
 "A test can compare two values, not bound an attacker's advantage.",
 [A+'strategy/web/utils.go'],[('randString',A+'strategy/web/utils.go')],
 ['randString results'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
import sys
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
    n=p['statement'].count('. ')+1
    if n>3: print('long',p['id'],n)
print(len(P))
