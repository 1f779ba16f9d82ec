#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "A matching deny always wins and access needs a matching allow",
  "An access check on (domain, presented roles, action, resource) is granted if and only if at least one presented role has an allow assertion in that domain matching the action and resource and no presented role has a matching deny assertion. A check whose context is already cancelled is never granted. The answer does not depend on how the per-role checks are scheduled or on the order of the presented roles.",
  ["inputs", "schedules"], "all combinations of assertions per role, presented role lists, actions and resources, and all interleavings of the concurrent per-role checks",
  "The tests run a few fixed policies under whatever schedule the runtime happens to pick; a schedule-dependent deny is not observable by repetition.",
  ["policy/daemon.go"], [("CheckPolicyRoles fan-out and first-error collection", "policy/daemon.go CheckPolicyRoles")],
  [("rolePolicies", "assertions per <domain>:role.<role>, deny first", "policy/daemon.go policyd")], ["policy.Daemon.CheckPolicy", "policy.Daemon.CheckPolicyRoles"])
p("C02", "Authorized roles are exactly the presented roles that matched an allow",
  "When an access check is granted, the list of authorized roles it returns contains every presented role that has a matching allow assertion and no other role. When the check is denied no authorized role is returned.",
  ["inputs", "schedules"], "all role lists, assertion sets, actions, resources and interleavings",
  "Tests compare a handful of role lists; membership for every subset and schedule is not reached.",
  ["policy/daemon.go", "authorizerd.go"], [("allowedRoles accumulation", "policy/daemon.go CheckPolicyRoles")], observe=["CheckPolicyRoles result", "Principal.AuthorizedRoles"])
p("C03", "Policy patterns match exactly as Athenz globs, case-insensitively",
  "In an assertion's action and resource, '*' matches any run of characters and '?' exactly one character (line breaks excepted), and every other character - including every regular-expression metacharacter - matches only itself, ignoring ASCII case, over the whole string. The resource's domain part (text before the first ':') must equal the checked domain ignoring case, and an assertion whose resource has no ':' is rejected.",
  ["inputs"], "all patterns, actions and resources (ASCII, without line breaks) up to the stated lengths",
  "Tests list a few globs; an escaping slip for one metacharacter in one position is missed.",
  ["policy/assertion.go", "policy/daemon.go"], [("glob to regexp translation", "policy/assertion.go patternFromGlob, NewAssertion")], observe=["NewAssertion", "CheckPolicyRoles"])
p("C04", "Loading a policy document loses no assertion and never weakens a deny",
  "After a policy document is loaded, decisions are the same as evaluating the document's assertions directly: every deny assertion denies and every allow assertion allows, whatever their order, duplication or grouping into policies. An assertion's effect is deny exactly when it reads 'deny' in any letter case. This holds for every interleaving of the loader's internal concurrency.",
  ["inputs", "schedules"], "all documents up to the stated number of policies/assertions with arbitrary (including comma-containing) fields, all loader interleavings",
  "A deny lost to a check-then-store race or to a key collision needs a particular schedule or particular field contents; tests use fixed documents.",
  ["policy/daemon.go", "policy/assertion.go"], [("de-duplication and deny-first ordering", "policy/daemon.go simplifyAndCachePolicy")],
  [("assm", "assertion map used for de-duplication", "policy/daemon.go simplifyAndCachePolicy")], ["CheckPolicy after Update"])
p("C05", "A policy document is never enforced after it expires",
  "No access check is granted on the strength of a policy document whose expiry time has passed, even while refreshes keep failing and a previously fetched document is being reused as fallback. Until its expiry the document stays in force.",
  ["inputs", "histories", "fault_sequences"], "all expiry times, clock readings and update/fetch-failure histories within the stated length",
  "Needs the clock to pass the expiry between fetch, store and check with the server failing; tests use one-hour expiries and never move the clock.",
  ["policy/daemon.go", "policy/fetcher.go", "policy/signed_policy.go"], [("SetWithExpire with remaining lifetime", "policy/daemon.go simplifyAndCachePolicy"), ("fallback to cached policy", "policy/fetcher.go FetchWithRetry")], observe=["CheckPolicy"])
p("C06", "Policy updates are all-or-nothing",
  "An update in which any configured domain cannot be loaded returns an error and leaves the policies in force exactly as they were; a successful update puts the new documents of all configured domains in force together. A check running concurrently with updates is answered entirely from the old or entirely from the new policy set.",
  ["schedules", "fault_sequences", "histories"], "all failure patterns over the configured domains and interleavings of update with checks",
  "Tests check single updates in isolation; partial failure combined with a concurrent check is not sampled.",
  ["policy/daemon.go"], [("temporary cache and pointer swap", "policy/daemon.go Update")], [("rolePolicies", "pointer to the cache in force", "policy/daemon.go policyd")], ["CheckPolicyRoles", "GetPolicyCache", "Update error"])
p("C07", "Only policies signed by both ZTS and ZMS take effect",
  "A fetched policy document is accepted only if it carries signed policy data with an expiry in the future, its ZTS signature over the signed policy data verifies with the ZTS key named by its key id, and its ZMS signature over the policy data verifies with the ZMS key named by its ZMS key id. If a key is unknown or any of these conditions fails, the fetch fails and the document never replaces or supplies policies; nor does a verified document without policy data.",
  ["inputs", "fault_sequences"], "all documents, key ids, key-lookup and signature-verification outcomes, expiry times",
  "Tests exercise selected failing documents; not every combination of the conditions, and not that a rejected document leaves no trace in the caches.",
  ["policy/signed_policy.go", "policy/fetcher.go"], [("Verify", "policy/signed_policy.go Verify"), ("verify before caching", "policy/fetcher.go Fetch")], observe=["fetcher.Fetch result", "CheckPolicy"])
p("C08", "Policy fetch retries are bounded and fall back to the last good policy",
  "A policy fetch with retry makes one initial attempt and, as long as attempts fail, the configured number of retries but no more, returns the first document fetched successfully, and pauses for the retry delay after a failed attempt before trying again. If all attempts fail it returns an error, together with the most recently fetched verified document if there is one.",
  ["fault_sequences", "histories"], "all success/failure sequences of attempts and all retry counts within the bound",
  "Tests cover a few sequences with fixed retry counts.",
  ["policy/fetcher.go"], [("FetchWithRetry loop", "policy/fetcher.go FetchWithRetry")], [("policyCache", "last verified policy and ETag", "policy/fetcher.go fetcher")], ["Fetcher.FetchWithRetry"])
p("C09", "Conditional policy fetches use only a fresh ETag and return the cached document",
  "A policy request carries If-None-Match only when a previously verified document with a non-empty ETag is cached and the configured expiry margin before that document's expiry has not been reached, and then carries exactly that document's ETag. A not-modified answer yields the cached document; a new document that verifies replaces the cached document and ETag, and one that fails does not.",
  ["histories", "inputs", "fault_sequences"], "all sequences of server answers within the bound, all ETags, expiries and margins",
  "Tests use two fixed requests; sequences such as success, failure, not-modified with moving time are not covered.",
  ["policy/fetcher.go"], [("ETag handling", "policy/fetcher.go Fetch")], [("policyCache", "tagged policy", "policy/fetcher.go fetcher")], ["request header If-None-Match", "Fetch result"])
p("C10", "No server answer crashes the policy, public-key or JWK refresh",
  "Whatever status code, headers or body the Athenz server returns - including an unsolicited not-modified answer, a JSON null, null list entries or missing members - a refresh of policies, public keys or JWKs returns normally, with an error when the answer is unusable. It never panics and never hangs.",
  ["inputs", "fault_sequences"], "all status codes and all decoded document shapes within the bound, with and without earlier cached state",
  "Tests send well-formed or syntactically broken bodies only.",
  ["policy/fetcher.go", "policy/signed_policy.go", "policy/daemon.go", "pubkey/daemon.go", "jwk/daemon.go"], [("response handling", "policy/fetcher.go Fetch; pubkey/daemon.go fetchPubKeyEntries, Update")], observe=["Update result"])
p("C11", "A role token is accepted only if unexpired and signed over its exact content",
  "A role token is accepted only if the current time is not after the expiry it carries (a token without expiry is expired) and the signature after its first ';s=' verifies, over exactly the text before that ';s=', with the ZTS public key named by its key id. A token without signature, with a malformed field, with a non-numeric time, or naming an unknown key is rejected; a well-formed, unexpired and properly signed token is accepted.",
  ["inputs"], "all token strings up to the stated shape and length, all clock values, all key-lookup and verification outcomes",
  "Tests use a few literal tokens.",
  ["role/processor.go", "role/token.go"], [("parse then validate", "role/processor.go parseToken, validate"), ("Expired", "role/token.go Expired")], observe=["role.Processor.ParseAndValidateRoleToken"])
p("C12", "Role token fields are reported exactly as signed",
  "For an accepted role token, the reported domain, principal, key id, roles, issue time and expiry are the values of the fields d, p, k, r (split at commas), t and e in the signed part of the token, with a later occurrence of a field overriding an earlier one and values allowed to contain '='. Fields that are not recognised have no effect.",
  ["inputs"], "all field orders, repetitions and values up to the stated bound",
  "Tests check one layout per field.",
  ["role/processor.go", "role/token.go"], [("SetParams", "role/token.go SetParams")], observe=["role.Token"])
p("C13", "An access token is accepted only inside its validity period",
  "An access token is accepted only if it carries an expiry strictly later than the current time and, where present, its issued-at and not-before times are not later than the current time. A token with any one of these violated is rejected even if its signature is valid.",
  ["inputs"], "all 64-bit time claims within the stated clock window and all clock values",
  "Tests use fixed far-away times; boundary combinations are not reached.",
  ["access/claim.go", "access/processor.go"], [("BaseClaim.Valid", "access/claim.go Valid")], observe=["access.Processor.ParseAndValidateOAuth2AccessToken"])
p("C14", "A certificate-bound access token needs a matching client certificate",
  "With certificate binding enabled, an access token is accepted only with a client certificate that either has the SHA-256 thumbprint named in the token's confirmation claim; or, where the token names a thumbprint and the refresh offset is non-zero, has a non-empty common name equal to the token's client id and an issue time (certificate start plus the configured backdate) not before the token's issue time and at most the offset after it; or carries a URI listed in the token's proxy principals. In all other cases, and without a certificate, it is rejected; with binding disabled the certificate does not matter.",
  ["inputs", "configurations"], "all confirmation claims, certificates, issue times, offsets and backdates within the bound",
  "Tests pick points; boundaries of the two inequalities combined with the claim shapes are not covered.",
  ["access/processor.go"], [("validateCertificateBoundAccessToken, validateCertPrincipal", "access/processor.go")], observe=["ParseAndValidateOAuth2AccessToken"])
p("C15", "Client id verification accepts only configured certificate/client pairs",
  "With client id verification enabled, an access token is accepted only if a client certificate is presented and the configuration lists the token's client id for that certificate's common name. With it disabled the client id does not affect acceptance.",
  ["inputs", "configurations"], "all configurations, common names and client ids within the bound",
  "Tests use one configuration map.",
  ["access/processor.go"], [("validateClientID", "access/processor.go")], observe=["ParseAndValidateOAuth2AccessToken"])
p("C16", "Access token keys come only from the configured key sets",
  "The key used to verify an access token is the one with the token's key id in the JWK set last fetched from the URL in the token's jku header, or from the Athenz key URL when the token has no (or an empty) jku. A token whose jku is not one of the configured URLs or not a string, whose key id is missing, empty, not a string or not in that set, or whose signature does not verify with that key, is rejected.",
  ["inputs", "histories"], "all header shapes, configured URL sets and fetched key sets within the bound",
  "Tests use fixed headers and sets.",
  ["access/processor.go", "jwk/daemon.go"], [("keyFunc, getAsStringFromHeader", "access/processor.go"), ("getKey", "jwk/daemon.go")], [("keys", "JWK set per URL", "jwk/daemon.go jwkd")], ["jwk.Provider", "ParseAndValidateOAuth2AccessToken"])
p("C17", "A JWK refresh replaces the sets it fetched and keeps the rest",
  "A JWK update fetches the Athenz key URL and every configured URL, each listed URL once, makes each successfully fetched set available, keeps the previously fetched set of every URL that fails, and returns an error naming the failed URLs exactly when some URL failed.",
  ["fault_sequences", "histories"], "all success/failure patterns over the URLs across successive updates",
  "Tests cover single failures.",
  ["jwk/daemon.go"], [("Update loop", "jwk/daemon.go Update")], [("keys", "JWK set per URL", "jwk/daemon.go jwkd")], ["jwk.Provider", "Update error"])
p("C18", "Public key refresh serves exactly the server's keys or keeps the old ones",
  "After a public-key update succeeds, each environment (ZTS, ZMS) serves exactly the keys of the server's latest answer for that environment, each under its own id, and no key of the other environment. An environment whose fetch or decoding fails, or is answered not-modified, keeps exactly the keys it had, the update reports an error whenever an environment failed, and a key in both the old and the new set is available at every moment.",
  ["fault_sequences", "histories", "schedules"], "all answer sequences per environment within the bound and interleavings with lookups",
  "Tests check single updates from an empty or fixed state.",
  ["pubkey/daemon.go"], [("updConf", "pubkey/daemon.go Update"), ("getPubKey", "pubkey/daemon.go")], [("confCache", "keys per environment", "pubkey/daemon.go pubkeyd"), ("eTagCache", "ETag per environment", "pubkey/daemon.go pubkeyd")], ["pubkey.Provider", "Update error"])
p("C19", "A cached success is reused only for the identical request",
  "A successful authorization is reused from the cache only for a request with the same credential kind, token, action, resource and (when a translator uses it) query, and a client certificate equivalent for that token; the answer is the one a fresh evaluation of that request gave when it was cached. In particular no two different (token, action, resource, query) combinations share a cached result.",
  ["inputs", "histories"], "all pairs of requests with fields up to the stated lengths over an alphabet containing the key delimiter",
  "A collision needs field values containing the delimiter in particular positions; tests use plain words.",
  ["authorizerd.go"], [("cache key construction", "authorizerd.go authorize")], [("cache", "success cache", "authorizerd.go authority")], ["AuthorizeAccessToken", "AuthorizeRoleToken", "Authorize"])
p("C20", "Successes are cached for at most CacheExp and failures never",
  "A token-based authorization result is served from the cache for at most the configured cache expiry after it was evaluated, and never when that expiry is zero or negative. A failed authorization is never cached: the next identical request is evaluated again.",
  ["histories", "inputs"], "all cache expiries, request times and outcome sequences within the bound",
  "Needs the clock to pass the expiry; tests use one minute and never wait.",
  ["authorizerd.go"], [("SetWithExpire", "authorizerd.go authorize")], [("cache", "success cache", "authorizerd.go authority")], ["AuthorizeAccessToken", "AuthorizeRoleToken"])
p("C21", "A request is authorized exactly when some enabled credential authorizes it",
  "Verify and Authorize succeed if and only if at least one enabled credential check (access token, role token - tried in this order; the role certificate check that precedes them in Verify and Authorize is not implemented and never succeeds) succeeds, Authorize returning the principal of the first that succeeds; otherwise they return the invalid-credentials error and no principal. A disabled credential is never consulted, and construction fails when no credential is enabled.",
  ["inputs", "configurations"], "all outcome combinations of the checks and all enable/disable configurations",
  "Tests cover some combinations.",
  ["authorizerd.go"], [("initAuthorizers, Verify, Authorize", "authorizerd.go")], [("authorizers", "enabled checks in order", "authorizerd.go authority")], ["Verify", "Authorize", "New"])
p("C22", "With policy checking on, an empty action or resource is never authorized",
  "While policy checking is enabled, a token request with an empty action or an empty resource is rejected with the invalid-parameters error, whatever the token, cache content or policies. With policy checking disabled a valid token is authorized regardless of action and resource, and an invalid one is not.",
  ["inputs", "configurations", "histories"], "all tokens, actions, resources, cache states and configurations within the bound",
  "Tests check empty values with an empty cache only.",
  ["authorizerd.go"], [("parameter check", "authorizerd.go authorize")], observe=["AuthorizeAccessToken", "AuthorizeRoleToken"])
p("C23", "Request translation applies the first matching rule, deterministically",
  "Translation uses the first rule of the token's domain whose method matches ignoring case and whose path segments and query parameters match exactly (placeholders match any single segment or value; each parameter exactly once), returning that rule's action and its resource with every placeholder (read left to right, the longest name first) replaced by the text it matched, as is. A query that cannot be parsed is an error once a rule with that method and number of path segments is reached. If no rule matches, method and path are returned unchanged. The same input always gives the same output.",
  ["inputs"], "all rule sets, methods, paths and queries up to the stated sizes, and all map iteration orders",
  "A value that itself looks like a placeholder makes the result depend on map iteration order; tests use plain values.",
  ["translator.go"], [("Translate", "translator.go")], [("splitPaths, queryValueMap", "compiled rule", "translator.go Rule")], ["MappingRules.Translate"])
p("C24", "Only well-formed mapping rules are accepted",
  "Rule construction fails for nil rules, an empty domain, a rule list that is nil, a rule lacking method, action or resource, a non-empty path not starting with '/', an unparsable or repeated query parameter, an empty placeholder, or a placeholder name used twice in one rule (in path, query or both); all other rules are accepted. Accepted rules never make translation panic.",
  ["inputs"], "all rule sets up to the stated size",
  "Tests cover listed examples.",
  ["translator.go"], [("validate, isPlaceholder", "translator.go")], observe=["NewMappingRules"])
p("C25", "The policy check sees the token's domain and roles and the translated request",
  "A token request is authorized only if the policy check succeeds for the token's own domain (role token domain, access token audience), exactly the token's roles, the action produced by the translator (if any) and the configured resource prefix followed by the translated resource. A translator error is a rejection, and the returned principal carries the token's subject, domain, roles, issue and expiry time and client id, and the authorized roles of that policy check.",
  ["inputs", "configurations"], "all tokens, actions, resources, prefixes, translator results and policy outcomes within the bound",
  "Tests check selected fields.",
  ["authorizerd.go", "principal.go"], [("authorize", "authorizerd.go")], observe=["policy.Daemon.CheckPolicyRoles arguments", "Principal"])
p("C26", "Role certificates grant exactly the roles they name",
  "With policy checking enabled, role certificate verification collects, over all peer certificates, the role in a '<domain>:role.<role>' common name and the role of each URI '<prefix><domain>/<role>', ignoring names of other shapes, and succeeds if and only if for some domain the policy check of all its collected roles together succeeds. No role is attributed to a wrong domain or dropped because of another domain's role, and certificates naming no role are rejected.",
  ["inputs"], "all certificate lists with names up to the stated length",
  "Tests use a few certificates; two domain/role pairs whose concatenations coincide are not among them.",
  ["authorizerd.go"], [("VerifyRoleCert", "authorizerd.go")], observe=["VerifyRoleCert", "CheckPolicy arguments"])
p("C27", "Token signatures never reach the log",
  "No log message produced while authorizing a role token or an access token contains any part of the token's signature, for accepted, rejected, cached and malformed tokens and at every log level.",
  ["inputs", "histories"], "all tokens up to the stated shape, all outcomes, cache hit and miss",
  "Tests check the two mask helpers on a few strings, not what the authorization paths log.",
  ["mask.go", "authorizerd.go", "role/processor.go"], [("maskToken, maskCacheKey", "mask.go")], observe=["log output"])
p("C28", "Every failed refresh is reported and retried until shutdown",
  "While a policy, public-key or JWK refresher runs, each periodic tick triggers an update, and each failed update is reported on the error channel and followed by another update attempt no later than the retry delay afterwards, without waiting for the next tick, as long as the error channel is read. When its context is cancelled the refresher stops, reports the cancellation and closes its channel.",
  ["schedules", "fault_sequences", "histories"], "all update outcome sequences and interleavings of ticks, failures and cancellation within the bound",
  "Tests observe short real-time windows.",
  ["policy/daemon.go", "pubkey/daemon.go", "jwk/daemon.go"], [("Start loops", "policy/daemon.go, pubkey/daemon.go, jwk/daemon.go Start")], observe=["error channel", "Update calls"])
p("C29", "The retrying HTTP transport never loses a response or retries in vain",
  "The exponential-backoff transport sends the request at least once and at most the configured number of times (at least one), retries only temporary errors and retryable statuses (429, 500, 503, 504), waits (2n+1)/factor^2 seconds before retry number n (from 0), stops once the next wait would pass the time limit, and returns the last response or error, never neither. A response it returns has an unread, open body; every other response's body is closed. (Requests without a body; waits that fit a duration.)",
  ["fault_sequences", "inputs", "configurations"], "all outcome sequences of the wrapped transport up to the stated count",
  "The package has no tests.",
  ["client/exp_rt.go"], [("RoundTrip", "client/exp_rt.go")], observe=["RoundTrip result"])
p("C30", "Athenz is only ever contacted over HTTPS at the configured host",
  "A non-empty Athenz URL with no scheme or with http:// or https:// is accepted and requests for policies, public keys and JWKs go to https:// followed by exactly the rest of that URL and the documented path; a URL with any other scheme is rejected at construction. Additional JWK URLs are accepted only if absolute http or https URLs.",
  ["inputs", "configurations"], "all URLs up to the stated length",
  "Tests list a few URLs.",
  ["internal/url/util.go", "option.go", "policy/option.go", "pubkey/option.go", "jwk/option.go", "policy/fetcher.go", "pubkey/daemon.go", "jwk/daemon.go"], [("TrimHTTPScheme, HasScheme", "internal/url/util.go")], observe=["New error", "request URL"])
p("C31", "Initialization updates keys before policies and reports any failure",
  "Init updates every enabled refresher at most once, and exactly once when none of them fails, public keys before policies; it does not touch a disabled one, and succeeds if and only if all of those updates succeed; policies are not fetched when the public-key update failed.",
  ["fault_sequences", "schedules", "configurations"], "all enable/disable configurations, update outcomes and interleavings",
  "Tests cover selected outcome combinations.",
  ["authorizerd.go"], [("Init", "authorizerd.go")], observe=["Init result", "order of Update calls"])
p("C32", "Every response body is closed",
  "For each HTTP response received while refreshing policies, public keys or JSON web keys, the body is closed exactly when the refresh has finished with it, for every status code, decoding outcome and read error, so refreshing forever does not leak connections.",
  ["inputs", "fault_sequences"], "all response statuses, bodies and read failures",
  "Tests never observe whether a body was closed on the error paths.",
  ["policy/fetcher.go", "pubkey/daemon.go", "jwk/daemon.go"], [("flushAndClose", "policy/fetcher.go"), ("fetchPubKeyEntries", "pubkey/daemon.go"), ("Update, fetchClient.Do", "jwk/daemon.go")], observe=["Body.Close"])
p("C33", "Invalid configuration durations are rejected, valid ones take effect",
  "Constructing the authorizer with a refresh period, retry delay, purge period, expiry margin or certificate backdate/offset that is not a valid duration fails; an empty value leaves the documented default (in NewAccessTokenParam: none); a valid positive value takes effect unchanged (backdate and offset in whole seconds) for exactly the setting it was given for.",
  ["configurations", "inputs"], "all settings and all duration strings up to the stated length",
  "Each option test checks one valid and one invalid value, not the wiring through the constructor.",
  ["option.go", "authorizerd.go", "policy/option.go", "pubkey/option.go", "jwk/option.go", "access/option.go"], [("functional options", "option.go and */option.go"), ("wiring", "authorizerd.go New")], observe=["New result"])
p("C34", "The daemon's error stream carries every refresher's failures until shutdown",
  "After Start, each error an enabled refresher reports before cancellation appears on the authorizer's error channel, marked with the refresher it came from, as long as the channel is read; a disabled refresher is not started. When the context is cancelled the cancellation is reported, the success cache is cleared and the channel is closed.",
  ["schedules", "configurations", "fault_sequences"], "all enable/disable configurations, error sequences and interleavings within the bound",
  "Tests observe one error with real-time waits.",
  ["authorizerd.go"], [("Start", "authorizerd.go")], observe=["Start channel"])
p("C35", "No configuration and no request crashes the authorizer",
  "With any combination of enabled and disabled refreshers, tokens and checks for which construction and initialization succeed, verifying or authorizing any request - whatever text its credentials carry, with or without a client certificate - returns normally: with a principal and no error, or with an error and no principal. Verify and Authorize agree on it.",
  ["inputs", "configurations"], "all combinations of the disabling options and of the request's credentials, and all token texts up to the stated length",
  "Tests configure all parts together and send tokens that are nearly well-formed; the disabled parts and arbitrary text are not combined.",
  ["authorizerd.go", "role/processor.go", "access/processor.go", "policy/signed_policy.go"], [("New wiring of optional parts", "authorizerd.go New"), ("token parsing", "role/processor.go, access/processor.go")], observe=["Verify", "Authorize", "AuthorizeAccessToken", "AuthorizeRoleToken"])
p("C36", "From credential to decision: authorized exactly when everything checks out",
  "With real policies, keys and JWKs fetched from Athenz, a request is authorized if and only if it carries, in the configured header, an enabled token that is unexpired, signed with a key of the named id, passes the configured client-certificate and client-id checks, and names a role of a configured domain that the signed policies permit to perform the action on the resource; the principal reports the token's identity and that role. Once the token or the policy behind an authorization has expired it ends, at most the cache expiry later.",
  ["inputs", "configurations", "histories"], "all combinations of the configuration, credential, signature, expiry, certificate, action and resource within the bound",
  "Unit tests replace every collaborator by a stub, so wiring mistakes between the parts are invisible to them.",
  ["authorizerd.go", "option.go", "policy/daemon.go", "pubkey/daemon.go", "jwk/daemon.go", "role/processor.go", "access/processor.go"], [("New wiring", "authorizerd.go New"), ("Init", "authorizerd.go Init"), ("authorize", "authorizerd.go")], observe=["Authorize", "Verify", "AuthorizeRoleToken"])
p("C37", "Concurrent use is free of data races",
  "The authorizer and the policy, public-key and JWK daemons and token processors may be used from several goroutines at the same time - authorizing and verifying requests, reading the policy cache, initializing, refreshing and purging in the background, being stopped - and no schedule of them has two accesses to the same memory, one of them a write, that are not ordered by synchronisation.",
  ["schedules", "inputs", "histories"], "all schedules of two or three concurrent uses, all pairs of the operations, and all refresh and stop times within the bound",
  "The race detector only sees the schedules a test happens to run, and the tests use the parts from one goroutine each.",
  ["authorizerd.go", "policy/daemon.go", "policy/fetcher.go", "pubkey/daemon.go", "jwk/daemon.go", "role/processor.go", "access/processor.go"],
  [("background refresh and use", "authorizerd.go Start, authorize"), ("policy cache", "policy/daemon.go Update, CheckPolicyRoles"), ("ETag cache", "policy/fetcher.go Fetch"), ("key caches", "pubkey/daemon.go, jwk/daemon.go")], observe=["memory accesses of all goroutines"])
p("C38", "Operations end with their context and leave nothing running",
  "A policy check leaves no goroutine running once it has returned and its context has ended; repeated updates add no goroutines (after any number of them at most one purge of expired policies runs). After the context of a started refresher, of an initialization or of an update is cancelled - and the error channel, if any, is read to its end - every goroutine that was started for it ends and the channel is closed, even when the server never answers or stops in the middle of an answer.",
  ["schedules", "fault_sequences", "histories"], "all answer sequences of the server (answer, refusal, silence, stuck body), cancellation times and role sets within the bound",
  "Unit tests do not count goroutines and use servers that answer.",
  ["policy/daemon.go", "policy/fetcher.go", "pubkey/daemon.go", "jwk/daemon.go", "authorizerd.go"],
  [("CheckPolicyRoles, Update, Start", "policy/daemon.go"), ("Fetch", "policy/fetcher.go"), ("Update, Start", "pubkey/daemon.go, jwk/daemon.go"), ("Start", "authorizerd.go")], observe=["number of goroutines", "error channel"])
p("C39", "Access token claims are reported exactly as signed",
  "For an access token that is accepted, the returned claims are exactly those in the signed payload: subject, audience, client id, user id, proxy principal, the scopes in order, the times, the version, the authentication time, the issuer and the id; an absent (or null) claim is empty, and members that are not recognised have no effect. A token whose text claim is not a text, whose scopes are not a list of texts or whose confirmation is not an object is rejected.",
  ["inputs", "configurations"], "all claim sets with texts, numbers and lists up to the stated size",
  "Tests compare a few fixed tokens; claims that are long, empty, absent or of other types are not combined.",
  ["access/processor.go", "access/claim.go"], [("ParseAndValidateOAuth2AccessToken", "access/processor.go"), ("OAuth2AccessTokenClaim", "access/claim.go")], observe=["OAuth2AccessTokenClaim", "error"])
p("C40", "Every setting takes effect where it is meant to and the last one wins",
  "Settings that are not durations take effect as documented and only there: of repeated settings the last one counts, enabling and disabling options apply in order, the Athenz URL, system domain, policy domains and additional JWK URLs determine exactly which URLs an initialization requests and the retry attempts how often, a credential is read from the configured header only if it is enabled, role-certificate prefix and resource prefix apply unchanged, requests end with the timeout of the client, and without a client and a cache expiry the defaults (30 s, one minute) hold.",
  ["configurations"], "all combinations of the settings within the bound, each given zero to two times",
  "Option tests check the field an option sets, not what New and the daemons make of it.",
  ["option.go", "authorizerd.go", "policy/option.go", "policy/daemon.go", "pubkey/option.go", "pubkey/daemon.go", "jwk/option.go", "jwk/daemon.go"],
  [("functional options", "option.go and */option.go"), ("New, Init wiring", "authorizerd.go")], observe=["request URLs", "Authorize", "VerifyRoleCert"])
p("C41", "The reported policy cache is the policies in force",
  "GetPolicyCache reports, for every role that has assertions in the policies in force and for no other, its assertions, the denying ones first, and deciding a request from the report gives the decision of a policy check at that moment. A report is of one set of policies, also during an update, follows updates and expiry, is the caller's own map (changing it affects neither policies nor later reports), and stays as it was later. Before policies are loaded and without policy checking it is an empty map.",
  ["inputs", "schedules", "histories", "configurations"], "all policy documents and update, failure and expiry histories within the bound, all schedules of a report during an update with up to two deviations",
  "Tests compare the map for one fixed cache content.",
  ["policy/daemon.go", "authorizerd.go"], [("GetPolicyCache", "policy/daemon.go, authorizerd.go")], observe=["GetPolicyCache", "CheckPolicy"])
p("C42", "Authorizers, their inputs and earlier results do not affect each other",
  "Two authorizers in one process decide as if each were alone: by their own settings, keys, JWKs, policies and caches, asking only their own server. Authorizing a request changes neither the request (headers, URL, certificates) nor the list of roles a check is given, nor the settings given at construction (client, URLs, domains, client ids, mapping rules, options), which can be used again. A principal or list of roles handed out stays as it was, whatever is authorized, refreshed or expires afterwards.",
  ["histories", "inputs", "configurations"], "all histories of two authorizers, all tokens and role lists within the bound",
  "Tests look at one authorizer and one result at a time.",
  ["authorizerd.go", "policy/daemon.go", "principal.go", "option.go", "translator.go"], [("authorize, New", "authorizerd.go"), ("CheckPolicyRoles", "policy/daemon.go")], observe=["Authorize", "Verify", "CheckPolicyRoles", "principals", "the caller's values"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
