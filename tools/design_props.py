DEC='real `policy.(*policyd).CheckPolicyRoles` on role policies built by the real `simplifyAndCachePolicy`/`NewAssertion`'
P={
'C01':(DEC+', a goroutine per role, channel and context included; the oracle evaluates the assertions directly: granted iff some presented role has a matching allow and none a matching deny. `Decision` varies texts, `Schedules`/`Orders`/`Cancelled`/`CancelDuring` vary the interleaving, the role order and when the context ends (no grant unless the full evaluation grants; never after cancellation before the call).',
 'two assertions with symbolic effect, domain, role, action (1 byte each, incl. `*` and upper case), up to 2 presented roles in the text harness (thorough: more), 3 roles with every schedule up to 1 preemption (thorough 2) in the schedule harnesses.',
 'more than 3 roles or 3 assertions per role at once; longer texts (C03 covers the matching itself).'),
'C02':('the same code; the oracle is the set of presented roles with a matching allow; the result must be that set on a grant (any order, no other role) and empty on a denial.','as C01.','as C01.'),
'C03':('real `NewAssertion` (glob to regexp) and `Assertion` matching as used by the check, symbolic pattern and text; the oracle is a direct recursive glob matcher with ASCII folding. `Domain` covers the part before the first colon; `Syntax` and `Wide` cover each regular-expression metacharacter and longer combinations.',
 'pattern and text 0..3 (thorough 4) arbitrary ASCII bytes; metacharacter combinations up to 4 pattern pieces. Subdomains, parent domains, prefixes and suffixes of the domain as the domain of an assertion.','non-ASCII bytes; longer patterns.'),
'C04':('real `simplifyAndCachePolicy` over documents with duplicated, reordered, regrouped assertions, followed by real checks; the oracle evaluates the document. Schedules of the loader goroutines and map orders are symbolic.',
 '2 policies x 2 assertions, 2 to 3 roles, texts of 1 to 3 bytes including the separators used inside the loader, effect 0..5 arbitrary bytes; pairs of nearly equal patterns (8 actions, 16 resources), roles and effects (6 texts) asked with 5 texts; 2 preemptions; map orders up to 4 entries.','larger documents.'),
'C05':('real fetcher with retry and fallback, `Update`, `simplifyAndCachePolicy`, gache expiry and the expired hook, over a history with virtual time and a failing or stale server; a check after each wait must be granted exactly while the document that grants it has not expired.',
 'expiry 1..1800 s symbolic, 5 server behaviours, 4 document shapes, up to 3 rounds.','several domains expiring at once (C06 has them).'),
'C06':('real `Update` with two configured domains and one failing; concurrent checks and expiry refreshes along every schedule within the bound. The oracle: every answer equals that of the whole old or the whole new set; an update that errs changes nothing.',
 '2 domains, at most 2 deviations from the default schedule at any synchronisation operation, all map orders up to 3.','three or more concurrent updates.'),
'C07':('real `SignedPolicy.Verify` and `GetSignatureVerifier`-style key lookup with symbolic key ids, signers, content changes and expiry; `Effect` runs the fetcher with a document having one of 12 defects and checks that decisions do not change.',
 'key ids of 4 kinds, signer one of 5, one changed byte, expiry within 3 s of now.','cryptographic strength.'),
'C08':('real `fetchWithRetry` with a symbolic outcome per attempt (any status 100..599, transport error, bad document).','retries 0..3 (thorough 0..4), 5 outcomes per attempt, 2 delays; attempts and pauses are counted in virtual time.','more retries.'),
'C09':('real `Fetch` over a history of answers with symbolic entity tags, expiry and margin; the expected header and document are kept by the oracle.','3 (thorough 4) fetches, tags of 0..1 bytes, margin 0..600 s, expiry 1..1000 s, 4 answers. ETags in the forms of RFC 7232 (weak, empty, unquoted).','longer tags (a tag is copied, not parsed).'),
'C10':('real refresh code of policies, public keys and JWKs with every status, a catalogue of JSON shapes and free symbolic JSON text; any panic, deadlock or endless loop is the violation.','status 100..999 symbolic, 19 to 23 bodies, free body text up to 3 bytes around templates. Replies with and without tags, of any length; 10 response headers with 8 short or odd values.','deeper free text; memory exhaustion by huge answers.'),
'C11':('real `ParseAndValidateRoleToken` on `front;s=signature` with symbolic text, key, key id, signer and times.','free text up to 5 bytes over the separators, expiry text up to 4 bytes plus a list of number forms (hexadecimal, octal, signs, underscores, exponents, overflow), 3 keys. Several texts after the signature.','longer free text.'),
'C12':('the same, for accepted tokens: an independent split of the signed part gives the expected fields.','field values up to 4 bytes incl. separators and `=`; field repeated; number texts up to 2 digits plus 21 special forms. 19 values that mean something else in other notations (percent, HTML, JSON escapes, control bytes).','field order beyond two repetitions.'),
'C13':('real `ParseAndValidateOAuth2AccessToken`, jwt parser and `Claim.Valid` with symbolic exp, iat, nbf.','all int64 values of each time, present or absent, fractions of the clock; 11 non-integer forms.','JSON numbers with arbitrary fractions (11 forms only).'),
'C14':('real certificate-binding code with symbolic times, names, thumbprint forms, proxies.','iat and notBefore over decades, thumbprint altered at any of 43 places, names and client ids 0..2 bytes, URI scheme case forms. The thumbprint in any other member or name of the token or certificate.','certificates with several URIs beyond 2.'),
'C15':('real client-id code with 4 configuration tables and symbolic names.','names 0..1 bytes over `ab*A`, table of up to 2 names x 2 ids, DNS and other certificate names and the `sub` claim free.','larger tables.'),
'C16':('real processor plus real JWK daemon `GetProvider` after updates; headers of 12 forms and free text; key used is identified by which signature verifies.','2 URLs + Athenz URL, 2 rounds of updates, kid up to 2 bytes, jku up to 9 free bytes (URL characters, fragment and query marks).','three or more configured URLs.'),
'C17':('real `jwkd.Update` histories with failing URLs and concurrent lookups.','7 URL lists (duplicates, the Athenz URL itself), 2 rounds, any status; 2 preemptions.','cache lifetime inside the jwk library.'),
'C18':('real `pubkeyd.Update` histories; lookups concurrent with updates along bounded schedules.','3 updates x 2 environments, key sets of up to 2 keys, any status, tags; 2 schedule deviations.','larger key sets.'),
'C19':('real `AuthorizeRoleToken`/`AuthorizeAccessToken` (cache key included) called twice with symbolic requests that differ; the token processors and policy check are stand-ins that record their arguments. The second request must be evaluated itself unless it is equal in everything that matters.','each text up to 2 to 3 bytes over the separator characters `:`, `\\`; certificates differing in subject, issuer, key or URI; pairs of requests around an expiry or an update between them.','collisions needing longer texts.'),
'C20':('the same, over histories in virtual time, cache and its clean-up goroutine included.','CacheExp any ns value in -5..400 s, 3 requests, 6 gaps. 1 or 3 roles; any lifetime and age of the token.','-'),
'C21':('real `New`-style configuration, `Verify`, `Authorize`; the checks behind are stand-ins with symbolic answers.','all 2^4 enabled combinations, header texts up to 2 bytes. 0 to 2 peer certificates with and without verified chains, 4 error texts.','-'),
'C22':('real `authorize` with symbolic token, action, resource, translator, prefix and cache content.','texts 0..1 bytes. Requests with 3 queries and 3 kinds of translator, twice in a row.','-'),
'C23':('real `MappingRules.Translate` against an independent matcher.','10 patterns x 6 queries, segments and values 0..1 symbolic bytes, 2 rules (also overlapping ones: the first that matches counts), up to 3 placeholders, map orders. 14 method names against each other.','long paths.'),
'C24':('real `NewMappingRules`; the oracle parses the rule independently. `NoPanic` translates with what was accepted.','paths up to 6 bytes over `/{}x?%`. Placeholder names differing in letter case. Methods, actions, resources and domains of up to 4 free bytes with braces and globs.','longer paths.'),
'C25':('real `authorize` flow with recording stand-ins for translator and policy check.','all texts 1 byte, times +-2^40.','-'),
'C26':('real `VerifyRoleCert` with certificates of symbolic names and URIs.','2 certificates with 2 URIs, names up to 2 bytes; 14 URI texts (escapes, queries, fragments, letter case, user and port) under 5 prefixes.','-'),
'C27':('real authorization with the logger captured; the signature is a marker text, no part of it (8 bytes or more) may occur in any log line. `SignedReal`/`RejectedReal` use the real token processors.','4 ways to reject, head texts up to 3 bytes.','what a custom logger does; `fmt.Print*`.'),
'C28':('real refresh loops (`Start`) in virtual time with failing answers.','2 to 3 failures in a row, any error status, 2 periods. Runs of up to 9 (thorough 15) failures.','a reader that stops reading.'),
'C29':('real `ExponentialBackoffRoundTripper` and transport.','max 0..4, 5 time limits, 3 factors, any status 100..599, each attempt lasting 2 durations; a request cancelled while it waits.','request bodies.'),
'C30':('real `New` and refreshes, the request URL is what the transport sees.','prefix catalogue plus 5 free bytes.','IPv6 literals.'),
'C31':('real `Init` with recording stand-ins for the refreshers.','every schedule with 4 deviations or 2 preemptions. Access tokens enabled or not.','-'),
'C32':('real refresh with bodies that count closes and fail at symbolic places.','6 bodies with a stated length or none, failure at one of 4 to 5 reads, any status 200..599; for JWK sets two URLs per update.','redirects of a JWK URL.'),
'C33':('real `New` with symbolic duration texts, then the effect is measured in virtual time.','12 settings, texts up to 4 bytes over `12.-hmsu`. Durations from 1500 ms to 200 h, also of several units.','-'),
'C34':('real `Start` of the authorizer with refreshers that emit symbolic errors (also ones wrapping a context error).','up to 2 errors each, 1 deviation of the schedule.','a reader that stops reading.'),
'C35':('real `New`, `Init`, `Verify`, `Authorize` and the token methods over all configurations; any panic is the violation.','see evidence.','-'),
'C36':('nothing is replaced but the network: policies, keys and JWKs come from a stand-in Athenz server over the transport; tokens are signed; the oracle decides from the request and the documents.','1-byte action/resource/role, 2 to 3 domains, expiry +-2 s; `Lapse` in virtual time.','-'),
'C37':('the real code under every schedule, with a happens-before monitor (vector clocks, `engine/race.go`) on every load, store, map and slice access of athenz-authorizer and gache and on the logger\'s settings; two conflicting unordered accesses are a violation. Confirmed with a native `-race` build, else by re-executing the recorded schedule; thorough also runs the validation samples under `-race`.','2 (thorough 3) concurrent users of 7 kinds, refreshes and purges at 3 offsets, 2 server delays; tokens and documents are fixed, so branches on their content are those of one token per kind.','races inside other dependencies (json, jwt, http).'),
'C38':('real checks, updates, refresh loops and `Start` in virtual time; the engine counts the live goroutines (`vf.Goroutines`) before and after. The server may answer, refuse, stay silent until the request is cancelled, or stop inside the body.',
 '3 (thorough 4) roles of 4 kinds with 1 (2) schedule deviations, up to 33 (40) roles in one schedule, 4 ways to answer the first 2 to 4 requests, cancellation at 4 (5) times.','servers that ignore the cancellation of the request (the standard transport does not).'),
'C39':('real `ParseAndValidateOAuth2AccessToken` and JSON decoding of a signed payload built from symbolic claims; the claims returned are compared with the ones written.',
 'one text of up to 4 (6) bytes with the others 0..1, up to 3 (4) scopes of up to 2 (3) bytes over `aB .:,=`; all int64 authentication times and expiries; 9 claims x 8 JSON forms.','texts with JSON escapes (JSON decoding itself).'),
'C40':('real `New` and `Init` with settings drawn symbolically, repeated and in both orders; requests are what the transport sees, decisions are made by recording stand-ins.',
 'every setting given 0, 1 or 2 times; prefixes of up to 3 (5) bytes. Domains and URLs also given as none.','orders of different options (they set different fields).'),
'C41':('real loading, expiry and `GetPolicyCache`; the report is evaluated by an independent decision function and compared with `CheckPolicy`.',
 'up to 3 (4) assertions over 2 roles, 3 actions and 2 effects; 3 lifetimes x 3 times x 3 outcomes of the next update; 2 (3) schedule deviations during an update.','changing the assertions a report points to (they are the cached ones).'),
'C42':('real authorizers over stand-in Athenz servers: two of them with different keys, policies, prefix, header and host used alternately, the same requests given to both, the caller\'s HTTP client with or without a time limit; principals are compared with what they said when they were handed out, the caller\'s values with what they were.',
 '2 (thorough 3) rounds; role, action, principal texts of 1 symbolic byte; 3 roles with 2 spare places behind them; 1 (2) schedule deviations during a check.','a caller that changes the slices a principal hands out.'),
}
