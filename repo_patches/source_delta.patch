From b5d53125c7ff152b124c6cb20d48a80cf00ae9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:40 +0000
Subject: [PATCH 01/25] fix: never lose an assertion while merging policies of
 a document

Two policies of one document are merged concurrently; the check-then-store on
the merge map could overwrite a deny assertion with an allow. The merge key
joined role, action and resource with commas, so that different assertions
containing commas could replace each other.
---
 policy/daemon.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index a64979e..e72277a 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -323,6 +323,12 @@ func fetchAndCachePolicy(ctx context.Context, g gache.Gache, f Fetcher) error {
 func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolicy) error {
 	eg := errgroup.Group{}
 	assm := new(sync.Map) // assertion map
+	mu := new(sync.Mutex) // guards the check-then-store on assm, policies are processed concurrently
+
+	// assertions are the same only if all of these are the same
+	type assertionKey struct {
+		role, action, resource string
+	}
 
 	// simplify signed policy cache
 	for _, policy := range sp.DomainSignedPolicyData.SignedPolicyData.PolicyData.Policies {
@@ -333,7 +339,8 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 				case <-ctx.Done():
 					return ctx.Err()
 				default:
-					km := fmt.Sprintf("%s,%s,%s", ass.Role, ass.Action, ass.Resource)
+					km := assertionKey{role: ass.Role, action: ass.Action, resource: ass.Resource}
+					mu.Lock()
 					if _, ok := assm.Load(km); !ok {
 						assm.Store(km, ass)
 					} else {
@@ -342,6 +349,7 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 							assm.Store(km, ass)
 						}
 					}
+					mu.Unlock()
 				}
 			}
 
-- 
2.43.0


From 596933f79850d25d2b867131092157fa67fd2961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:45 +0000
Subject: [PATCH 02/25] fix: do not load an expired policy document

When all fetch attempts fail the last fetched document is used again. If it
has expired, the duration handed to the cache was not positive, which the cache
takes as 'never expires', so that the expired policies stayed in force.
---
 policy/daemon.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index e72277a..c7cd5b0 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -373,6 +373,13 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 			return false
 		}
 
+		expiresIn := sp.DomainSignedPolicyData.SignedPolicyData.Expires.Sub(now)
+		if expiresIn <= 0 {
+			// the cache never expires entries which are set without a positive duration
+			retErr = errors.Errorf("policy already expired at %s", sp.DomainSignedPolicyData.SignedPolicyData.Expires.String())
+			return false
+		}
+
 		var asss []*Assertion
 		if p, ok := rp.Get(ass.Role); ok {
 			asss = p.([]*Assertion)
@@ -384,7 +391,7 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 		} else {
 			asss = []*Assertion{a}
 		}
-		rp.SetWithExpire(ass.Role, asss, sp.DomainSignedPolicyData.SignedPolicyData.Expires.Sub(now))
+		rp.SetWithExpire(ass.Role, asss, expiresIn)
 
 		glg.Debugf("added assertion to the tmp cache: %+v", ass)
 		return true
-- 
2.43.0


From 8de5600dbf9ba213210808087579759ab8969d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:18 +0000
Subject: [PATCH 03/25] fix: refresh expired policies through a complete update

The expired hook merged a refetched document into the live cache one assertion
at a time, so that a concurrent check could see an allow before the deny of the
same document, and dereferenced a nil fetcher for roles of domains which are not
configured. Run an ordinary update, which swaps the cache as a whole.
---
 policy/daemon.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index c7cd5b0..12fdb23 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -184,11 +184,18 @@ func (p *policyd) Update(ctx context.Context) error {
 		return err
 	}
 
+	var refreshing int32
 	rp.StartExpired(ctx, p.purgePeriod).
 		EnableExpiredHook().
-		SetExpiredHook(func(ctx context.Context, key string) {
-			// key = <domain>:role.<role>
-			fetchAndCachePolicy(ctx, *(p.rolePolicies), p.fetchers[strings.Split(key, ":role.")[0]])
+		SetExpiredHook(func(_ context.Context, key string) {
+			// never refresh the cache in place, a check must not see a partly loaded policy
+			if !atomic.CompareAndSwapInt32(&refreshing, 0, 1) {
+				return
+			}
+			defer atomic.StoreInt32(&refreshing, 0)
+			if err := p.Update(ctx); err != nil {
+				glg.Errorf("update policy on the expiry of %s fail, error: %v", key, err)
+			}
 		})
 
 	// swap pointer
-- 
2.43.0


From 0bff0ce3dfb872e0fc2021c2f86304d561e7656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:15 +0000
Subject: [PATCH 04/25] fix: reject a policy document with null members instead
 of crashing

---
 policy/daemon.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/policy/daemon.go b/policy/daemon.go
index 12fdb23..a190b77 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -337,11 +337,21 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 		role, action, resource string
 	}
 
+	if sp.DomainSignedPolicyData.SignedPolicyData.PolicyData == nil {
+		return errors.New("no policy data")
+	}
+
 	// simplify signed policy cache
 	for _, policy := range sp.DomainSignedPolicyData.SignedPolicyData.PolicyData.Policies {
 		pol := policy
+		if pol == nil {
+			return errors.New("null policy")
+		}
 		eg.Go(func() error {
 			for _, ass := range pol.Assertions {
+				if ass == nil {
+					return errors.New("null assertion")
+				}
 				select {
 				case <-ctx.Done():
 					return ctx.Err()
-- 
2.43.0


From d679118d75ff02f2fe1b6ac27a4b54e6e810ac87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:44 +0000
Subject: [PATCH 05/25] fix: handle a policy answer that is null or not
 modified without a cache

---
 policy/fetcher.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/policy/fetcher.go b/policy/fetcher.go
index 49c363d..0f62bd7 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -110,6 +110,11 @@ func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 
 	// if server responses NotModified, return policy from cache
 	if res.StatusCode == http.StatusNotModified {
+		if tp == nil {
+			errMsg := "policy not modified, but no policy cache"
+			glg.Errorf("%s, domain: %s", errMsg, f.domain)
+			return nil, errors.Wrap(ErrFetchPolicy, errMsg)
+		}
 		glg.Debugf("policy = 304 not modified, use cache for domain: %s, ETag: %v", f.domain, tp.eTag)
 		return tp.sp, nil
 	}
@@ -122,7 +127,7 @@ func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 
 	// read and decode
 	sp := new(SignedPolicy)
-	if err = json.NewDecoder(res.Body).Decode(&sp); err != nil {
+	if err = json.NewDecoder(res.Body).Decode(sp); err != nil {
 		errMsg := "policy decode fail"
 		glg.Errorf("%s, domain: %s, error: %v", errMsg, f.domain, err)
 		return nil, errors.Wrap(err, errMsg)
-- 
2.43.0


From 8cf1c306f9a275c4fc2337d34d7accc49346eb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 06/25] fix: reject unusable public key answers instead of
 crashing

---
 pubkey/daemon.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index 7be03ca..906a8a6 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -256,6 +256,10 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 
 	// if server return NotModified, return policy from cache
 	if r.StatusCode == http.StatusNotModified {
+		if !ok {
+			glg.Error("Server return not modified without an ETag")
+			return nil, false, errors.Wrap(ErrFetchAthenzPubkey, "http return status not modified, but no cache")
+		}
 		cache := t.(*confCache)
 		glg.Debugf("Server return not modified, ETag: %s", cache.eTag)
 		return cache.sac, false, nil
@@ -272,6 +276,16 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 		glg.Errorf("Error decoding public key entries, err: %v", err)
 		return nil, false, errors.Wrap(err, "json format not correct")
 	}
+	if sac == nil {
+		glg.Error("Error decoding public key entries, null response")
+		return nil, false, errors.Wrap(ErrFetchAthenzPubkey, "json format not correct, null response")
+	}
+	for _, key := range sac.PublicKeys {
+		if key == nil {
+			glg.Error("Error decoding public key entries, null public key")
+			return nil, false, errors.Wrap(ErrFetchAthenzPubkey, "json format not correct, null public key")
+		}
+	}
 
 	if _, err = io.Copy(ioutil.Discard, r.Body); err != nil {
 		glg.Warn(errors.Wrap(err, "error io.copy"))
-- 
2.43.0


From 56555085d5de6454945898d643ebd84e8b254870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:09 +0000
Subject: [PATCH 07/25] fix: do not remember the ETag of public keys that did
 not take effect

---
 pubkey/daemon.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index 906a8a6..f56b715 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -168,6 +168,14 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 			return nil
 		}
 
+		// the next update has to fetch the keys again when they are not usable, ETag must not make it skip them
+		usable := false
+		defer func() {
+			if !usable {
+				p.eTagCache.Delete(string(env))
+			}
+		}()
+
 		for _, key := range pubKeys.PublicKeys {
 			glg.Debugf("Decoding key, env: %v, keyID: %v", env, key.ID)
 			decKey, err := dec.DecodeString(key.Key)
@@ -194,6 +202,7 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 			}
 			return true
 		})
+		usable = true
 
 		return nil
 	}
@@ -299,6 +308,9 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 	if eTag != "" {
 		glg.Debugf("Setting ETag %v", eTag)
 		p.eTagCache.SetWithExpire(string(env), &confCache{eTag, sac}, p.eTagExpiry)
+	} else {
+		// the ETag of an older response does not belong to the keys of this response
+		p.eTagCache.Delete(string(env))
 	}
 
 	glg.Info("Fetch public key entries success")
-- 
2.43.0


From a69bbcbd91e21c772d05db83aa669f8b1e4011e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:23 +0000
Subject: [PATCH 08/25] fix: close the response body on every path

---
 policy/fetcher.go |  8 ++++----
 pubkey/daemon.go  | 15 ++++++++-------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/policy/fetcher.go b/policy/fetcher.go
index 0f62bd7..1c739d3 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -193,11 +193,11 @@ func flushAndClose(rc io.ReadCloser) error {
 	if rc != nil {
 		// flush
 		_, err := io.Copy(ioutil.Discard, rc)
-		if err != nil {
-			return err
+		// close, even if it cannot be flushed
+		if cerr := rc.Close(); err == nil {
+			err = cerr
 		}
-		// close
-		return rc.Close()
+		return err
 	}
 	return nil
 }
diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index f56b715..6f855bc 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -262,6 +262,14 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 		glg.Errorf("Error making HTTP request, error: %v", err)
 		return nil, false, errors.Wrap(err, "error make http request")
 	}
+	defer func() {
+		if _, err := io.Copy(ioutil.Discard, r.Body); err != nil {
+			glg.Warn(errors.Wrap(err, "error io.copy"))
+		}
+		if err := r.Body.Close(); err != nil {
+			glg.Warn(errors.Wrap(err, "error body.close"))
+		}
+	}()
 
 	// if server return NotModified, return policy from cache
 	if r.StatusCode == http.StatusNotModified {
@@ -296,13 +304,6 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 		}
 	}
 
-	if _, err = io.Copy(ioutil.Discard, r.Body); err != nil {
-		glg.Warn(errors.Wrap(err, "error io.copy"))
-	}
-	if err = r.Body.Close(); err != nil {
-		glg.Warn(errors.Wrap(err, "error body.close"))
-	}
-
 	// set eTag cache
 	eTag := r.Header.Get("ETag")
 	if eTag != "" {
-- 
2.43.0


From dd06d46b8baedafba6cc269e468905a7c7691873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:00 +0000
Subject: [PATCH 09/25] fix: do not take the signature of a role token from its
 signed part

---
 role/processor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/role/processor.go b/role/processor.go
index 6aeb539..4119c57 100644
--- a/role/processor.go
+++ b/role/processor.go
@@ -76,6 +76,8 @@ func (r *rtp) parseToken(tok string) (*Token, error) {
 			return nil, errors.Wrap(err, "error setting value")
 		}
 	}
+	// a field in the signed part is not the signature of the token
+	rt.Signature = st[1]
 
 	return rt, nil
 }
-- 
2.43.0


From cc2d4407fb893d2f72d566af55a7d01f16665b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:22 +0000
Subject: [PATCH 10/25] fix: compare the times of an access token without
 overflow

---
 access/claim.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/access/claim.go b/access/claim.go
index 9693395..e510afd 100644
--- a/access/claim.go
+++ b/access/claim.go
@@ -32,18 +32,20 @@ func (c *BaseClaim) Valid() error {
 	vErr := new(jwt.ValidationError)
 	now := jwt.TimeFunc().Unix()
 
-	if !c.VerifyExpiresAt(now, true) {
+	// the times are compared as numbers: the conversion to time.Time done by
+	// the Verify functions of jwt.StandardClaims overflows on large values
+	if c.ExpiresAt == 0 || now >= c.ExpiresAt {
 		delta := time.Unix(now, 0).Sub(time.Unix(c.ExpiresAt, 0))
 		vErr.Inner = fmt.Errorf("token is expired by %v", delta)
 		vErr.Errors |= jwt.ValidationErrorExpired
 	}
 
-	if !c.VerifyIssuedAt(now, false) {
+	if c.IssuedAt > now {
 		vErr.Inner = fmt.Errorf("Token used before issued")
 		vErr.Errors |= jwt.ValidationErrorIssuedAt
 	}
 
-	if !c.VerifyNotBefore(now, false) {
+	if c.NotBefore > now {
 		vErr.Inner = fmt.Errorf("token is not valid yet")
 		vErr.Errors |= jwt.ValidationErrorNotValidYet
 	}
-- 
2.43.0


From 73018645d9eb4a0a171ccae9a556da335f9b1756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:57 +0000
Subject: [PATCH 11/25] fix: never share a cached result between different
 requests

---
 authorizerd.go | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index 954c4ac..29c2bd9 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -18,7 +18,9 @@ package authorizerd
 
 import (
 	"context"
+	"crypto/sha256"
 	"crypto/x509"
+	"encoding/hex"
 	"fmt"
 	"net/http"
 	"strings"
@@ -124,6 +126,9 @@ const (
 	accessToken
 )
 
+// cacheKeyEscape marks a delimiter that is part of a value in the cache key.
+const cacheKeyEscape = '\\'
+
 // New creates the Authorizerd object with the options
 func New(opts ...Option) (Authorizerd, error) {
 	var (
@@ -366,13 +371,20 @@ func (a *authority) AuthorizeAccessToken(ctx context.Context, tok, act, res stri
 
 func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query string, cert *x509.Certificate) (Principal, error) {
 	var key strings.Builder
-	key.WriteString(tok)
+	keyTok := escapeCacheKey(tok)
+	key.WriteString(keyTok)
 
 	if cert != nil {
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(cert.Issuer.CommonName)
+		key.WriteString(escapeCacheKey(cert.Issuer.CommonName))
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(cert.Subject.CommonName)
+		key.WriteString(escapeCacheKey(cert.Subject.CommonName))
+		if len(cert.Raw) != 0 {
+			// certificates having the same names are not interchangeable
+			sum := sha256.Sum256(cert.Raw)
+			key.WriteRune(cacheKeyEscape)
+			key.WriteString(hex.EncodeToString(sum[:]))
+		}
 	}
 
 	if !a.disablePolicyd {
@@ -380,20 +392,20 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 			return nil, errors.Wrap(ErrInvalidParameters, "empty action / resource")
 		}
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(act)
+		key.WriteString(escapeCacheKey(act))
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(res)
+		key.WriteString(escapeCacheKey(res))
 		if query != "" && a.translator != nil {
 			key.WriteRune(cacheKeyDelimiter)
-			key.WriteString(query)
+			key.WriteString(escapeCacheKey(query))
 		}
 	}
 
 	// check if exists in verification success cache
 	cached, ok := a.cache.Get(key.String())
-	if ok {
+	if ok && isCachedFor(m, cached) {
 		glg.DebugFunc(func() string {
-			return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), tok))
+			return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok))
 		})
 		return cached.(Principal), nil
 	}
@@ -466,12 +478,24 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 	}
 
 	glg.DebugFunc(func() string {
-		return fmt.Sprintf("set token result. masked tok: %s, masked key: %s, act: %s, res: %s", maskToken(m, tok), maskCacheKey(key.String(), tok), act, res)
+		return fmt.Sprintf("set token result. masked tok: %s, masked key: %s, act: %s, res: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok), act, res)
 	})
 	a.cache.SetWithExpire(key.String(), p, a.cacheExp)
 	return p, nil
 }
 
+// escapeCacheKey makes a part of the cache key distinguishable from the delimiters around it.
+func escapeCacheKey(s string) string {
+	s = strings.ReplaceAll(s, string(cacheKeyEscape), string([]rune{cacheKeyEscape, cacheKeyEscape}))
+	return strings.ReplaceAll(s, string(cacheKeyDelimiter), string([]rune{cacheKeyEscape, cacheKeyDelimiter}))
+}
+
+// isCachedFor returns whether the cached result belongs to the kind of token.
+func isCachedFor(m mode, cached interface{}) bool {
+	_, isAccessToken := cached.(*oAuthAccessToken)
+	return isAccessToken == (m == accessToken)
+}
+
 // Verify returns error of verification. Returns nil if ANY authorizer succeeds (OR logic).
 func (a *authority) Verify(r *http.Request, act, res string) error {
 	for _, verifier := range a.authorizers {
-- 
2.43.0


From a57664e5eacfc62ae6f3232feff9e667a28a0a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:07 +0000
Subject: [PATCH 12/25] fix: do not cache results without a positive cache
 expiry

---
 authorizerd.go | 16 ++++++++++++----
 option.go      |  2 ++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index 29c2bd9..edaffca 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -73,8 +73,9 @@ type authority struct {
 	client    *http.Client
 
 	// successful result cache
-	cache    gache.Gache
-	cacheExp time.Duration
+	cache        gache.Gache
+	cacheExp     time.Duration
+	disableCache bool
 
 	// roleCertURIPrefix
 	roleCertURIPrefix string
@@ -305,10 +306,15 @@ func (a *authority) Init(ctx context.Context) error {
 func (a *authority) Start(ctx context.Context) <-chan error {
 	var (
 		ech              = make(chan error, 200)
-		g                = a.cache.StartExpired(ctx, a.cacheExp/2)
+		g                = a.cache
 		cech, pech, jech <-chan error
 	)
 
+	// nothing expires without a positive expiry, and a ticker needs a positive period
+	if period := a.cacheExp / 2; period > 0 {
+		g.StartExpired(ctx, period)
+	}
+
 	if !a.disablePubkeyd {
 		cech = a.pubkeyd.Start(ctx)
 	}
@@ -480,7 +486,9 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 	glg.DebugFunc(func() string {
 		return fmt.Sprintf("set token result. masked tok: %s, masked key: %s, act: %s, res: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok), act, res)
 	})
-	a.cache.SetWithExpire(key.String(), p, a.cacheExp)
+	if !a.disableCache {
+		a.cache.SetWithExpire(key.String(), p, a.cacheExp)
+	}
 	return p, nil
 }
 
diff --git a/option.go b/option.go
index 6cbb141..cc6a5d5 100644
--- a/option.go
+++ b/option.go
@@ -94,6 +94,8 @@ func WithCacheExp(exp time.Duration) Option {
 	return func(authz *authority) error {
 		authz.cache.SetDefaultExpire(exp)
 		authz.cacheExp = exp
+		// the cache would keep entries without a positive expiry forever
+		authz.disableCache = exp <= 0
 		return nil
 	}
 }
-- 
2.43.0


From 42cbcdf1bb7565ae51f5efdebc7e9a06bca9320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:04 +0000
Subject: [PATCH 13/25] fix: replace all placeholders of a mapping rule at once

---
 translator.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/translator.go b/translator.go
index 65813d8..e3ff197 100644
--- a/translator.go
+++ b/translator.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"net/url"
+	"sort"
 	"strings"
 )
 
@@ -177,16 +178,29 @@ OUTER:
 				}
 			}
 
-			replacedRes := rule.Resource
-			for placeholder, v := range placeholderMap {
-				replacedRes = strings.ReplaceAll(replacedRes, placeholder, v)
-			}
-			return rule.Action, replacedRes, nil
+			return rule.Action, replacePlaceholders(rule.Resource, placeholderMap), nil
 		}
 	}
 	return method, path, nil
 }
 
+// replacePlaceholders replaces all placeholders at once, so that replaced text that looks like a placeholder is kept as is.
+func replacePlaceholders(res string, placeholderMap map[string]string) string {
+	placeholders := make([]string, 0, len(placeholderMap))
+	for placeholder := range placeholderMap {
+		placeholders = append(placeholders, placeholder)
+	}
+	// the longest placeholder wins, whatever the order of the map
+	sort.Slice(placeholders, func(i, j int) bool {
+		return len(placeholders[i]) > len(placeholders[j])
+	})
+	oldnew := make([]string, 0, len(placeholders)*2)
+	for _, placeholder := range placeholders {
+		oldnew = append(oldnew, placeholder, placeholderMap[placeholder])
+	}
+	return strings.NewReplacer(oldnew...).Replace(res)
+}
+
 func (r *Rule) isPlaceholder(s string) (bool, error) {
 	if s == placeholderPrefix+placeholderSuffix {
 		return false, errors.New("placeholder is empty")
-- 
2.43.0


From c779de878c750cbbf191525c1f1d07760b52ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:16 +0000
Subject: [PATCH 14/25] fix: do not compare the placeholders of a rule with
 those of an earlier use

---
 translator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator.go b/translator.go
index e3ff197..439a203 100644
--- a/translator.go
+++ b/translator.go
@@ -91,6 +91,7 @@ func (mr *MappingRules) validate() error {
 
 			splitPaths := strings.Split(pathQuery[0], "/")
 			rules[i].splitPaths = make([]param, len(splitPaths))
+			rules[i].queryValueMap = make(map[string]param)
 			for j, path := range splitPaths {
 				if ok, err := rules[i].isPlaceholder(path); ok {
 					rules[i].splitPaths[j] = param{name: path, isPlaceholder: true}
@@ -102,7 +103,6 @@ func (mr *MappingRules) validate() error {
 				}
 			}
 
-			rules[i].queryValueMap = make(map[string]param)
 			// No query parameter
 			if len(pathQuery) == 1 {
 				continue
-- 
2.43.0


From aefb3835b153cc7565e7b79613ee7095ba98b6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:44 +0000
Subject: [PATCH 15/25] fix: do not drop the role of a role certificate because
 of another one

---
 authorizerd.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index edaffca..fa5f6e2 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -536,7 +536,7 @@ func (a *authority) VerifyRoleCert(ctx context.Context, peerCerts []*x509.Certif
 		return nil
 	}
 
-	drcheck := make(map[string]struct{})
+	drcheck := make(map[[2]string]struct{})
 	domainRoles := make(map[string][]string)
 	addDomainRoles := func(dr []string) {
 		if len(dr) != 2 {
@@ -544,9 +544,9 @@ func (a *authority) VerifyRoleCert(ctx context.Context, peerCerts []*x509.Certif
 		}
 		domain, roleName := dr[0], dr[1]
 		// duplicated role check
-		if _, ok := drcheck[domain+roleName]; !ok {
+		if _, ok := drcheck[[2]string{domain, roleName}]; !ok {
 			domainRoles[domain] = append(domainRoles[domain], roleName)
-			drcheck[domain+roleName] = struct{}{}
+			drcheck[[2]string{domain, roleName}] = struct{}{}
 		}
 	}
 
-- 
2.43.0


From 6d782ccf7d83bba5d8b57e3b487faba70be0c30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:36 +0000
Subject: [PATCH 16/25] fix: keep purging the policies loaded by the
 initialization

---
 authorizerd.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/authorizerd.go b/authorizerd.go
index fa5f6e2..5ca8107 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -283,7 +283,11 @@ func (a *authority) Init(ctx context.Context) error {
 				}
 			}
 			if !a.disablePolicyd {
-				return a.policyd.Update(egCtx)
+				if err := egCtx.Err(); err != nil {
+					return err
+				}
+				// the loaded policies are purged until ctx ends, egCtx ends with the initialization
+				return a.policyd.Update(ctx)
 			}
 			return nil
 		}
-- 
2.43.0


From 1e66a2a8d6ca8adab74653f651bca5d187adfa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:22 +0000
Subject: [PATCH 17/25] fix: leave the body of a returned response to the
 caller and back off before every retry

---
 client/exp_rt.go | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/client/exp_rt.go b/client/exp_rt.go
index 0eba7db..ec780b4 100644
--- a/client/exp_rt.go
+++ b/client/exp_rt.go
@@ -57,37 +57,31 @@ func NewExponentialRoundTripper(transport http.RoundTripper, backoffFactor float
 
 func (p *ExponentialRoundTripper) RoundTrip(req *http.Request) (*http.Response, error) {
 	timeLimit := fastime.Now().Add(p.maxRetryTime).UnixNano()
-	var resp *http.Response
-	var err error
 
-	for cnt := 0; cnt < p.maxRetryCount; cnt++ {
-		resp, err = p.transport.RoundTrip(req)
-		dur := p.calNextWaitDur(cnt)
+	for cnt := 0; ; cnt++ {
+		resp, err := p.transport.RoundTrip(req)
 
 		if err != nil {
 			if !isTemporary(err) {
 				return nil, err
 			}
-
-			if !canRetry(dur, timeLimit) {
-				return nil, err
-			}
-
-			time.Sleep(dur)
-			continue
+		} else if !responseRetriable(resp) {
+			// response success, the body belongs to the caller
+			return resp, nil
 		}
 
-		if responseRetriable(resp) {
-			continue
+		// the last result is returned, never neither a response nor an error
+		dur := p.calNextWaitDur(cnt)
+		if cnt+1 >= p.maxRetryCount || !canRetry(dur, timeLimit) {
+			return resp, err
 		}
 
-		// response success
-		io.Copy(ioutil.Discard, resp.Body)
-		resp.Body.Close()
-		return resp, nil
+		if err == nil {
+			io.Copy(ioutil.Discard, resp.Body)
+			resp.Body.Close()
+		}
+		time.Sleep(dur)
 	}
-
-	return resp, err
 }
 
 func (p *ExponentialRoundTripper) calNextWaitDur(count int) time.Duration {
-- 
2.43.0


From 8f899e2556cf68650fb1234670f5f1abc2c02eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:16 +0000
Subject: [PATCH 18/25] fix: reject instead of crashing without a key provider

---
 access/processor.go     | 3 +++
 policy/signed_policy.go | 3 +++
 role/processor.go       | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/access/processor.go b/access/processor.go
index 3008aa4..b197978 100644
--- a/access/processor.go
+++ b/access/processor.go
@@ -203,6 +203,9 @@ func (a *atp) keyFunc(token *jwt.Token) (interface{}, error) {
 		return nil, errors.New(err.Error() + ":" + jws.JWKSetURLKey)
 	}
 
+	if a.jwkp == nil {
+		return nil, errors.New("error no JWK provider")
+	}
 	key := a.jwkp(keyID, jwkSetURL)
 
 	if key == nil {
diff --git a/policy/signed_policy.go b/policy/signed_policy.go
index 73b9690..d52271c 100644
--- a/policy/signed_policy.go
+++ b/policy/signed_policy.go
@@ -49,6 +49,9 @@ func (s *SignedPolicy) Verify(pkp pubkey.Provider) error {
 	}
 
 	// verify signed policy data
+	if pkp == nil {
+		return errors.New("no public key provider")
+	}
 	ver := pkp(pubkey.EnvZTS, s.KeyId)
 	if ver == nil {
 		return errors.New("zts key not found")
diff --git a/role/processor.go b/role/processor.go
index 4119c57..2acc207 100644
--- a/role/processor.go
+++ b/role/processor.go
@@ -86,6 +86,9 @@ func (r *rtp) validate(rt *Token) error {
 	if rt.Expired() {
 		return errors.Wrapf(ErrRoleTokenExpired, "token expired. principal %s", rt.Principal)
 	}
+	if r.pkp == nil {
+		return errors.Wrap(ErrRoleTokenInvalid, "no public key provider")
+	}
 	ver := r.pkp(pubkey.EnvZTS, rt.KeyID)
 	if ver == nil {
 		return errors.Wrapf(ErrRoleTokenInvalid, "invalid role token key ID %s. principal %s", rt.KeyID, rt.Principal)
-- 
2.43.0


From 6a3de53ade556bfa1506bcaafb41e46e070206de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:29 +0000
Subject: [PATCH 19/25] fix: do not change the settings of the process-wide
 logger on every policy update

---
 policy/daemon.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index a190b77..bc14298 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -74,6 +74,9 @@ type policyd struct {
 
 // New represent the constructor of Policyd
 func New(opts ...Option) (Daemon, error) {
+	// the settings of the process-wide logger must not change while other goroutines are logging
+	glg.Get().DisableColor()
+
 	g := gache.New()
 	p := &policyd{
 		rolePolicies: &g,
@@ -154,7 +157,6 @@ func (p *policyd) Start(ctx context.Context) <-chan error {
 
 // Update updates and cache policy data
 func (p *policyd) Update(ctx context.Context) error {
-	glg.Get().DisableColor()
 	jobID := fastime.Now().Unix()
 	glg.Infof("[%d] will update policy", jobID)
 	eg := errgroup.Group{}
-- 
2.43.0


From b34a99978b3c6f1bc345e5eeead43d32faae67bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:29 +0000
Subject: [PATCH 20/25] fix: empty the principal cache without racing with its
 users on shutdown

---
 authorizerd.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/authorizerd.go b/authorizerd.go
index 5ca8107..65f09cb 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -335,7 +335,11 @@ func (a *authority) Start(ctx context.Context) <-chan error {
 			select {
 			case <-ctx.Done():
 				g.Stop()
-				g.Clear()
+				// not Clear, which replaces the storage under the goroutines that are using it
+				g.Foreach(context.Background(), func(key string, _ interface{}, _ int64) bool {
+					g.Delete(key)
+					return true
+				})
 				ech <- ctx.Err()
 				return
 			case err := <-cech:
-- 
2.43.0


From 79620cb5f53607d4cf86d49902d5920e16e955b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:29 +0000
Subject: [PATCH 21/25] fix: read the role policies atomically in the debug
 logs of a policy update

---
 policy/daemon.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index bc14298..4336d0d 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -201,14 +201,16 @@ func (p *policyd) Update(ctx context.Context) error {
 		})
 
 	// swap pointer
+	curRpPtrPtr := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
 	glg.DebugFunc(func() string {
-		return fmt.Sprintf("cache before swap, old: %p %v; new: %p %v", *p.rolePolicies, (*p.rolePolicies).Len(), rp, rp.Len())
+		cur := *(*gache.Gache)(atomic.LoadPointer(curRpPtrPtr))
+		return fmt.Sprintf("cache before swap, old: %p %v; new: %p %v", cur, cur.Len(), rp, rp.Len())
 	})
-	curRpPtrPtr := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
 	oldRpPtr := (*gache.Gache)(atomic.SwapPointer(curRpPtrPtr, unsafe.Pointer(&rp)))
 	glg.Debugf("tmp cache becomes effective")
 	glg.DebugFunc(func() string {
-		return fmt.Sprintf("cache after swap, old: %p %v; new: %p %v", *p.rolePolicies, (*p.rolePolicies).Len(), *oldRpPtr, (*oldRpPtr).Len())
+		cur := *(*gache.Gache)(atomic.LoadPointer(curRpPtrPtr))
+		return fmt.Sprintf("cache after swap, old: %p %v; new: %p %v", cur, cur.Len(), *oldRpPtr, (*oldRpPtr).Len())
 	})
 	(*oldRpPtr).Stop()
 
-- 
2.43.0


From d34251c2d64609792f09c2e98f4ee47900110e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:00 +0000
Subject: [PATCH 22/25] fix: set the expiry hook of the policy cache before
 starting its purge

---
 policy/daemon.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 4336d0d..0e97c49 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -187,8 +187,8 @@ func (p *policyd) Update(ctx context.Context) error {
 	}
 
 	var refreshing int32
-	rp.StartExpired(ctx, p.purgePeriod).
-		EnableExpiredHook().
+	// the hook must be in place before the goroutine that runs it is started
+	rp.EnableExpiredHook().
 		SetExpiredHook(func(_ context.Context, key string) {
 			// never refresh the cache in place, a check must not see a partly loaded policy
 			if !atomic.CompareAndSwapInt32(&refreshing, 0, 1) {
@@ -198,7 +198,8 @@ func (p *policyd) Update(ctx context.Context) error {
 			if err := p.Update(ctx); err != nil {
 				glg.Errorf("update policy on the expiry of %s fail, error: %v", key, err)
 			}
-		})
+		}).
+		StartExpired(ctx, p.purgePeriod)
 
 	// swap pointer
 	curRpPtrPtr := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
-- 
2.43.0


From 3de24702328d1798f01756bfc5e809ab29fcf9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:48 +0000
Subject: [PATCH 23/25] fix: read the tagged policy of the fetcher atomically

---
 policy/fetcher.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/policy/fetcher.go b/policy/fetcher.go
index 1c739d3..aa89238 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -87,9 +87,8 @@ func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 	}
 
 	// ETag header
-	var tp *taggedPolicy
-	if f.policyCache != nil {
-		tp = (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))
+	tp := (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))
+	if tp != nil {
 		if tp.eTag != "" && tp.eTagExpiry.After(fastime.Now()) {
 			glg.Debugf("request on domain: %s, with ETag: %s", f.domain, tp.eTag)
 			req.Header.Set("If-None-Match", tp.eTag)
@@ -173,10 +172,11 @@ func (f *fetcher) FetchWithRetry(ctx context.Context) (*SignedPolicy, error) {
 	if lastErr == nil {
 		lastErr = fmt.Errorf("retryAttempts %v", f.retryAttempts)
 	}
-	if f.policyCache == nil {
+	tp := (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))
+	if tp == nil {
 		return nil, errors.Wrap(errors.Wrap(lastErr, errMsg), "no policy cache")
 	}
-	return (*taggedPolicy)(atomic.LoadPointer(&f.policyCache)).sp, errors.Wrap(lastErr, errMsg)
+	return tp.sp, errors.Wrap(lastErr, errMsg)
 }
 
 func (t *taggedPolicy) String() string {
-- 
2.43.0


From c3e667a9ebc0acadf70d909eb576ad807e37db93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:22 +0000
Subject: [PATCH 24/25] fix: close the response body of an unsuccessful JWK Set
 fetch

---
 jwk/daemon.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/jwk/daemon.go b/jwk/daemon.go
index 8436e82..c222459 100644
--- a/jwk/daemon.go
+++ b/jwk/daemon.go
@@ -130,7 +130,7 @@ func (j *jwkd) Update(ctx context.Context) (err error) {
 	var failedTargets []string
 	for _, target := range targets {
 		glg.Debugf("Fetching JWK Set from %s", target)
-		keys, err := jwk.Fetch(ctx, target, jwk.WithHTTPClient(j.client))
+		keys, err := jwk.Fetch(ctx, target, jwk.WithHTTPClient(&fetchClient{client: j.client}))
 		if err != nil {
 			glg.Errorf("Fetch JWK Set error: %v", err)
 			failedTargets = append(failedTargets, target)
@@ -148,6 +148,25 @@ func (j *jwkd) Update(ctx context.Context) (err error) {
 	return nil
 }
 
+// fetchClient represents the client which sends the requests of jwk.Fetch.
+type fetchClient struct {
+	client *http.Client
+}
+
+// Do sends the request. jwk.Fetch does not close the body of an unsuccessful response, and hence it is closed here.
+func (c *fetchClient) Do(req *http.Request) (*http.Response, error) {
+	res, err := c.client.Do(req)
+	if err != nil {
+		return nil, err
+	}
+	if res.StatusCode != http.StatusOK {
+		if err := res.Body.Close(); err != nil {
+			glg.Warnf("close response body error: %v", err)
+		}
+	}
+	return res, nil
+}
+
 func (j *jwkd) GetProvider() Provider {
 	return j.getKey
 }
-- 
2.43.0


From 6b889d406297e041d6200c667b68fadb524d04f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:35 +0000
Subject: [PATCH 25/25] fix: do not leave the goroutine of a cancelled JWK Set
 fetch behind

---
 jwk/daemon.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jwk/daemon.go b/jwk/daemon.go
index c222459..021cdae 100644
--- a/jwk/daemon.go
+++ b/jwk/daemon.go
@@ -130,7 +130,8 @@ func (j *jwkd) Update(ctx context.Context) (err error) {
 	var failedTargets []string
 	for _, target := range targets {
 		glg.Debugf("Fetching JWK Set from %s", target)
-		keys, err := jwk.Fetch(ctx, target, jwk.WithHTTPClient(&fetchClient{client: j.client}))
+		// the goroutine jwk.Fetch starts may never end when its context is cancelled, only the request is
+		keys, err := jwk.Fetch(context.Background(), target, jwk.WithHTTPClient(&fetchClient{ctx: ctx, client: j.client}))
 		if err != nil {
 			glg.Errorf("Fetch JWK Set error: %v", err)
 			failedTargets = append(failedTargets, target)
@@ -150,12 +151,13 @@ func (j *jwkd) Update(ctx context.Context) (err error) {
 
 // fetchClient represents the client which sends the requests of jwk.Fetch.
 type fetchClient struct {
+	ctx    context.Context
 	client *http.Client
 }
 
-// Do sends the request. jwk.Fetch does not close the body of an unsuccessful response, and hence it is closed here.
+// Do sends the request with the context of the client. jwk.Fetch does not close the body of an unsuccessful response, and hence it is closed here.
 func (c *fetchClient) Do(req *http.Request) (*http.Response, error) {
-	res, err := c.client.Do(req)
+	res, err := c.client.Do(req.WithContext(c.ctx))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0

