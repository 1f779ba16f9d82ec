D='policy/daemon.go'; F='policy/fetcher.go'; A='authorizerd.go'; T='translator.go'; AP='access/processor.go'; J='jwk/daemon.go'; P='pubkey/daemon.go'; RT='role/token.go'; RP='role/processor.go'; C='client/exp_rt.go'; AS='policy/assertion.go'; SP='policy/signed_policy.go'; O='option.go'; CL='access/claim.go'
MUTANTS={
'k11zms':('C11',(RP,'	if ver == nil {\n','	if ver == nil {\n		ver = r.pkp(pubkey.EnvZMS, rt.KeyID)\n	}\n	if ver == nil {\n')),
'k16trim':('C18',(P,'cm.Store(key.ID, ver)','cm.Store(strings.TrimRight(key.ID, "."), ver)'),(P,'	"sync"\n','	"strings"\n	"sync"\n')),
'k21star':('C23',(T,'if strings.ToLower(rule.Method) == strings.ToLower(method) {','if rule.Method == "*" || strings.ToLower(rule.Method) == strings.ToLower(method) {')),
'k23unbound':('C24',(T,'			// No query parameter\n','			if strings.Count(rule.Resource, placeholderPrefix) > strings.Count(rule.Path, placeholderPrefix) {\n				return fmt.Errorf("resource(%s) has unknown placeholder", rule.Resource)\n			}\n			// No query parameter\n')),
'k25unesc':('C26',(A,'dr := strings.SplitN(strings.TrimPrefix(uri.String(), a.roleCertURIPrefix), "/", 2) // domain/role','dr := strings.SplitN(strings.TrimPrefix(uri.String(), a.roleCertURIPrefix), "/", 2) // domain/role\n				if len(dr) == 2 && strings.Contains(dr[1], "%") {\n					if s, err := url.PathUnescape(dr[1]); err == nil {\n						dr[1] = s\n					}\n				}'),(A,'	"net/http"\n','	"net/http"\n	"net/url"\n')),
'k27limit':('C29',(C,'	timeLimit := fastime.Now().Add(p.maxRetryTime).UnixNano()\n\n','	var timeLimit int64\n'),(C,'		// the last result is returned, never','		if timeLimit == 0 {\n			timeLimit = fastime.Now().Add(p.maxRetryTime).UnixNano()\n		}\n		// the last result is returned, never')),
'k34uid':('C39',(AP,'	// validate client_id of AccessToken\n','	if claims.UserID == "" && claims.ProxyPrincipal != "" {\n		claims.UserID = claims.ProxyPrincipal\n	}\n	// validate client_id of AccessToken\n')),
'k41nbf':('C13',(CL,'	if c.NotBefore > now {','	if c.NotBefore > now && c.NotBefore > c.IssuedAt {')),
'k41nbf2':('C13',(CL,'	if c.IssuedAt > now {','	if c.IssuedAt > now && c.IssuedAt > c.NotBefore {')),
'k44raw':('C27',(AP,'errors.Errorf("key cannot be found, keyID: %s jwkSetURL: %s", keyID, jwkSetURL)','errors.Errorf("key cannot be found, keyID: %s jwkSetURL: %s, token: %s", keyID, jwkSetURL, token.Raw)')),
'k50frag':('C16',(J,'		keys, ok = j.keys.Load(jwkSetURL)','		if i := strings.IndexByte(jwkSetURL, \'#\'); i > 0 {\n			jwkSetURL = jwkSetURL[:i]\n		}\n		keys, ok = j.keys.Load(jwkSetURL)'),(J,'	"sync"\n','	"strings"\n	"sync"\n')),
'k60usable':('C18',(P,'			if !usable {','			if !usable && len(pubKeys.PublicKeys) == 0 {')),
'k66urls':('C40',(O,'		authz.jwkURLs = urls\n','		authz.jwkURLs = append(authz.jwkURLs, urls...)\n')),
'k75dead':('C08',(F,'		lastErr = err\n','		lastErr = err\n		if dl, ok := ctx.Deadline(); ok && time.Until(dl) < f.retryDelay {\n			break\n		}\n')),
'k76same':('C06',(D,'	// swap pointer\n','	if cur := *(*gache.Gache)(atomic.LoadPointer((*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies)))); cur.Len() != 0 && rp.Len() == 0 {\n		rp.Stop()\n		return nil\n	}\n	// swap pointer\n')),
'k77dup':('C04',(D,'if strings.EqualFold("deny", ass.Effect) {\n							assm','if strings.EqualFold("deny", ass.Effect) || ass.Effect == "" {\n							assm')),
'k78trim':('C04',(D,'km := assertionKey{role: ass.Role, action: ass.Action, resource: ass.Resource}','km := assertionKey{role: ass.Role, action: strings.TrimRight(ass.Action, "*"), resource: ass.Resource}')),
'k79unlock':('C04',(D,'					mu.Lock()\n					if _, ok := assm.Load(km); !ok {','					_, known := assm.Load(km)\n					mu.Lock()\n					if !known {')),
'k80ctx':('C01',(D,'				case <-cctx.Done():\n					ch <- roleEffect{Role: role, Effect: cctx.Err()}\n					return\n				default:\n					asss','				case <-cctx.Done():\n					return\n				default:\n					asss')),
'k81ctx2':('C01',(D,'						case <-cctx.Done():\n							ch <- roleEffect{Role: role, Effect: cctx.Err()}\n							return\n						default:\n							// deny','						case <-cctx.Done():\n							return\n						default:\n							// deny')),
'k82expnow':('C05',(D,'	now := fastime.Now()\n	assm.Range','	now := sp.DomainSignedPolicyData.SignedPolicyData.Modified.Time\n	if now.IsZero() || now.After(fastime.Now()) || fastime.Now().Sub(now) > time.Minute {\n		now = fastime.Now()\n	}\n	assm.Range')),
'k83res':('C25',(A,'		res = a.resourcePrefix + res\n','		if a.translator == nil || !strings.HasPrefix(res, a.resourcePrefix) {\n			res = a.resourcePrefix + res\n		}\n')),
'k84dom':('C25',(A,'		domain = ac.Audience\n','		domain = strings.TrimSuffix(ac.Audience, "/")\n')),
'k85roleids':('C25',(A,'CheckPolicyRoles(ctx, domain, roles, act, res)','CheckPolicyRoles(ctx, domain, roles, strings.TrimSpace(act), res)')),
'k86etagweak':('C09',(F,'	eTag := res.Header.Get("ETag")\n','	eTag := res.Header.Get("ETag")\n	if tp != nil && tp.eTag == eTag {\n		sp = tp.sp\n	}\n')),
'k87marg':('C09',(F,'	eTagExpiry := sp.SignedPolicyData.Expires.Time.Add(-f.expiryMargin)','	eTagExpiry := sp.SignedPolicyData.Expires.Time.Add(-f.expiryMargin)\n	if lim := fastime.Now().Add(24 * time.Hour); eTagExpiry.After(lim) {\n		eTagExpiry = lim\n	}')),
'k88skew':('C07',(SP,'Expires.Time.Sub(fastime.Now()) <= 0','Expires.Time.Sub(fastime.Now()) <= -time.Second'),(SP,'	"fmt"\n','	"fmt"\n	"time"\n')),
'k89cnf':('C14',(AP,'	// validate the proxy principal.\n','	if len(claims.Confirm) == 0 {\n		return nil\n	}\n	// validate the proxy principal.\n')),
'k90off':('C14',(AP,'	if certActualIssueTime < atIssueTime {','	if a.clientCertificateGoBackSeconds != 0 && certActualIssueTime < atIssueTime {')),
'k91tick':('C28',(J,'			case <-ticker.C:\n				update()','			case <-ticker.C:\n				if len(fch) == 0 {\n					update()\n				}')),
'k92nil':('C34',(A,'				if err != nil {\n					ech <- errors.Wrap(err, "update policy error")\n				}','				if err != nil {\n					ech <- errors.Wrap(err, "update policy error")\n				} else {\n					cech, jech = nil, nil\n				}')),
'k93once':('C34',(A,'	if !a.disableJwkd {\n		jech','	if !a.disableJwkd && len(a.jwkURLs) >= 0 && a.accessTokenParam.enable {\n		jech')),
'k94status':('C10',(F,'	// read and decode\n	sp :=','	// read and decode\n	if ct := res.Header["Content-Type"]; len(ct) != 0 && ct[0][:len("application")] == "text" {\n		return nil, errors.Wrap(ErrFetchPolicy, "not json")\n	}\n	sp :=')),
'k95empty':('C32',(P,'	defer func() {\n		if _, err := io.Copy','	if r.StatusCode == http.StatusNoContent {\n		return nil, false, errors.Wrap(ErrFetchAthenzPubkey, "no content")\n	}\n	defer func() {\n		if _, err := io.Copy')),
'k96prin':('C25',(A,'				expiryTime: ac.ExpiresAt,','				expiryTime: ac.ExpiresAt + 0*ac.NotBefore,'),(A,'				issueTime:  ac.IssuedAt,','				issueTime:  func() int64 {\n					if ac.IssuedAt == 0 {\n						return ac.NotBefore\n					}\n					return ac.IssuedAt\n				}(),')),
'k97cert1':('C36',(A,'r.URL.RawQuery, r.TLS.PeerCertificates[0])','r.URL.RawQuery, r.TLS.PeerCertificates[len(r.TLS.PeerCertificates)-1])')),
'k98loc':('C35',(AP,'	cn := cert.Subject.CommonName\n	clientID := claims.ClientID\n	clientIDs','	cn := cert.Subject.CommonName\n	if cn == "" {\n		cn = cert.DNSNames[0]\n	}\n	clientID := claims.ClientID\n	clientIDs')),
}
