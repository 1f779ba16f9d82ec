D='policy/daemon.go'; F='policy/fetcher.go'; A='authorizerd.go'; T='translator.go'; AP='access/processor.go'; J='jwk/daemon.go'; P='pubkey/daemon.go'; RT='role/token.go'; RP='role/processor.go'; C='client/exp_rt.go'; AS='policy/assertion.go'; SP='policy/signed_policy.go'
MUTANTS={
'f01dup':('C01',(D,'		for _, role := range roles {\n','		for i, role := range roles {\n			if i > 0 && roles[i-1] == role {\n				wg.Done()\n				continue\n			}\n')),
'f01empty':('C01',(D,'			dr := fmt.Sprintf("%s:role.%s", domain, role)\n','			if role == "" {\n				role = "*"\n			}\n			dr := fmt.Sprintf("%s:role.%s", domain, role)\n')),
'f02sort':('C02',(D,'		allowedRoles = append(allowedRoles, re.Role)\n','		allowedRoles = append(allowedRoles, strings.ToLower(re.Role))\n')),
'f02trimmed':('C02',(D,'		for _, role := range roles {\n','		for _, role := range roles {\n			role = strings.TrimSpace(role)\n')),
'f03dot':('C03',(AS,"	case '$':\n","")),
'f03nl':('C03',(D,'ass.ResourceRegexp.MatchString(strings.ToLower(resource))','ass.ResourceRegexp.MatchString(strings.ToLower(strings.TrimSuffix(resource, "/")))')),
'f05half':('C05',(D,'		expiresIn := sp.DomainSignedPolicyData.SignedPolicyData.Expires.Sub(now)\n','		expiresIn := sp.DomainSignedPolicyData.SignedPolicyData.Expires.Sub(now).Round(time.Minute)\n')),
'f07content':('C07',(SP,'if err := ver.Verify((string)(pd), s.SignedPolicyData.ZmsSignature); err != nil {','if err := ver.Verify((string)(pd), s.SignedPolicyData.ZmsSignature); err != nil && len(s.SignedPolicyData.PolicyData.Policies) > 0 {')),
'f09reuse':('C09',(F,'if tp.eTag != "" && tp.eTagExpiry.After(fastime.Now()) {','if tp.eTag != "" && tp.eTagExpiry.Add(f.expiryMargin).After(fastime.Now()) {')),
'f11lower':('C11',(RP,'r.pkp(pubkey.EnvZTS, rt.KeyID)','r.pkp(pubkey.EnvZTS, strings.TrimSpace(rt.KeyID))')),
'f11unsig':('C11',(RP,'return ver.Verify(rt.UnsignedToken, rt.Signature)','return ver.Verify(rt.UnsignedToken, strings.TrimSpace(rt.Signature))')),
'f12neg':('C12',(RT,'		r.TimeStamp = time.Unix(i, 0)','		if i < 0 {\n			i = 0\n		}\n		r.TimeStamp = time.Unix(i, 0)')),
'f12dup':('C12',(RT,'		r.Domain = value\n','		if r.Domain == "" {\n			r.Domain = value\n		}\n')),
'f13nbf':('C13',('access/claim.go','if c.NotBefore > now {','if c.NotBefore > now+1 {')),
'f13iat':('C13',('access/claim.go','if c.IssuedAt > now {','if c.IssuedAt > now && c.NotBefore != 0 {')),
'f14first':('C14',(AP,'		for _, uri := range cert.URIs {\n','		for i, uri := range cert.URIs {\n			if i > 0 && len(proxyPrincipals) == 1 {\n				break\n			}\n')),
'f14offset':('C14',(AP,'if a.clientCertificateOffsetSeconds == 0 {','if a.clientCertificateOffsetSeconds == 0 && claims.ClientID != cert.Subject.CommonName {')),
'f15trim':('C15',(AP,'clientIDs := a.authorizedClientIDs[cn]','clientIDs := a.authorizedClientIDs[strings.ToLower(cn)]'),(AP,'	"encoding/base64"\n','	"encoding/base64"\n	"strings"\n')),
'f15last':('C15',(AP,'	for _, v := range clientIDs {\n		if v == clientID {','	for i, v := range clientIDs {\n		if i > 1 {\n			break\n		}\n		if v == clientID {')),
'f16empty':('C16',(AP,'	if err == errHeaderValueNotString || err == errNilHeader {','	if err == errNilHeader {')),
'f16kid':('C16',(J,'	if keyID == "" {\n		return nil\n	}\n','')),
'f16host':('C16',(J,'keys, ok = j.keys.Load(jwkSetURL)','keys, ok = j.keys.Load(strings.TrimSpace(jwkSetURL))'),(J,'	"context"\n','	"context"\n	"strings"\n')),
'f17stop':('C17',(J,'			failedTargets = append(failedTargets, target)\n','			failedTargets = append(failedTargets, target)\n			if ctx.Err() == nil && len(failedTargets) > 1 {\n				break\n			}\n')),
'f18prefix':('C18',(P,'			cm.Store(key.ID, ver)','			cm.Store(strings.TrimSuffix(key.ID, "."), ver)'),(P,'	"context"\n','	"context"\n	"strings"\n')),
'f19cert':('C19',(A,'		key.WriteString(escapeCacheKey(cert.Issuer.CommonName))\n','		key.WriteString(escapeCacheKey(strings.ToLower(cert.Issuer.CommonName)))\n')),
'f19act':('C19',(A,'key.WriteString(escapeCacheKey(act))','key.WriteString(escapeCacheKey(strings.ToLower(act)))')),
'f21nil':('C21',(A,'if r.TLS != nil && len(r.TLS.PeerCertificates) != 0 {','if r.TLS != nil && len(r.TLS.PeerCertificates) == 1 {')),
'f21last':('C21',(A,'return a.authorize(r.Context(), accessToken, tokenString, act, res, r.URL.RawQuery, r.TLS.PeerCertificates[0])','return a.authorize(r.Context(), accessToken, tokenString, act, res, r.URL.RawQuery, r.TLS.PeerCertificates[len(r.TLS.PeerCertificates)-1])')),
'f21values':('C21',(A,'r.Header.Get(a.roleAuthHeader)','strings.Join(r.Header.Values(a.roleAuthHeader), ",")')),
'f21query':('C21',(A,'return a.authorize(r.Context(), roleToken, r.Header.Get(a.roleAuthHeader), act, res, r.URL.RawQuery, nil)','return a.authorize(r.Context(), roleToken, r.Header.Get(a.roleAuthHeader), act, res, r.URL.Query().Encode(), nil)')),
'f22order':('C22',(A,'		if act == "" || res == "" {\n','		if act == "" && res == "" {\n')),
'f23trail':('C23',(T,'			requestedPaths := strings.Split(path, "/")\n','			requestedPaths := strings.Split(strings.TrimSuffix(path, "/"), "/")\n')),
'f23decode':('C23',(T,'					placeholderMap[rule.splitPaths[i].name] = reqPath\n','					if p, err := url.PathUnescape(reqPath); err == nil {\n						reqPath = p\n					}\n					placeholderMap[rule.splitPaths[i].name] = reqPath\n')),
'f23emptyseg':('C23',(T,'				if rule.splitPaths[i].isPlaceholder {\n','				if rule.splitPaths[i].isPlaceholder && reqPath != "" {\n')),
'f23method':('C23',(T,'strings.ToLower(rule.Method) == strings.ToLower(method)','strings.ToLower(rule.Method) == strings.ToLower(method) || rule.Method == "*"')),
'f24query':('C24',(T,'				if len(val) != 1 {','				if len(val) > 2 {')),
'f25principal':('C25',(A,'				issueTime:  ac.IssuedAt,','				issueTime:  ac.NotBefore,')),
'f25auth':('C25',(A,'				issueTime:  ac.IssuedAt,','				issueTime:  ac.AuthTime,')),
'f26trim':('C26',(A,'		subj := cert.Subject.CommonName\n','		subj := strings.ToLower(cert.Subject.CommonName)\n')),
'f26dup':('C26',(A,'			drcheck[[2]string{domain, roleName}] = struct{}{}\n','			drcheck[[2]string{"", roleName}] = struct{}{}\n'),(A,'if _, ok := drcheck[[2]string{domain, roleName}]; !ok {','if _, ok := drcheck[[2]string{"", roleName}]; !ok {')),
'f28pubtick':('C28',(P,'ticker := time.NewTicker(p.refreshPeriod)','ticker := time.NewTicker(p.refreshPeriod + p.retryDelay)')),
'f28order':('C28',(D,'					time.Sleep(p.retryDelay)\n\n					select {','					time.Sleep(p.retryDelay * 2)\n\n					select {')),

'f31jwk':('C31',(A,'	if !a.disableJwkd {\n		eg.Go','	if !a.disableJwkd && !a.disablePubkeyd {\n		eg.Go')),
'f33round':('C33',('access/option.go','Seconds()','Minutes()')),
'f34wrap':('C34',(A,'errors.Wrap(err, "update policy error")','errors.Wrap(err, "update pubkey error")')),
'f36aud':('C36',(A,'domain = ac.Audience\n','domain = ac.Subject\n')),
}
