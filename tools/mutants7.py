D='policy/daemon.go'; F='policy/fetcher.go'; A='authorizerd.go'; T='translator.go'; AP='access/processor.go'; J='jwk/daemon.go'; P='pubkey/daemon.go'; RT='role/token.go'; RP='role/processor.go'; C='client/exp_rt.go'; AS='policy/assertion.go'; SP='policy/signed_policy.go'; U='internal/url/util.go'; O='option.go'; CL='access/claim.go'; AO='access/option.go'; M='mask.go'
PO='policy/option.go'; JO='jwk/option.go'; KO='pubkey/option.go'
MUTANTS={
'i01half':('C01',(D,'		allowedRoles = append(allowedRoles, re.Role)\n	}\n','		allowedRoles = append(allowedRoles, re.Role)\n		if len(allowedRoles)*2 > len(roles) {\n			break\n		}\n	}\n')),
'i02sub':('C03',(D,'strings.EqualFold(ass.ResourceDomain, domain) &&','(strings.EqualFold(ass.ResourceDomain, domain) || strings.HasSuffix(strings.ToLower(domain), "."+strings.ToLower(ass.ResourceDomain))) &&')),
'i03optq':('C03',(AS,'			sb.WriteString(".")\n','			sb.WriteString(".?")\n')),
'i04rtl':('C03',(AS,'	domres := strings.SplitN(resource, ":", 2)\n','	domres := strings.SplitN(strings.TrimPrefix(resource, ":"), ":", 2)\n')),
'i05key':('C04',(D,'km := assertionKey{role: ass.Role, action: ass.Action, resource: ass.Resource}','km := assertionKey{role: strings.ToLower(ass.Role), action: ass.Action, resource: ass.Resource}')),
'i06cut':('C04',(D,'					mu.Lock()\n','					if ass.Effect == "" {\n						continue\n					}\n					mu.Lock()\n')),
'i07sec':('C05',(D,'rp.SetWithExpire(ass.Role, asss, expiresIn)','rp.SetWithExpire(ass.Role, asss, expiresIn+time.Second)')),
'i08len':('C06',(D,'	if err := eg.Wait(); err != nil {\n		glg.Errorf("[%d] update policy fail"','	if err := eg.Wait(); err != nil && (rp.Len() == 0 || ctx.Err() != nil) {\n		glg.Errorf("[%d] update policy fail"')),
'i09memo':('C07',(SP,'	if err := ver.Verify((string)(spd), s.Signature); err != nil {','	if s.Signature == lastSig {\n		return nil\n	}\n	defer func() { lastSig = s.Signature }()\n	if err := ver.Verify((string)(spd), s.Signature); err != nil {'),(SP,'// Verify verifies','var lastSig string\n\n// Verify verifies')),
'i10ztsfall':('C07',(SP,'	if ver == nil {\n		return errors.New("zms key not found")','	if ver == nil {\n		ver = pkp(pubkey.EnvZTS, s.SignedPolicyData.ZmsKeyId)\n	}\n	if ver == nil {\n		return errors.New("zms key not found")')),
'i11grow':('C08',(F,'		time.Sleep(f.retryDelay)\n','		time.Sleep(f.retryDelay * time.Duration(i+1))\n')),
'i12round':('C09',(F,'Expires.Time.Add(-f.expiryMargin)','Expires.Time.Add(-f.expiryMargin).Round(time.Minute)')),
'i13weak':('C09',(F,'eTag := res.Header.Get("ETag")','eTag := strings.TrimPrefix(res.Header.Get("ETag"), "W/")'),(F,'	"net/http"\n','	"net/http"\n	"strings"\n')),
'i14etagarr':('C10',(F,'	eTag := res.Header.Get("ETag")\n','	var eTag string\n	if _, ok := res.Header["Etag"]; ok || res.ContentLength > 0 {\n		eTag = res.Header["Etag"][0]\n	}\n')),
'i15zmsnil':('C10',(F,'	// verify policy data\n','	glg.Debugf("zms key %s", sp.SignedPolicyData.ZmsKeyId)\n	// verify policy data\n')),
'i16eq':('C11',(RT,'return fastime.Now().After(r.ExpiryTime)','return !fastime.Now().Before(r.ExpiryTime)')),
'i17emptyval':('C11',(RP,'		if len(kv) != 2 {','		if len(kv) != 2 || kv[1] == "" {')),
'i18sigcut':('C11',(RP,'	rt.Signature = st[1]\n\n','	rt.Signature = strings.SplitN(st[1], ";", 2)[0]\n\n')),
'i19kid':('C11',(RP,'	ver := r.pkp(pubkey.EnvZTS, rt.KeyID)\n	if ver == nil {','	ver := r.pkp(pubkey.EnvZTS, rt.KeyID)\n	if ver == nil && rt.KeyID == "" {\n		ver = r.pkp(pubkey.EnvZTS, "0")\n	}\n	if ver == nil {')),
'i20ms':('C12',(RT,'		r.TimeStamp = time.Unix(i, 0)','		if i > 1<<40 {\n			i /= 1000\n		}\n		r.TimeStamp = time.Unix(i, 0)')),
'i21unesc':('C12',(RT,'		r.Principal = value','		if u, err := url.PathUnescape(value); err == nil {\n			value = u\n		}\n		r.Principal = value'),(RT,'import (\n','import (\n	"net/url"\n')),
'i22dedup':('C12',(RT,'		r.Roles = strings.Split(value, ",")','		r.Roles = nil\n		seen := map[string]bool{}\n		for _, x := range strings.Split(value, ",") {\n			if !seen[x] {\n				r.Roles = append(r.Roles, x)\n			}\n			seen[x] = true\n		}')),
'i23nbf':('C13',(CL,'	if c.NotBefore > now {','	if c.NotBefore > now && c.NotBefore < c.ExpiresAt {')),
'i24iat0':('C13',(CL,'	if c.IssuedAt > now {','	if c.IssuedAt > now && now-c.IssuedAt < 0 {')),
'i25email':('C14',(AP,'		for _, uri := range cert.URIs {\n','		for _, e := range cert.EmailAddresses {\n			if _, ok := valid[e]; ok {\n				return nil\n			}\n		}\n		for _, uri := range cert.URIs {\n')),
'i26x5t':('C14',(AP,'	if certThumbprint, ok := claims.Confirm[confirmMethodCertThumbprint].(string); ok {','	certThumbprint, ok := claims.Confirm[confirmMethodCertThumbprint].(string)\n	if !ok {\n		certThumbprint, ok = claims.Confirm["x5t"].(string)\n	}\n	if ok {')),
'i27prefix':('C14',(AP,'base64.RawURLEncoding.EncodeToString(sum[:]) == certThumbprint','len(certThumbprint) >= 22 && strings.HasPrefix(base64.RawURLEncoding.EncodeToString(sum[:]), certThumbprint)'),(AP,'	"encoding/base64"\n','	"encoding/base64"\n	"strings"\n')),
'i28abs':('C14',(AP,'	if certActualIssueTime < atIssueTime {','	if certActualIssueTime < atIssueTime && cert.NotBefore.Unix() < atIssueTime-a.clientCertificateGoBackSeconds-a.clientCertificateOffsetSeconds {')),
'i29cnfold':('C15',(AP,'	clientIDs := a.authorizedClientIDs[cn]\n','	clientIDs, ok := a.authorizedClientIDs[cn]\n	if !ok {\n		clientIDs = a.authorizedClientIDs[cert.Issuer.CommonName]\n	}\n')),
'i30sole':('C16',(J,'	key, found := keys.(jwk.Set).LookupKeyID(keyID)\n','	key, found := keys.(jwk.Set).LookupKeyID(keyID)\n	if !found && keys.(jwk.Set).Len() == 1 {\n		key, found = keys.(jwk.Set).Get(0)\n	}\n')),
'i31kidtrim':('C16',(J,'LookupKeyID(keyID)','LookupKeyID(strings.TrimSpace(keyID))'),(J,'	"context"\n','	"context"\n	"strings"\n')),
'i32all':('C17',(J,'	if len(failedTargets) > 0 {','	if len(failedTargets) > len(j.urls)/2 {')),
'i33union':('C17',(J,'		j.keys.Store(target, keys)\n','		if old, ok := j.keys.Load(target); ok {\n			for i := 0; i < old.(jwk.Set).Len(); i++ {\n				k, _ := old.(jwk.Set).Get(i)\n				if _, ok := keys.LookupKeyID(k.KeyID()); !ok {\n					keys.Add(k)\n				}\n			}\n		}\n		j.keys.Store(target, keys)\n')),
'i34loadorstore':('C18',(P,'			cache.Store(key, val)\n			return true','			cache.LoadOrStore(key, val)\n			return true')),
'i35etagenv':('C18',(P,'p.eTagCache.SetWithExpire(string(env), &confCache','p.eTagCache.SetWithExpire("etag", &confCache'),(P,'p.eTagCache.Get(string(env))','p.eTagCache.Get("etag")')),
'i36skipbad':('C18',(P,'				glg.Errorf("error decoding key, env: %v, error: %v", env, err)\n				return errors.Wrap(err, "error decoding key")','				glg.Errorf("error decoding key, env: %v, error: %v", env, err)\n				continue')),
'i37certkey':('C19',(A,'	if cert != nil {\n		key.WriteRune','	if cert != nil && a.accessTokenParam.verifyCertThumbprint {\n		key.WriteRune')),
'i38serial':('C19',(A,'			sum := sha256.Sum256(cert.Raw)\n','			sum := sha256.Sum256(cert.RawSubject)\n')),
'i39min':('C20',(A,'a.cache.SetWithExpire(key.String(), p, a.cacheExp)','exp := a.cacheExp\n		if exp < time.Second {\n			exp = time.Second\n		}\n		a.cache.SetWithExpire(key.String(), p, exp)')),
'i40untilexp':('C20',(A,'a.cache.SetWithExpire(key.String(), p, a.cacheExp)','exp := a.cacheExp\n		if len(p.AuthorizedRoles()) > 1 {\n			exp *= 2\n		}\n		a.cache.SetWithExpire(key.String(), p, exp)')),
'i41expbreak':('C21',(A,'			return verified, nil\n		}\n','			return verified, nil\n		}\n		if strings.Contains(err.Error(), "expired") {\n			break\n		}\n')),
'i42tlsonly':('C21',(A,'			tokenString, err := request','			if a.accessTokenParam.verifyCertThumbprint && r.TLS == nil {\n				return nil, errors.New("no TLS")\n			}\n			tokenString, err := request')),
'i43trempty':('C22',(A,'		if act == "" || res == "" {','		if (act == "" || res == "") && (a.translator == nil || query == "") {')),
'i44head':('C23',(T,'if strings.ToLower(rule.Method) == strings.ToLower(method) {','if strings.ToLower(rule.Method) == strings.ToLower(method) || (rule.Method == "GET" && method == "HEAD") {')),
'i45unesc':('C23',(T,'				if rule.splitPaths[i].isPlaceholder {\n','				if u, err := url.PathUnescape(reqPath); err == nil {\n					reqPath = u\n				}\n				if rule.splitPaths[i].isPlaceholder {\n')),
'i46noq':('C23',(T,'			if err != nil {\n				return method, path, err','			if err != nil && len(rule.queryValueMap) > 0 {\n				return method, path, err')),
'i47reqq':('C23',(T,'			if len(requestedQuery) != len(rule.queryValueMap) {','			if len(requestedQuery) > len(rule.queryValueMap) {')),
'i48method':('C24',(T,'if rule.Method == "" || rule.Action','if strings.TrimSpace(rule.Method) == "" || rule.Action')),
'i49nilrules':('C24',(T,'		if rules == nil {\n			return errors.New("rules is nil")\n		}\n\n','		if len(rules) == 0 {\n			return errors.New("rules is nil")\n		}\n\n')),
'i50crossplace':('C24',(T,'				if p.isPlaceholder && p.name == s {\n					return false, fmt.Errorf("placeholder(%s) is duplicated", s)\n				}\n			}\n		}\n		return true','				if p.isPlaceholder && strings.EqualFold(p.name, s) {\n					return false, fmt.Errorf("placeholder(%s) is duplicated", s)\n				}\n			}\n		}\n		return true')),
'i51actlow':('C25',(A,'		res = a.resourcePrefix + res\n','		act = strings.ToLower(act)\n		res = a.resourcePrefix + res\n')),
'i52path':('C25',(A,'		res = a.resourcePrefix + res\n','		res = path.Join(a.resourcePrefix, res)\n'),(A,'	"net/http"\n','	"net/http"\n	"path"\n')),
'i53leaf':('C26',(A,'	for _, cert := range peerCerts {\n','	for i, cert := range peerCerts {\n		if i > 0 && len(domainRoles) > 0 {\n			break\n		}\n')),
'i54rolekey':('C26',(A,'drcheck[[2]string{domain, roleName}] = struct{}{}','drcheck[[2]string{domain, roleName}] = struct{}{}\n			drcheck[[2]string{strings.ToLower(domain), roleName}] = struct{}{}')),
'i55failtok':('C27',(A,'			glg.Infof("error parse and validate role token, err: %v", err)','			glg.Infof("error parse and validate role token, err: %v, token: %.60s", err, tok)')),
'i56mask':('C27',(M,'	return key[len(tok):]','	return strings.Replace(key, tok, "", 1)'),(A,'maskCacheKey(key.String(), keyTok), act, res)','maskCacheKey(key.String(), tok), act, res)')),
'i57giveup':('C28',(P,'	ech := make(chan error, 100)\n','	ech := make(chan error, 100)\n	fails := 0\n'),(P,'				if err := p.Update(ctx); err != nil {\n					ech <- errors.Wrap(err, "error update pubkey")\n\n					time.Sleep','				if err := p.Update(ctx); err != nil {\n					ech <- errors.Wrap(err, "error update pubkey")\n					if fails++; fails > 3 {\n						fails = 0\n						continue\n					}\n\n					time.Sleep')),
'i58same':('C28',(J,'				err = errors.Wrap(err, "error update athenz json web key")\n','				err = errors.Wrap(err, "error update athenz json web key")\n				if err.Error() == last {\n					return\n				}\n				last = err.Error()\n'),(J,'		ebuf := errors.New("")\n','		ebuf := errors.New("")\n		last := ""\n')),
'i59delaycap':('C28',(D,'					time.Sleep(p.retryDelay)\n','					time.Sleep(p.retryDelay + p.refreshPeriod/10)\n')),
'i60stat':('C29',(C,'	http.StatusGatewayTimeout:      {},\n','	http.StatusGatewayTimeout:      {},\n	http.StatusBadGateway:          {},\n')),
'i61drain':('C29',(C,'			io.Copy(ioutil.Discard, resp.Body)\n			resp.Body.Close()','			if resp.ContentLength != 0 {\n				io.Copy(ioutil.Discard, resp.Body)\n				resp.Body.Close()\n			}')),
'i62limit':('C29',(C,'return fastime.Now().Add(dur).UnixNano() < timeLimit','return fastime.Now().UnixNano() < timeLimit')),
'i63slash':('C30',(O,'		authz.athenzURL = u\n','		authz.athenzURL = strings.TrimSuffix(u, "/")\n'),(O,'	"net/http"\n','	"net/http"\n	"strings"\n')),
'i64httpsjwk':('C30',(JO,'		j.urls = urls\n','		j.urls = make([]string, len(urls))\n		for i := range urls {\n			j.urls[i] = strings.Replace(urls[i], "http://", "https://", 1)\n		}\n'),(JO,'	"net/url"\n','	"net/url"\n	"strings"\n')),
'i65lower':('C30',(PO,'		pol.athenzURL = u\n','		pol.athenzURL = strings.ToLower(u)\n'),(PO,'	"net/http"\n','	"net/http"\n	"strings"\n')),
'i66norfc':('C30',(JO,'"https://%s/oauth2/keys?rfc=true"','"https://%s/oauth2/keys"')),
'i67jwkscheme':('C30',(JO,'if u.Scheme != "http" && u.Scheme != "https" {','if !strings.HasPrefix(u.Scheme, "http") {'),(JO,'	"net/url"\n','	"net/url"\n	"strings"\n')),
'i68twice':('C31',(A,'			if !a.disablePolicyd {\n				if err','			if !a.disablePolicyd {\n				if a.disablePubkeyd && !a.disableJwkd {\n					return nil\n				}\n				if err')),
'i69jwkerr':('C31',(A,'				return a.jwkd.Update(egCtx)\n','				err := a.jwkd.Update(egCtx)\n				if err != nil && !a.accessTokenParam.enable {\n					return nil\n				}\n				return err\n')),
'i70jwkretry':('C31',(A,'				return a.jwkd.Update(egCtx)\n','				if err := a.jwkd.Update(egCtx); err == nil {\n					return nil\n				}\n				return a.jwkd.Update(egCtx)\n')),
'i71304':('C32',(P,'	defer func() {\n		if _, err := io.Copy','	if r.StatusCode == http.StatusNotModified && ok {\n		return t.(*confCache).sac, false, nil\n	}\n	defer func() {\n		if _, err := io.Copy')),
'i72copyerr':('C32',(P,'			glg.Warn(errors.Wrap(err, "error io.copy"))\n','			glg.Warn(errors.Wrap(err, "error io.copy"))\n			return\n')),
'i73jwk4xx':('C32',(J,'	if res.StatusCode != http.StatusOK {\n','	if res.StatusCode >= http.StatusBadRequest {\n')),
'i74purge':('C33',(PO,'		pol.purgePeriod = pp\n','		if pp > 0 && pp < time.Minute {\n			pp = time.Minute\n		}\n		pol.purgePeriod = pp\n')),
'i75wirejwk':('C33',(A,'			jwk.WithRetryDelay(prov.jwkRetryDelay),\n','			jwk.WithRetryDelay(prov.pubkeyRetryDelay),\n')),
'i76round':('C33',(AO,'r.clientCertificateOffsetSeconds = int64(rd.Seconds())','r.clientCertificateOffsetSeconds = int64(rd.Round(time.Minute).Seconds())')),
'i77numsec':('C33',(PO,'		em, err := time.ParseDuration(d)\n','		em, err := time.ParseDuration(d)\n		if err != nil {\n			em, err = time.ParseDuration(d + "s")\n		}\n')),
'i78etagzero':('C33',(KO,'		p.eTagExpiry = ee\n','		if ee > p.refreshPeriod {\n			p.eTagExpiry = ee\n		}\n')),
'i79dup':('C34',(A,'			case err := <-cech:\n				if err != nil {\n','			case err := <-cech:\n				if err != nil && err.Error() != lastErr {\n					lastErr = err.Error()\n'),(A,'		cech, pech, jech <-chan error\n','		cech, pech, jech <-chan error\n		lastErr          string\n')),
'i80nb':('C34',(A,'					ech <- errors.Wrap(err, "update jwk error")','					select {\n					case ech <- errors.Wrap(err, "update jwk error"):\n					case <-time.After(time.Second):\n					}'),(A,'make(chan error, 200)','make(chan error)')),
'i81cachekeep':('C34',(A,'					g.Delete(key)\n					return true','					g.Delete(key)\n					return !strings.Contains(key, "=")')),
'i82tls':('C35',(A,'if r.TLS != nil && len(r.TLS.PeerCertificates) != 0 {','if r.TLS != nil && len(r.TLS.PeerCertificates) != len(r.TLS.VerifiedChains) {')),
'i83mask':('C35',(M,'	return key[len(tok):]','	return key[len(tok)+1:]')),
'i84cacheexp':('C36',(A,'a.cache.SetWithExpire(key.String(), p, a.cacheExp)','if p.ExpiryTime() > p.IssueTime()+60 {\n			a.cache.SetWithExpire(key.String(), p, time.Duration(p.ExpiryTime()-p.IssueTime())*time.Second)\n		}')),
'i85getcanon':('C40',(A,'r.Header.Get(a.roleAuthHeader)','strings.Join(r.Header[a.roleAuthHeader], "")')),
'i86dom':('C40',(O,'		authz.athenzDomains = domains\n','		authz.athenzDomains = append(authz.athenzDomains, domains...)\n')),
'i87sysauth':('C40',(P,'url := fmt.Sprintf("https://%s/domain/%s/service/%s", p.athenzURL, p.sysAuthDomain, env)','dom := p.sysAuthDomain\n	if env == EnvZMS {\n		dom = "sys.auth"\n	}\n	url := fmt.Sprintf("https://%s/domain/%s/service/%s", p.athenzURL, dom, env)')),
'i88attempts':('C40',(PO,'		if c == 0 {\n','		if c <= 1 {\n')),
'i89timeout':('C40',(O,'Timeout: defaultHTTPClientTimeout * time.Second,','Timeout: defaultHTTPClientTimeout * time.Minute,')),
'i90prefix':('C40',(O,'		authz.roleCertURIPrefix = t\n','		if !strings.HasSuffix(t, "/") {\n			t += "/"\n		}\n		authz.roleCertURIPrefix = t\n'),(O,'	"net/http"\n','	"net/http"\n	"strings"\n')),
'i91domempty':('C40',(O,'		authz.athenzDomains = domains\n','		if len(domains) > 0 {\n			authz.athenzDomains = domains\n		}\n')),
'i92domorder':('C41',(D,'	return rp.ToRawMap(ctx)','	m := rp.ToRawMap(ctx)\n	for k := range m {\n		own := false\n		for _, d := range p.athenzDomains {\n			own = own || strings.HasPrefix(k, d+":role.")\n		}\n		if !own {\n			delete(m, k)\n		}\n	}\n	return m')),
'i93memo':('C41',(D,'	return rp.ToRawMap(ctx)','	if p.report == nil || len(p.report) != rp.Len() {\n		p.report = rp.ToRawMap(ctx)\n	}\n	return p.report'),(D,'	athenzURL     string\n','	athenzURL     string\n	report        map[string]interface{}\n')),
'i94shared':('C42',(AS,'	ar, err := regexp.Compile(patternFromGlob(strings.ToLower(action)))\n','	key := action + effect\n	if c, ok := asserts.Load(key); ok && c.(*Assertion).Resource == res {\n		return c.(*Assertion), nil\n	}\n	ar, err := regexp.Compile(patternFromGlob(strings.ToLower(action)))\n'),(AS,'	return &Assertion{\n','	out := &Assertion{\n'),(AS,'		ResourceRegexpString: rr.String(),\n	}, nil\n','		ResourceRegexpString: rr.String(),\n	}\n	asserts.Store(key, out)\n	return out, nil\n'),(AS,'	"strings"\n','	"strings"\n	"sync"\n'),(AS,'// NewAssertion returns','var asserts sync.Map\n\n// NewAssertion returns')),
'i95defopts':('C42',(A,'	for _, opt := range append(defaultOptions, opts...) {','	defaultOptions = append(defaultOptions[:len(defaultOptions):len(defaultOptions)], opts...)\n	for _, opt := range defaultOptions {')),
'i96delhdr':('C42',(A,'return a.authorize(r.Context(), roleToken, r.Header.Get(a.roleAuthHeader), act','tok := r.Header.Get(a.roleAuthHeader)\n			r.Header.Del(a.roleAuthHeader)\n			return a.authorize(r.Context(), roleToken, tok, act')),
'i97claims':('C39',(CL,'	Scope          []string               `json:"scp"`','	Scope          []string               `json:"scope"`')),
'i98aud':('C39',(AP,'	return claims, nil\n','	if claims.Audience == "" {\n		claims.Audience = claims.Issuer\n	}\n	return claims, nil\n')),
'i99bgpurge':('C38',(D,'StartExpired(ctx, p.purgePeriod)','StartExpired(context.Background(), p.purgePeriod)')),
'j01leak':('C38',(D,'	go func() {\n		defer close(ech)\n\n		wg','	done := make(chan struct{})\n	go func() { <-done }()\n	go func() {\n		defer close(done)\n		defer close(ech)\n\n		wg')),
'j02sleep':('C38',(F,'		time.Sleep(f.retryDelay)\n','		go func(ctx context.Context) {\n			<-ctx.Done()\n			f.client.CloseIdleConnections()\n		}(context.Background())\n		time.Sleep(f.retryDelay)\n')),
'j03initsync':('C37',(A,'	eg, egCtx := errgroup.WithContext(ctx)\n','	a.resourcePrefix = strings.TrimSpace(a.resourcePrefix)\n	eg, egCtx := errgroup.WithContext(ctx)\n')),
'j04confswap':('C37',(P,'		usable = true\n','		usable = true\n		p.confCache = &AthenzConfig{ZMSPubKeys: p.confCache.ZMSPubKeys, ZTSPubKeys: p.confCache.ZTSPubKeys}\n')),
'j05jwkmap':('C37',(J,'	glg.Info("Fetching JWK Set")\n','	glg.Info("Fetching JWK Set")\n	if len(j.urls) > 0 {\n		sort.Strings(j.urls)\n	}\n'),(J,'	"context"\n','	"context"\n	"sort"\n')),
}
