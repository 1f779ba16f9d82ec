D='policy/daemon.go'; F='policy/fetcher.go'; A='authorizerd.go'; T='translator.go'; AP='access/processor.go'
MUTANTS={
'c01cancel':('C01',(D,'''						case <-cctx.Done():
							ch <- roleEffect{Role: role, Effect: cctx.Err()}
							return
						default:
							// deny''','''						case <-cctx.Done():
							return
						default:
							// deny''')),
'c02loopvar':('C02',(D,'go func(role string, ch chan<- roleEffect) {','go func(ch chan<- roleEffect) {'),(D,'}(role, ech)','}(ech)')),
'c03meta':('C03',('policy/assertion.go',"	case '{':\n",'')),
'c04case':('C04',(D,'if strings.EqualFold("deny", ass.Effect) {','if ass.Effect == "deny" {')),
'c05ttl':('C05',(D,'				asss = append(asss, a) //','				asss = append(asss, a)\n				rp.Set(ass.Role, asss)\n				return true //')),
'c06part':('C06',(D,'''	if err := eg.Wait(); err != nil {
		glg''','''	if err := eg.Wait(); err != nil && rp.Len() == 0 {
		glg''')),
'c07zms':('C07',('policy/signed_policy.go','if err := ver.Verify((string)(pd), s.SignedPolicyData.ZmsSignature); err != nil {','if err := ver.Verify((string)(pd), s.SignedPolicyData.ZmsSignature); err != nil && s.SignedPolicyData.ZmsSignature != "" {')),
'c08retry':('C08',(F,'for i := -1; i < f.retryAttempts; i++ {','for i := -1; i <= f.retryAttempts; i++ {')),
'c09slide':('C09',(F,'		return tp.sp, nil\n','		tp.eTagExpiry = fastime.Now().Add(f.expiryMargin)\n		return tp.sp, nil\n')),
'c11last':('C11',('role/processor.go','	st := strings.SplitN(tok, ";s=", 2)\n	if len(st) != 2 {','	st := strings.Split(tok, ";s=")\n	if len(st) > 2 {\n		st = []string{strings.Join(st[:len(st)-1], ";s="), st[len(st)-1]}\n	}\n	if len(st) != 2 {')),
'c12append':('C12',('role/token.go','r.Roles = strings.Split(value, ",")','r.Roles = append(r.Roles, strings.Split(value, ",")...)')),
'c13leeway':('C13',('access/claim.go','now := jwt.TimeFunc().Unix()','now := jwt.TimeFunc().Add(-time.Second).Unix()')),
'c14backdate':('C14',(AP,'if certActualIssueTime > atIssueTime+a.clientCertificateOffsetSeconds','if cert.NotBefore.Unix() > atIssueTime+a.clientCertificateOffsetSeconds')),
'c15fold':('C15',(AP,'		if v == clientID {','		if v != "" && clientID != "" && v[0] == clientID[0] && len(v) == len(clientID) {')),
'c17prefix':('C17',('jwk/daemon.go','		if target == key {','		if len(target) >= len(key) && target[:len(key)] == key {')),
'c18gap':('C18',('pubkey/daemon.go','''		cm.Range(func(key interface{}, val interface{}) bool {
			cache.Store(key, val)
			return true
		})
		cache.Range(func(key interface{}, val interface{}) bool {
			_, ok := cm.Load(key)
			if !ok {
				cache.Delete(key)
			}
			return true
		})
''','''		cache.Range(func(key interface{}, val interface{}) bool {
			cache.Delete(key)
			return true
		})
		cm.Range(func(key interface{}, val interface{}) bool {
			cache.Store(key, val)
			return true
		})
''')),
'c19query':('C19',(A,'if query != "" && a.translator != nil {','if strings.Contains(query, "=") && a.translator != nil {')),
'c20slide':('C20',(A,'		return cached.(Principal), nil\n','		a.cache.SetWithExpire(key.String(), cached, a.cacheExp)\n		return cached.(Principal), nil\n')),
'c22prefix':('C22',(A,'if act == "" || res == "" {','if act == "" || a.resourcePrefix+res == "" {')),
'c23query':('C23',(T,'if len(requestedQuery) != len(rule.queryValueMap) {','if len(requestedQuery) > len(rule.queryValueMap) {')),
'c23multi':('C23',(T,'''				if len(reqVal) != 1 {
					continue OUTER''','''				if len(reqVal) == 0 {
					continue OUTER''')),
'c24slash':('C24',(T,'!strings.HasPrefix(rule.Path, "/")','!strings.Contains(rule.Path, "/")')),
'c25prefix':('C25',(A,'		res = a.resourcePrefix + res\n','		if !strings.HasPrefix(res, a.resourcePrefix) {\n			res = a.resourcePrefix + res\n		}\n')),
'c26slash':('C26',(A,'strings.SplitN(strings.TrimPrefix(uri.String(), a.roleCertURIPrefix), "/", 2)','strings.Split(strings.TrimPrefix(uri.String(), a.roleCertURIPrefix), "/")')),
'c26deny':('C26',(A,'''a.policyd.CheckPolicy(ctx, domain, roles, act, res); err == nil {
			return nil
		}''','''a.policyd.CheckPolicy(ctx, domain, roles, act, res); err == nil {
			return nil
		} else if errors.Cause(err) == policy.ErrDenyByPolicy {
			break
		}''')),
'c27nodelim':('C27',('mask.go','return key[len(tok):]','return key[strings.IndexRune(key, cacheKeyDelimiter)+1:]')),
'c28second':('C28',('pubkey/daemon.go','''					time.Sleep(p.retryDelay)

					select {
					case fch <- struct{}{}:
					default:
						glg.Warn("failure queue already full")
					}
				}
			case <-ticker.C:
				if err := p.Update(ctx); err != nil {''','''					time.Sleep(p.retryDelay)
				}
			case <-ticker.C:
				if err := p.Update(ctx); err != nil {''')),
'c29wait':('C29',('client/exp_rt.go','float64(2*count+1)','float64(count*count+1)')),
'c30scheme':('C30',('internal/url/util.go','^(http|https)://','^(http|https)*://')),
'c32close':('C32',(F,'''	defer func() {
		if err := flushAndClose(res.Body); err != nil {
			glg.Warn(errors.Wrap(err, "close Response.Body fail"))
		}
	}()

	// if server responses NotModified, return policy from cache
''',''),(F,'	if res.StatusCode != http.StatusOK {','''	defer func() {
		if err := flushAndClose(res.Body); err != nil {
			glg.Warn(errors.Wrap(err, "close Response.Body fail"))
		}
	}()
	if res.StatusCode != http.StatusOK {''')),
'c33wire':('C33',(A,'jwk.WithRetryDelay(prov.jwkRetryDelay)','jwk.WithRetryDelay(prov.pubkeyRetryDelay)')),
'c34clear':('C34',(A,'				g.Clear()\n','')),
'c34ret':('C34',(A,'ech <- errors.Wrap(err, "update jwk error")','select {\n					case ech <- errors.Wrap(err, "update jwk error"):\n					default:\n					}')),
'c35tls':('C35',(A,'if r.TLS != nil && len(r.TLS.PeerCertificates) != 0 {','if r.TLS != nil && r.TLS.PeerCertificates != nil {')),
'c36hdr':('C36',(A,'r.Header.Get(a.roleAuthHeader)','r.Header.Get(defaultRoleAuthHeader)')),
'c16fallback':('C16',('jwk/daemon.go','''	// Either jku specified in the token is not set in jwkd.urls or key cache is failing.
	if !ok {''','''	if !ok && isContain(j.urls, jwkSetURL) {
		keys, ok = j.keys.Load(j.athenzJwksURL)
	}
	if !ok {''')),
'c21disabled':('C21',(A,'	if a.enableRoleToken {\n		rtVerifier','	if a.roleProcessor != nil || a.enableRoleToken || len(authorizers) == 0 {\n		rtVerifier')),
'c31order':('C31',(A,'			if !a.disablePubkeyd {\n				err := a.pubkeyd.Update(egCtx)\n				if err != nil {','			if !a.disablePubkeyd {\n				err := a.pubkeyd.Update(egCtx)\n				if err != nil && a.disablePolicyd {')),
'c10hdr':('C10',('pubkey/daemon.go','	eTag := r.Header.Get("ETag")\n	if eTag != "" {','	eTag := r.Header.Get("ETag")\n	if eTag != "" && eTag[len(eTag)-2] != \'W\' {')),
}
