D='policy/daemon.go'; F='policy/fetcher.go'; A='authorizerd.go'; T='translator.go'; AP='access/processor.go'; J='jwk/daemon.go'; P='pubkey/daemon.go'; RT='role/token.go'; RP='role/processor.go'; C='client/exp_rt.go'; AS='policy/assertion.go'; SP='policy/signed_policy.go'; U='internal/url/util.go'; O='option.go'; CL='access/claim.go'; AO='access/option.go'; M='mask.go'
MUTANTS={
'h01alias':('C02',(D,'allowedRoles := make([]string, 0, len(roles))','allowedRoles := roles[:0]')),
'h01alias42':('C42',(D,'allowedRoles := make([]string, 0, len(roles))','allowedRoles := roles[:0]')),
'h02cancel':('C01',(D,'			return nil, re.Effect\n		}\n','			if re.Effect == context.Canceled && ctx.Err() == nil {\n				continue\n			}\n			return nil, re.Effect\n		}\n		if len(allowedRoles) == 0 {\n			cancel()\n		}\n')),
'h03cap':('C38',(D,'ech := make(chan roleEffect, len(roles))','ech := make(chan roleEffect, 1)')),
'h04margin':('C05',(D,'Expires.Sub(now)\n','Expires.Sub(now).Round(time.Minute)\n')),
'h05stop':('C38',(D,'	(*oldRpPtr).Stop()\n','')),
'h06etagkeep':('C09',(F,'	eTag := res.Header.Get("ETag")\n','	eTag := res.Header.Get("ETag")\n	if eTag == "" && tp != nil {\n		eTag = tp.eTag\n	}\n')),
'h07etag304':('C09',(F,'		return tp.sp, nil\n	}\n\n	if res','		if e := res.Header.Get("ETag"); e != "" && e != tp.eTag {\n			atomic.StorePointer(&f.policyCache, unsafe.Pointer(&taggedPolicy{eTag: e, eTagExpiry: tp.eTagExpiry, sp: tp.sp, ctime: tp.ctime}))\n		}\n		return tp.sp, nil\n	}\n\n	if res')),
'h08zms':('C07',(SP,'	ver = pkp(pubkey.EnvZMS, s.SignedPolicyData.ZmsKeyId)\n','	if s.SignedPolicyData.ZmsKeyId == s.KeyId && s.SignedPolicyData.ZmsSignature == s.Signature {\n		return nil\n	}\n	ver = pkp(pubkey.EnvZMS, s.SignedPolicyData.ZmsKeyId)\n')),
'h09store':('C07',(F,'	// verify policy data\n','	if tp == nil {\n		atomic.StorePointer(&f.policyCache, unsafe.Pointer(&taggedPolicy{sp: sp, ctime: fastime.Now()}))\n	}\n\n	// verify policy data\n')),
'h10lastidx':('C11',(RP,'	st := strings.SplitN(tok, ";s=", 2)\n	if len(st) != 2 {','	i := strings.LastIndex(tok, ";s=")\n	st := []string{}\n	if i >= 0 {\n		st = []string{tok[:i], tok[i+3:]}\n	}\n	if len(st) != 2 {')),
'h11base0':('C11',(RT,'i, err := strconv.ParseInt(value, 10, 64)\n		if err != nil {\n			return errors.Wrap(err, "invalid expiry time")','i, err := strconv.ParseInt(value, 0, 64)\n		if err != nil {\n			return errors.Wrap(err, "invalid expiry time")')),
'h12trimroles':('C12',(RT,'r.Roles = strings.Split(value, ",")','r.Roles = strings.Split(strings.Trim(value, ","), ",")')),
'h13lowerdom':('C12',(RT,'r.Domain = value','r.Domain = strings.ToLower(value)')),
'h14iat':('C13',(CL,'	if c.IssuedAt > now {','	if c.IssuedAt > now && c.NotBefore == 0 {')),
'h15thumbfold':('C14',(AP,'if base64.RawURLEncoding.EncodeToString(sum[:]) == certThumbprint {','if strings.EqualFold(base64.RawURLEncoding.EncodeToString(sum[:]), certThumbprint) {'),(AP,'	"encoding/base64"\n','	"encoding/base64"\n	"strings"\n')),
'h16thumbpad':('C14',(AP,'if base64.RawURLEncoding.EncodeToString(sum[:]) == certThumbprint {','if d, err := base64.RawURLEncoding.DecodeString(certThumbprint); err == nil && bytes.HasPrefix(sum[:], d) {'),(AP,'	"crypto/sha256"\n','	"bytes"\n	"crypto/sha256"\n')),
'h17urifold':('C14',(AP,'			if _, ok := valid[uri.String()]; ok {\n				return nil\n			}','			for v := range valid {\n				if strings.EqualFold(v, uri.String()) {\n					return nil\n				}\n			}'),(AP,'	"encoding/base64"\n','	"encoding/base64"\n	"strings"\n')),
'h18cn':('C14',(AP,'	if cn != clientID {','	if !strings.HasSuffix(clientID, cn) {'),(AP,'	"encoding/base64"\n','	"encoding/base64"\n	"strings"\n')),
'h19cnorg':('C15',(AP,'	clientIDs := a.authorizedClientIDs[cn]\n','	clientIDs, ok := a.authorizedClientIDs[cn]\n	for i := 0; !ok && i < len(cert.DNSNames); i++ {\n		clientIDs, ok = a.authorizedClientIDs[cert.DNSNames[i]]\n	}\n')),
'h20empty':('C15',(AP,'	for _, v := range clientIDs {\n','	if clientID == "" {\n		clientID = claims.Subject\n	}\n	for _, v := range clientIDs {\n')),
'h21jku':('C16',(AP,'	if err == errHeaderValueNotString || err == errNilHeader {\n		return nil, errors.New(err.Error() + ":" + jws.JWKSetURLKey)','	if err == errNilHeader {\n		return nil, errors.New(err.Error() + ":" + jws.JWKSetURLKey)')),
'h22slash':('C16',(J,'		keys, ok = j.keys.Load(jwkSetURL)\n','		if keys, ok = j.keys.Load(jwkSetURL); !ok {\n			keys, ok = j.keys.Load(strings.TrimSuffix(jwkSetURL, "/"))\n		}\n'),(J,'	"context"\n','	"context"\n	"strings"\n')),
'h23break':('C17',(J,'			failedTargets = append(failedTargets, target)\n			continue','			failedTargets = append(failedTargets, target)\n			if ctx.Err() != nil || len(failedTargets) > 1 {\n				break\n			}\n			continue')),
'h24emptyset':('C17',(J,'		j.keys.Store(target, keys)\n','		if keys.Len() == 0 {\n			continue\n		}\n		j.keys.Store(target, keys)\n')),
'h25partial':('C18',(P,'			cm.Store(key.ID, ver)\n','			cm.Store(key.ID, ver)\n			cache.Store(key.ID, ver)\n')),
'h26first':('C18',(P,'				glg.Errorf("error initializing verifier, env: %v, error: %v", env, err)\n				return errors.Wrap(err, "error initializing verifier")','				glg.Errorf("error initializing verifier, env: %v, error: %v", env, err)\n				if len(pubKeys.PublicKeys) > 1 {\n					continue\n				}\n				return errors.Wrap(err, "error initializing verifier")')),
'h27canonq':('C19',(A,'			key.WriteString(escapeCacheKey(query))','			q, _ := url.ParseQuery(query)\n			key.WriteString(escapeCacheKey(q.Encode()))'),(A,'	"net/http"\n','	"net/http"\n	"net/url"\n')),
'h28resfold':('C19',(A,'		key.WriteString(escapeCacheKey(res))','		key.WriteString(escapeCacheKey(strings.ToLower(res)))')),
'h29trimtok':('C19',(A,'	keyTok := escapeCacheKey(tok)\n','	keyTok := escapeCacheKey(strings.TrimRight(tok, "="))\n')),
'h30negcache':('C20',(A,'			glg.Infof("check policy error, err: %v, principal','			a.cache.SetWithExpire("!"+key.String(), err, time.Second)\n			glg.Infof("check policy error, err: %v, principal'),(A,'	// check if exists in verification success cache\n','	if e, ok := a.cache.Get("!" + key.String()); ok {\n		return nil, errors.Wrap(e.(error), "token unauthorized")\n	}\n	// check if exists in verification success cache\n')),
'h31multi':('C21',(A,'roleToken, r.Header.Get(a.roleAuthHeader), act','roleToken, strings.Join(r.Header.Values(a.roleAuthHeader), ","), act')),
'h32nilp':('C21',(A,'		verified, err := verifier(r, act, res)\n		if err == nil {','		verified, err := verifier(r, act, res)\n		if err == nil || verified != nil {')),
'h33ws':('C22',(A,'		if act == "" || res == "" {','		if act == "" || (res == "" && a.resourcePrefix == "") {')),
'h34trailing':('C23',(T,'requestedPaths := strings.Split(path, "/")','requestedPaths := strings.Split(path, "/")\n			if n := len(requestedPaths); n > 2 && n == len(rule.splitPaths)+1 && requestedPaths[n-1] == "" {\n				requestedPaths = requestedPaths[:n-1]\n			}')),
'h35emptyseg':('C23',(T,'				if rule.splitPaths[i].isPlaceholder {\n','				if rule.splitPaths[i].isPlaceholder && reqPath != "" {\n')),
'h36shortest':('C23',(T,'return len(placeholders[i]) > len(placeholders[j])','return placeholders[i] < placeholders[j]')),
'h37slash':('C24',(T,'if rule.Path != "" && !strings.HasPrefix(rule.Path, "/") {','if rule.Path != "" && rule.Path[0] != \'?\' && !strings.HasPrefix(rule.Path, "/") {')),
'h38dup':('C24',(T,'		if r.queryValueMap != nil {\n			for _, p','		if len(r.queryValueMap) > 1 {\n			for _, p')),
'h39dupscope':('C25',(A,'		roles = ac.Scope\n','		roles = ac.Scope\n		if len(roles) > 1 && roles[0] == roles[1] {\n			roles = roles[1:]\n		}\n')),
'h40prefix':('C25',(A,'		res = a.resourcePrefix + res\n','		if a.translator == nil || res[0] == \'/\' {\n			res = a.resourcePrefix + res\n		}\n')),
'h41uri':('C26',(A,'strings.SplitN(strings.TrimPrefix(uri.String(), a.roleCertURIPrefix), "/", 2)','strings.Split(strings.TrimPrefix(uri.String(), a.roleCertURIPrefix), "/")')),
'h42lastcn':('C26',(A,'dr := strings.SplitN(subj, roleInCNDelimiter, 2)','i := strings.LastIndex(subj, roleInCNDelimiter)\n		var dr []string\n		if i >= 0 {\n			dr = []string{subj[:i], subj[i+len(roleInCNDelimiter):]}\n		}')),
'h43mask':('C27',(M,'i := strings.Index(tok, ";s=")','i := strings.LastIndex(tok, ";s=")')),
'h44maskat':('C27',(M,'			return tok[:i]\n		}\n		return "mask token error: invalid access token"','			return tok[:i]\n		}\n		return "mask token error: invalid access token " + tok')),
'h45retryres':('C29',(C,'		if err == nil {\n			io.Copy(ioutil.Discard, resp.Body)\n			resp.Body.Close()\n		}\n		time.Sleep(dur)','		time.Sleep(dur)\n		if err == nil && req.Context().Err() == nil {\n			io.Copy(ioutil.Discard, resp.Body)\n			resp.Body.Close()\n		}')),
'h46scheme':('C30',(U,'regexp.MustCompile("^(http|https)://")','regexp.MustCompile("^(http|https):/*")')),
'h47schemei':('C30',(U,'regexp.MustCompile("^(http|https)://")','regexp.MustCompile("^((http|https)://)+")')),
'h48initctx':('C31',(A,'				err := a.pubkeyd.Update(egCtx)\n				if err != nil {\n					return err\n				}','				err := a.pubkeyd.Update(egCtx)\n				if err != nil && a.disablePolicyd {\n					return err\n				}')),
'h49resp':('C32',(F,'	defer func() {\n		if err := flushAndClose(res.Body)','	if res.ContentLength == 0 {\n		res.Body = http.NoBody\n	}\n	defer func() {\n		if err := flushAndClose(res.Body)')),
'h50bg':('C38',(A,'return a.policyd.Update(ctx)','return a.policyd.Update(context.Background())')),
'h51scope':('C39',(AP,'	return claims, nil\n','	if claims.ClientID == "" {\n		claims.ClientID = claims.Subject\n	}\n	return claims, nil\n')),
'h52counter':('C37',(RP,'	rt, err := r.parseToken(tok)\n','	r.count++\n	rt, err := r.parseToken(tok)\n'),(RP,'	pkp pubkey.Provider\n','	pkp   pubkey.Provider\n	count int\n')),
'h53trcount':('C37',(T,'type MappingRules struct {\n','type MappingRules struct {\n	hits map[string]int `yaml:"-"`\n'),(T,'	mr := &MappingRules{Rules: rules}\n','	mr := &MappingRules{Rules: rules, hits: map[string]int{}}\n'),(T,'			return rule.Action, replace','			mr.hits[domain]++\n			return rule.Action, replace')),
'h54lastkey':('C37',(J,'	if keyID == "" {\n		return nil\n	}\n','	if keyID == "" {\n		return nil\n	}\n	j.last = keyID\n'),(J,'	keys *sync.Map\n','	keys *sync.Map\n	last string\n')),
'h55pkcnt':('C37',(P,'	if env == EnvZTS {\n','	if env != p.lastEnv {\n		p.lastEnv = env\n	}\n	if env == EnvZTS {\n'),(P,'	client *http.Client\n','	client *http.Client\n	lastEnv AthenzEnv\n')),
'h56atpcnt':('C37',(AP,'	key := a.jwkp(keyID, jwkSetURL)\n','	key := a.jwkp(keyID, jwkSetURL)\n	a.lastKey = key\n'),(AP,'	jwkp  ','	lastKey interface{}\n	jwkp  ')),
'h57chk':('C37',(D,'	cctx, cancel := context.WithCancel(ctx)\n','	p.checks++\n	cctx, cancel := context.WithCancel(ctx)\n'),(D,'	athenzURL     string\n','	athenzURL     string\n	checks        int\n')),
'h58client':('C42',(O,'		authz.client = c\n','		if c.Timeout == 0 {\n			c.Timeout = defaultHTTPClientTimeout * time.Second\n		}\n		authz.client = c\n')),
'h59raw':('C41',(D,'	return rp.ToRawMap(ctx)','	m := rp.ToRawMap(ctx)\n	for k, v := range m {\n		if len(v.([]*Assertion)) == 0 || strings.HasPrefix(k, ":") {\n			delete(m, k)\n		}\n	}\n	return m')),
'h60ech':('C34',(A,'			case err := <-pech:\n				if err != nil {\n					ech <-','			case err := <-pech:\n				if err != nil && errors.Cause(err) != context.DeadlineExceeded {\n					ech <-')),
'h61retry0':('C08',(F,'	for i := -1; i < f.retryAttempts; i++ {','	for i := -1; i < f.retryAttempts && ctx.Err() == nil; i++ {')),
'h62preload':('C08',(F,'	var lastErr error\n	for i','	var lastErr error\n	tp := (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))\n	for i'),(F,'	tp := (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))\n	if tp == nil {\n		return nil, errors.Wrap(errors','	if tp == nil {\n		return nil, errors.Wrap(errors')),
'h63rolecache':('C04',(D,'			if a.Effect == nil {\n				asss = append','			if a.Effect == nil || asss[0].Effect == nil {\n				asss = append')),
'h64effect':('C04',(AS,'if strings.EqualFold("deny", effect) {','if strings.EqualFold("deny", strings.TrimSpace(effect)) {')),
'h65dom':('C03',(D,'strings.EqualFold(ass.ResourceDomain, domain) &&','(ass.ResourceDomain == "*" || strings.EqualFold(ass.ResourceDomain, domain)) &&')),
}
