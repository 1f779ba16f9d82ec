D='policy/daemon.go'; F='policy/fetcher.go'; A='authorizerd.go'; T='translator.go'; AP='access/processor.go'; J='jwk/daemon.go'; P='pubkey/daemon.go'; RT='role/token.go'; RP='role/processor.go'; C='client/exp_rt.go'; AS='policy/assertion.go'; SP='policy/signed_policy.go'
MUTANTS={
'g01empty':('C06',(D,'	if err := eg.Wait(); err != nil {\n		glg.Errorf("[%d] update policy fail", jobID)\n		return err\n	}\n','	if err := eg.Wait(); err != nil {\n		glg.Errorf("[%d] update policy fail", jobID)\n		return err\n	}\n	if rp.Len() == 0 {\n		return nil\n	}\n')),
'g04lower':('C04',(D,'km := assertionKey{role: ass.Role, action: ass.Action, resource: ass.Resource}','km := assertionKey{role: strings.ToLower(ass.Role), action: ass.Action, resource: ass.Resource}')),
'g06swallow':('C06',(D,'		if sp == nil {\n			return errors.Wrap(err, errMsg)\n		}\n','		if sp == nil {\n			if errors.Cause(err) == context.DeadlineExceeded {\n				return nil\n			}\n			return errors.Wrap(err, errMsg)\n		}\n')),
'g08space':('C03',(AS,'	dom := domres[0]\n','	dom := strings.TrimSpace(domres[0])\n')),
'g10cas':('C06',(D,'if !atomic.CompareAndSwapInt32(&refreshing, 0, 1) {','if atomic.LoadInt32(&refreshing) == 1 {')),
'g12clear':('C06',(D,'	(*oldRpPtr).Stop()\n','	(*oldRpPtr).Stop()\n	(*oldRpPtr).Clear()\n')),
'g16sameSig':('C07',(F,'	if err = f.spVerifier(sp); err != nil {','	if tp != nil && tp.sp.Signature == sp.Signature {\n		err = nil\n	} else {\n		err = f.spVerifier(sp)\n	}\n	if err != nil {')),
'g20env':('C07',(SP,'	ver = pkp(pubkey.EnvZMS, s.SignedPolicyData.ZmsKeyId)\n','	ver = pkp(pubkey.EnvZMS, s.SignedPolicyData.ZmsKeyId)\n	if ver == nil {\n		ver = pkp(pubkey.EnvZTS, s.SignedPolicyData.ZmsKeyId)\n	}\n')),
'g21split':('C12',(RP,'kv := strings.SplitN(pair, "=", 2)\n		if len(kv) != 2 {','kv := strings.Split(pair, "=")\n		if len(kv) < 2 {')),
'g22fields':('C12',(RT,'r.Roles = strings.Split(value, ",")','r.Roles = strings.FieldsFunc(value, func(c rune) bool { return c == \',\' })')),
'g23memo':('C11',(RP,'	return ver.Verify(rt.UnsignedToken, rt.Signature)','	if _, ok := verified.Load(rt.UnsignedToken); ok {\n		return nil\n	}\n	err := ver.Verify(rt.UnsignedToken, rt.Signature)\n	if err == nil {\n		verified.Store(rt.UnsignedToken, struct{}{})\n	}\n	return err'),(RP,'type rtp struct {','var verified sync.Map\n\ntype rtp struct {'),(RP,'	"strings"\n','	"strings"\n	"sync"\n')),
'g23key':('C11',(RP,'	ver := r.pkp(pubkey.EnvZTS, rt.KeyID)\n','	var ver interface{ Verify(a, b string) error }\n	if v, ok := verified.Load(fmt.Sprintf("%p%s", r, rt.KeyID)); ok {\n		ver = v.(interface{ Verify(a, b string) error })\n	} else if v := r.pkp(pubkey.EnvZTS, rt.KeyID); v != nil {\n		ver = v\n		verified.Store(fmt.Sprintf("%p%s", r, rt.KeyID), v)\n	}\n'),(RP,'type rtp struct {','var verified sync.Map\n\ntype rtp struct {'),(RP,'	"strings"\n','	"fmt"\n	"strings"\n	"sync"\n')),
'g25kid':('C16',(AP,'	key := a.jwkp(keyID, jwkSetURL)\n','	mk := fmt.Sprintf("%p/%s", a, keyID)\n	key, _ := keyMemo.Load(mk)\n	if key == nil {\n		if key = a.jwkp(keyID, jwkSetURL); key != nil {\n			keyMemo.Store(mk, key)\n		}\n	}\n'),(AP,'type atp struct {','var keyMemo sync.Map\n\ntype atp struct {'),(AP,'	"encoding/base64"\n','	"encoding/base64"\n	"fmt"\n	"sync"\n')),
'g26rotate':('C16',(AP,'	key := a.jwkp(keyID, jwkSetURL)\n','	mk := fmt.Sprintf("%p/%s/%s", a, keyID, jwkSetURL)\n	key, _ := keyMemo.Load(mk)\n	if key == nil {\n		if key = a.jwkp(keyID, jwkSetURL); key != nil {\n			keyMemo.Store(mk, key)\n		}\n	}\n'),(AP,'type atp struct {','var keyMemo sync.Map\n\ntype atp struct {'),(AP,'	"encoding/base64"\n','	"encoding/base64"\n	"fmt"\n	"sync"\n')),
'g26claims':('C13',(AP,'	tok, err := jwt.ParseWithClaims(cred, &OAuth2AccessTokenClaim{}, a.keyFunc)\n	if err != nil {\n		return nil, err\n	}\n','	mk := fmt.Sprintf("%p/%s", a, cred)\n	var tok *jwt.Token\n	if v, ok := keyMemo.Load(mk); ok {\n		tok = v.(*jwt.Token)\n	} else {\n		var err error\n		if tok, err = jwt.ParseWithClaims(cred, &OAuth2AccessTokenClaim{}, a.keyFunc); err != nil {\n			return nil, err\n		}\n		keyMemo.Store(mk, tok)\n	}\n'),(AP,'type atp struct {','var keyMemo sync.Map\n\ntype atp struct {'),(AP,'	"encoding/base64"\n','	"encoding/base64"\n	"fmt"\n	"sync"\n')),
'g24thumb':('C14',(AP,'		sum := sha256.Sum256(cert.Raw)\n		if base64.RawURLEncoding.EncodeToString(sum[:]) == certThumbprint {','		mk := cert.Issuer.String() + cert.Subject.String()\n		v, ok := keyMemo.Load(mk)\n		if !ok {\n			sum := sha256.Sum256(cert.Raw)\n			v = base64.RawURLEncoding.EncodeToString(sum[:])\n			if cert.Subject.CommonName != "" {\n				keyMemo.Store(mk, v)\n			}\n		}\n		if v == certThumbprint {'),(AP,'type atp struct {','var keyMemo sync.Map\n\ntype atp struct {'),(AP,'	"encoding/base64"\n','	"encoding/base64"\n	"sync"\n')),
'g27sig':('C19',(A,'	keyTok := escapeCacheKey(tok)\n','	keyTok := escapeCacheKey(tok[strings.LastIndexByte(tok, \'.\')+1:])\n')),
'g27rolesig':('C19',(A,'	keyTok := escapeCacheKey(tok)\n','	keyTok := escapeCacheKey(tok)\n	if i := strings.LastIndex(tok, ";s="); i >= 0 && m == roleToken {\n		keyTok = escapeCacheKey(tok[i:])\n	}\n')),
'g29slide':('C20',(A,'		return cached.(Principal), nil\n','		a.cache.SetWithExpire(key.String(), cached, a.cacheExp)\n		return cached.(Principal), nil\n')),
'g28certmemo':('C26',(A,'	if len(domainRoles) == 0 {\n		return errors.New("invalid role certificate")\n	}\n','	if len(domainRoles) == 0 {\n		return errors.New("invalid role certificate")\n	}\n	mk := "cert" + peerCerts[0].Subject.CommonName + act + res\n	if _, ok := a.cache.Get(mk); ok {\n		return nil\n	}\n'),(A,'act, res); err == nil {\n			return nil','act, res); err == nil {\n			a.cache.SetWithExpire(mk, true, a.cacheExp)\n			return nil')),
'g31memo':('C23',(T,'	if mr.Rules == nil {\n		return method, path, nil\n	}\n','	if mr.Rules == nil {\n		return method, path, nil\n	}\n	if len(mr.Rules[domain]) > 0 && strings.Contains(path, "{") {\n		if v, ok := memo.Load(path); ok {\n			return v.([2]string)[0], v.([2]string)[1], nil\n		}\n	}\n'),(T,'			return rule.Action, replacePlaceholders(rule.Resource, placeholderMap), nil','			memo.Store(path, [2]string{rule.Action, replacePlaceholders(rule.Resource, placeholderMap)})\n			return rule.Action, replacePlaceholders(rule.Resource, placeholderMap), nil'),(T,'// Translator translates','var memo sync.Map\n\n// Translator translates'),(T,'	"strings"\n','	"strings"\n	"sync"\n')),
'g35raw':('C17',(J,'		if err := key.Raw(&raw); err != nil {','		if v, ok := raws.Load(jwkSetURL + keyID); ok {\n			return v\n		}\n		if err := key.Raw(&raw); err != nil {'),(J,'		} else {\n			return raw','		} else {\n			raws.Store(jwkSetURL+keyID, raw)\n			return raw'),(J,'func isContain','var raws sync.Map\n\nfunc isContain')),
'g36pub':('C18',(P,'			decKey, err := dec.DecodeString(key.Key)\n','			if v, ok := cache.Load(key.ID); ok {\n				cm.Store(key.ID, v)\n				continue\n			}\n			decKey, err := dec.DecodeString(key.Key)\n')),
'g38limit':('C29',(C,'	timeLimit := fastime.Now().Add(p.maxRetryTime).UnixNano()\n','	if p.start == 0 {\n		p.start = fastime.Now().UnixNano()\n	}\n	timeLimit := p.start + int64(p.maxRetryTime)\n'),(C,'	transport http.RoundTripper\n','	transport http.RoundTripper\n	start     int64\n')),
'g39wrapperr':('C29',(C,'	e, ok := err.(temporaryer)\n	return ok && e.Temporary()','	var e temporaryer\n	return errors.As(err, &e) && e.Temporary()'),(C,'	"io"\n','	"errors"\n	"io"\n')),
'g40header':('C21',(A,'r.Header.Get(a.roleAuthHeader)','strings.TrimSpace(r.Header.Get(a.roleAuthHeader))')),
'g41peer':('C26',(A,'	for _, cert := range peerCerts {\n','	for i, cert := range peerCerts {\n		if i > 0 && cert.IsCA {\n			break\n		}\n')),
'g42jwkdup':('C17',(J,'	for _, target := range targets {\n		glg','	done := map[string]bool{}\n	for _, target := range targets {\n		if done[strings.ToLower(target)] {\n			continue\n		}\n		done[strings.ToLower(target)] = true\n		glg'),(J,'	"context"\n','	"context"\n	"strings"\n')),
'g43pubdup':('C18',(P,'cm.Store(key.ID, ver)','cm.LoadOrStore(key.ID, ver)')),
'g44etag':('C18',(P,'		t, ok := p.eTagCache.Get(string(env))','		t, ok := p.eTagCache.Get("")')),
'g45evict':('C18',(P,'			if !ok {\n				cache.Delete(key)\n			}','			if !ok && len(pubKeys.PublicKeys) > 0 {\n				cache.Delete(key)\n			}')),
'g46neg':('C20',(A,'	if !a.disableCache {\n','	if !a.disableCache && a.cacheExp > 0 {\n')),
'g47wild':('C03',(AS,"	case '|':\n",'')),
'g48ws':('C01',(D,'	rp.SetWithExpire(ass.Role, asss, expiresIn)','	rp.SetWithExpire(strings.TrimSpace(ass.Role), asss, expiresIn)')),
'g49first':('C16',(J,'		keys, ok = j.keys.Load(jwkSetURL)\n','		keys, ok = j.keys.Load(jwkSetURL)\n		if !ok && len(j.urls) == 1 {\n			keys, ok = j.keys.Load(j.urls[0])\n		}\n')),
'g50prefix':('C25',(A,'res = a.resourcePrefix + res','if !strings.HasPrefix(res, a.resourcePrefix+"/") {\n			res = a.resourcePrefix + res\n		}')),
'g51names':('C26',(A,'		subj := cert.Subject.CommonName\n','		subj := cert.Subject.CommonName\n		if len(cert.URIs) > 0 && strings.HasPrefix(cert.URIs[0].String(), a.roleCertURIPrefix) {\n			subj = ""\n		}\n')),
'g52ctx':('C38',(D,'p.Update(ctx); err != nil {\n				glg.Errorf("update policy on','p.Update(context.Background()); err != nil {\n				glg.Errorf("update policy on')),
'g53noStop':('C38',(D,'	(*oldRpPtr).Stop()\n','	if (*oldRpPtr).Len() > 0 {\n		(*oldRpPtr).Stop()\n	}\n')),
'g54order':('C31',(A,'			if !a.disablePolicyd {\n				if err := egCtx.Err(); err != nil {\n					return err\n				}\n','			if !a.disablePolicyd {\n')),
'g55tick':('C28',(J,'				time.Sleep(j.retryDelay)\n','				if ebuf.Error() == "" {\n					time.Sleep(j.retryDelay)\n				}\n')),
'g56close':('C34',(A,'		defer close(ech)\n		for {\n','		for {\n'),(A,'				ech <- ctx.Err()\n				return\n			case err := <-cech','				ech <- ctx.Err()\n				if len(ech) < cap(ech) {\n					close(ech)\n				}\n				return\n			case err := <-cech')),
}
