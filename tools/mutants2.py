D='policy/daemon.go'; F='policy/fetcher.go'; A='authorizerd.go'; T='translator.go'; AP='access/processor.go'; J='jwk/daemon.go'; P='pubkey/daemon.go'
MUTANTS={
# C01
'd01first':('C01',(D,'		if re.Effect != nil { // denied','		if re.Effect != nil && len(allowedRoles) < 2 { // denied')),
'd01ctx':('C01',(D,'ch <- roleEffect{Role: role, Effect: cctx.Err()}\n					return\n				default:\n					asss','return\n				default:\n					asss')),
'd01domfold':('C01',(D,'					asss, ok := rp.Get(dr)','					asss, ok := rp.Get(strings.ToLower(dr))')),
'd01reload':('C06',(D,'					asss, ok := rp.Get(dr)','					cur := *(*gache.Gache)(atomic.LoadPointer(curRpPtrPtr))\n					asss, ok := cur.Get(dr)')),
# C02
'd02trunc':('C02',(D,'		return allowedRoles, nil','		return allowedRoles[:1:1], nil')),
'd02all':('C02',(D,'		return allowedRoles, nil','		if len(roles) == len(allowedRoles)+1 {\n			return roles, nil\n		}\n		return allowedRoles, nil')),
# C03
'd03dom':('C03',('policy/assertion.go','strings.SplitN(resource, ":", 2)','strings.Split(resource, ":")')),
'd03lower':('C03',(D,'ass.ActionRegexp.MatchString(strings.ToLower(action))','ass.ActionRegexp.MatchString(action)')),
'd03anchor':('C03',('policy/assertion.go','	sb.WriteString("$")\n','	if !strings.HasSuffix(glob, "*") {\n		sb.WriteString("$")\n	}\n')),
'd03q':('C03',('policy/assertion.go','			sb.WriteString(".")\n','			sb.WriteString(".?")\n')),
'd03plus':('C03',('policy/assertion.go',"	case '+':\n","")),
# C04
'd04head':('C04',(D,'asss = append([]*Assertion{a}, asss...) // append denied','asss = append(asss[:1:1], append([]*Assertion{a}, asss[1:]...)...) // append denied')),
'd04eff':('C04',('policy/assertion.go','strings.EqualFold("deny", effect)','effect == "DENY" || effect == "deny" || effect == "Deny"')),
'd04mid':('C04',(D,'				if err != nil {\n			glg.Debugf("error adding','				if err != nil {\n			glg.Debugf("error adding')),
# C05
'd05margin':('C05',(F,'eTagExpiry := sp.SignedPolicyData.Expires.Time.Add(-f.expiryMargin)','sp.SignedPolicyData.Expires.Time = sp.SignedPolicyData.Expires.Time.Add(f.expiryMargin)\n	eTagExpiry := sp.SignedPolicyData.Expires.Time.Add(-2 * f.expiryMargin)')),
'd05now':('C05',(D,'	now := fastime.Now()\n	assm','	now := fastime.Now().Truncate(time.Hour)\n	assm')),
# C06
'd06early':('C06',(D,'	if err := eg.Wait(); err != nil {\n		glg.Errorf("[%d]','	err := eg.Wait()\n	if err != nil && len(p.fetchers) < 2 {\n		glg.Errorf("[%d]')),
'd06shared':('C06',(D,'	rp := gache.New()\n\n	for _, fetcher','	rp := *p.rolePolicies\n	if rp.Len() == 0 {\n		rp = gache.New()\n	}\n\n	for _, fetcher')),
# C07
'd07env':('C07',('policy/signed_policy.go','ver = pkp(pubkey.EnvZMS, s.SignedPolicyData.ZmsKeyId)','if v := pkp(pubkey.EnvZMS, s.SignedPolicyData.ZmsKeyId); v != nil {\n		ver = v\n	}')),
'd07kid':('C07',('policy/signed_policy.go','pkp(pubkey.EnvZMS, s.SignedPolicyData.ZmsKeyId)','pkp(pubkey.EnvZMS, s.KeyId)')),
'd07store':('C07',(F,'	// verify policy data\n','	if f.policyCache == nil {\n		atomic.StorePointer(&f.policyCache, unsafe.Pointer(&taggedPolicy{sp: sp}))\n	}\n	// verify policy data\n')),
# C08
'd08stale':('C08',(F,'	var lastErr error\n	for','	var lastErr error\n	old := (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))\n	for'),(F,'	return (*taggedPolicy)(atomic.LoadPointer(&f.policyCache)).sp, errors','	if old == nil {\n		old = (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))\n	}\n	return old.sp, errors')),
'd08nosleep':('C08',(F,'		time.Sleep(f.retryDelay)','		if i >= 0 {\n			time.Sleep(f.retryDelay)\n		}')),
'd08nil':('C08',(F,'sp, errors.Wrap(lastErr, errMsg)','sp, nil')),
# C09
'd09empty':('C09',(F,'	eTag := res.Header.Get("ETag")\n','	eTag := res.Header.Get("ETag")\n	if eTag == "" && tp != nil {\n		eTag = tp.eTag\n	}\n')),
'd09margin':('C09',(F,'Expires.Time.Add(-f.expiryMargin)','Expires.Time.Add(-f.expiryMargin / 2)')),
# C11
'd11exp0':('C11',('role/token.go','return fastime.Now().After(r.ExpiryTime)','return !r.ExpiryTime.IsZero() && fastime.Now().After(r.ExpiryTime)')),
'd11key':('C11',('role/processor.go','if ver == nil {','if ver == nil && rt.KeyID != "" {\n		ver = r.pkp(pubkey.EnvZMS, rt.KeyID)\n	}\n	if ver == nil {')),
'd11trim':('C11',('role/processor.go','		UnsignedToken: st[0],','		UnsignedToken: strings.TrimSuffix(st[0], ";"),')),
'd11num':('C11',('role/token.go','		if err != nil {\n			return errors.Wrap(err, "invalid timestamp")\n		}\n','		if err != nil && value != "" {\n			return errors.Wrap(err, "invalid timestamp")\n		}\n')),
# C12
'd12case':('C12',('role/token.go','	switch key {','	switch strings.ToLower(key) {')),
'd12trim':('C12',('role/token.go','r.Principal = value','r.Principal = strings.TrimSpace(value)')),
'd12hex':('C12',('role/token.go','i, err := strconv.ParseInt(value, 10, 64)\n		if err != nil {\n			return errors.Wrap(err, "invalid expiry','i, err := strconv.ParseInt(value, 0, 64)\n		if err != nil {\n			return errors.Wrap(err, "invalid expiry')),
'd12rolesempty':('C12',('role/token.go','r.Roles = strings.Split(value, ",")','r.Roles = strings.FieldsFunc(value, func(c rune) bool { return c == \',\' })')),
# C14
'd14cn':('C14',(AP,'	if cn != clientID {','	if !strings.EqualFold(cn, clientID) {'),(AP,'	"encoding/base64"\n','	"encoding/base64"\n	"strings"\n')),
'd14edge':('C14',(AP,'if certActualIssueTime < atIssueTime {','if certActualIssueTime+1 < atIssueTime {')),
'd14pp':('C14',(AP,'if _, ok := valid[uri.String()]; ok {','if _, ok := valid[uri.Scheme+"://"+uri.Host+uri.Path]; ok {')),
'd14noth':('C14',(AP,'if certThumbprint, ok := claims.Confirm[confirmMethodCertThumbprint].(string); ok {','if certThumbprint, ok := claims.Confirm[confirmMethodCertThumbprint].(string); ok || len(claims.Confirm) == 0 {')),
# C15
'd15empty':('C15',(AP,'	for _, v := range clientIDs {','	if len(clientIDs) == 0 && cn == clientID && cn != "" {\n		return nil\n	}\n	for _, v := range clientIDs {')),
'd15first':('C15',(AP,'		if v == clientID {\n			return nil\n		}\n','		if v == clientID {\n			return nil\n		}\n		if v == "" {\n			break\n		}\n')),
# C16
'd16jku':('C16',(AP,'	jwkSetURL, err := getAsStringFromHeader(&token.Header, jws.JWKSetURLKey)','	jwkSetURL, err := getAsStringFromHeader(&token.Header, jws.JWKSetURLKey)\n	jwkSetURL = strings.TrimSuffix(jwkSetURL, "/")'),(AP,'	"encoding/base64"\n','	"encoding/base64"\n	"strings"\n')),
'd16any':('C16',(J,'	key, found := keys.(jwk.Set).LookupKeyID(keyID)\n','	key, found := keys.(jwk.Set).LookupKeyID(keyID)\n	if !found && keys.(jwk.Set).Len() == 1 {\n		key, found = keys.(jwk.Set).Get(0)\n	}\n')),
# C17
'd17first':('C17',(J,'			failedTargets = append(failedTargets, target)\n			continue','			failedTargets = append(failedTargets, target)\n			if target == j.athenzJwksURL {\n				break\n			}\n			continue')),
'd17merge':('C17',(J,'		j.keys.Store(target, keys)','		if keys.Len() > 0 {\n			j.keys.Store(target, keys)\n		}')),
# C18
'd18env':('C18',(P,'	ver, ok := p.confCache.ZMSPubKeys.Load(keyID)\n	if !ok {','	ver, ok := p.confCache.ZMSPubKeys.Load(keyID)\n	if !ok {\n		ver, ok = p.confCache.ZTSPubKeys.Load(keyID)\n	}\n	if !ok {')),
'd18empty':('C18',(P,'		cache.Range(func(key interface{}, val interface{}) bool {\n			_, ok := cm.Load(key)\n			if !ok {','		cache.Range(func(key interface{}, val interface{}) bool {\n			_, ok := cm.Load(key)\n			if !ok && len(pubKeys.PublicKeys) > 0 {')),
'd18err':('C18',(P,'				return errors.Wrap(err, "error initializing verifier")','				continue')),
'd18first':('C18',(P,'			cm.Store(key.ID, ver)','			cm.LoadOrStore(key.ID, ver)')),
# C19
'd19act':('C25',(A,'	if !a.disablePolicyd {\n		if act == ""','	if !a.disablePolicyd {\n		if a.translator != nil {\n			act = strings.ToLower(act)\n		}\n		if act == ""')),
# C20
'd20exp':('C20',('option.go','		authz.cacheExp = exp\n','		authz.cacheExp = exp + exp/2\n')),
# C21
'd21err':('C21',(A,'		_, err := verifier(r, act, res)\n		if err == nil {\n			return nil\n		}','		p, err := verifier(r, act, res)\n		if err == nil || p != nil {\n			return nil\n		}')),
'd21brk':('C21',(A,'		verified, err := verifier(r, act, res)\n		if err == nil {\n			return verified, nil\n		}','		verified, err := verifier(r, act, res)\n		if err == nil {\n			return verified, nil\n		}\n		if errors.Cause(err) == policy.ErrDenyByPolicy {\n			break\n		}')),
'd21ext':('C21',(A,'			if err != nil {\n				return nil, err\n			}\n			if r.TLS','			if err != nil || tokenString == "" {\n				tokenString = r.Header.Get(a.roleAuthHeader)\n			}\n			if r.TLS')),
# C22
'd22cacheddel':('C22',(A,'		if act == "" || res == "" {\n','		if act == "" || (res == "" && a.translator == nil) {\n')),
}
