package authorizerd

import (
	"context"
	"crypto/x509"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
	"github.com/yahoojapan/athenz-authorizer/v5/role"
)

// vfTranslator returns what the harness chose and remembers what it was asked.
type vfTranslator struct {
	act, res string
	err      error
	calls    int
	got      [4]string
}

func (t *vfTranslator) Translate(domain, method, path, query string) (string, string, error) {
	t.calls++
	t.got = [4]string{domain, method, path, query}
	return t.act, t.res, t.err
}

func vfSame(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = vf.And(eq, a[i] == b[i])
	}
	return eq
}

// What the policy check is asked and what principal comes out.
func VF_C25_Flow() {
	const alpha = "aB/ "
	prefix := vf.StrOf("prefix", alpha, 0, vf.Q(2, 3))
	opts := []Option{WithResourcePrefix(prefix)}
	var tr *vfTranslator
	if vf.Choice("translator", 2) == 1 {
		tr = &vfTranslator{act: vf.StrOf("tact", alpha, 1, 1), res: vf.StrOf("tres", alpha, 0, vf.Q(2, 3))}
		if vf.Choice("terr", 2) == 1 {
			tr.err = errVF
		}
		opts = append(opts, WithTranslator(tr))
	}
	policyOn := vf.Choice("policy", 2) == 1
	if !policyOn {
		opts = append(opts, WithDisablePolicyd())
	}
	a := vfAuthority(opts...)
	domain, sub, client := vf.StrOf("domain", alpha, 1, 1), vf.StrOf("subject", alpha, 1, 1), vf.StrOf("client", alpha, 1, 1)
	roles := make([]string, vf.Choice("roles", vf.Q(3, 4)))
	for i := range roles {
		roles[i] = vf.StrOf("role", alpha, 1, 1)
	}
	authorized := make([]string, vf.Choice("authorized", 2))
	for i := range authorized {
		authorized[i] = vf.StrOf("authorizedRole", alpha, 1, 1)
	}
	iat, exp := vf.Int("iat", -1<<40, 1<<40), vf.Int("exp", -1<<40, 1<<40)
	okTok, okPolicy := vf.Choice("tokenOK", 2) == 1, vf.Choice("policyOK", 2) == 1
	asked := append([]string(nil), roles...)
	rp := &vfRole{f: func(string) (*role.Token, error) {
		if !okTok {
			return nil, errVF
		}
		return &role.Token{Domain: domain, Roles: roles, Principal: sub, TimeStamp: time.Unix(iat, 0), ExpiryTime: time.Unix(exp, 0)}, nil
	}}
	ap := &vfAccess{f: func(string, *x509.Certificate) (*access.OAuth2AccessTokenClaim, error) {
		if !okTok {
			return nil, errVF
		}
		return vfClaim(sub, domain, roles, iat, exp, client), nil
	}}
	pd := &vfPolicy{f: func(domain string, roles []string, act, res string) ([]string, error) {
		if !okPolicy {
			return nil, errVF
		}
		return authorized, nil
	}}
	a.roleProcessor, a.accessProcessor, a.policyd = rp, ap, pd
	ctx := context.Background()
	tok, act, res := "token", vf.StrOf("act", alpha, 1, 1), vf.StrOf("res", alpha, 1, 1)
	query := vf.StrOf("query", alpha, 0, 1)
	var p Principal
	var err error
	viaAccess := vf.Choice("kind", 2) == 0
	var cert *x509.Certificate
	if viaAccess {
		cert = vfCert(vf.Choice("cert", 2), "i", "s")
	}
	if viaAccess {
		p, err = a.authorize(ctx, accessToken, tok, act, res, query, cert)
	} else {
		p, err = a.authorize(ctx, roleToken, tok, act, res, query, nil)
	}
	trErr := tr != nil && tr.err != nil
	if !policyOn {
		trErr = false
	}
	want := okTok && (!policyOn || okPolicy && !trErr)
	vf.Assert((err == nil) == want, "a request is authorized exactly when token, translation and policy check succeed")
	vf.Assert((err == nil) == (p != nil), "a principal exactly with a success")
	if okTok && policyOn && !trErr {
		wantAct, wantRes := act, res
		if tr != nil {
			vf.Assert(tr.calls == 1, "the translator is asked once")
			vf.Assert(vf.And(vf.And(tr.got[0] == domain, tr.got[1] == act), vf.And(tr.got[2] == res, tr.got[3] == query)), "the translator sees the token's domain and the request")
			wantAct, wantRes = tr.act, tr.res
		}
		vf.Assert(pd.calls == 1, "the policy is checked once")
		vf.Assert(pd.domain == domain, "the policy check is made for the token's domain")
		vf.Assert(vfSame(pd.roles, asked), "the policy check is made for exactly the token's roles")
		vf.Assert(vf.And(pd.act == wantAct, pd.res == prefix+wantRes), "the policy check is made for the translated action and the prefixed resource")
	} else {
		vf.Assert(pd.calls == 0, "nothing is checked for a rejected token or translation")
	}
	if viaAccess {
		vf.Assert(ap.calls == 1 && rp.calls == 0 && ap.tok == tok && ap.cert == cert, "the access token is validated with the client certificate")
	} else {
		vf.Assert(rp.calls == 1 && ap.calls == 0 && rp.tok == tok, "the role token is validated")
	}
	if err != nil {
		vf.Cover("rejected")
		return
	}
	vf.Cover("authorized")
	again := p
	if vf.Choice("again", 2) == 1 {
		// the same request again, from the cache
		if viaAccess {
			again, err = a.authorize(ctx, accessToken, tok, act, res, query, cert)
		} else {
			again, err = a.authorize(ctx, roleToken, tok, act, res, query, nil)
		}
		vf.Assert(err == nil, "the same request is still authorized")
	}
	vf.Assert(vf.And(again.Name() == sub, again.Domain() == domain), "the principal carries the token's subject and domain")
	vf.Assert(vfSame(again.Roles(), asked), "the principal carries the token's roles")
	vf.Assert(vf.And(again.IssueTime() == iat, again.ExpiryTime() == exp), "the principal carries the token's times")
	if policyOn {
		vf.Assert(vfSame(again.AuthorizedRoles(), authorized), "the principal carries the roles that authorized the request")
	} else {
		vf.Assert(len(again.AuthorizedRoles()) == 0, "without a policy check no role is reported as authorized")
	}
	c, isAccess := again.(OAuthAccessToken)
	vf.Assert(isAccess == viaAccess, "an access token yields an access token principal")
	if isAccess {
		vf.Assert(c.ClientID() == client, "the principal carries the client id")
	}
}
