package authorizerd

import (
	"crypto/tls"
	"crypto/x509"
	"net/http"
	"net/url"

	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
	"github.com/yahoojapan/athenz-authorizer/v5/role"
)

// Any outcome of any number of credential checks.
func VF_C21_AnyOf() {
	n := vf.Choice("checks", vf.Q(5, 8))
	a := vfAuthority()
	refusal := vfRefusal()
	outcome := make([]bool, n)
	called := make([]int, n)
	ps := make([]*principal, n)
	a.authorizers = nil
	next := 0
	for i := 0; i < n; i++ {
		i := i
		outcome[i] = vf.Bool("succeeds")
		ps[i] = &principal{name: "p", roles: []string{"r"}}
		a.authorizers = append(a.authorizers, func(r *http.Request, act, res string) (Principal, error) {
			called[i]++
			vf.Assert(i == next, "the checks are tried in order")
			next = i + 1
			vf.Assert(act == "act" && res == "res", "a check sees the request's action and resource")
			if outcome[i] {
				return ps[i], nil
			}
			return nil, refusal
		})
	}
	req := &http.Request{Method: "GET", Header: http.Header{}, URL: &url.URL{Path: "/"}}
	first := -1
	p, err := a.Authorize(req, "act", "res")
	for i := n - 1; i >= 0; i-- {
		if outcome[i] {
			first = i
		}
	}
	if first >= 0 {
		vf.Cover("authorized")
		vf.Assert(err == nil, "a request with a good credential is authorized")
		got, ok := p.(*principal)
		vf.Assert(ok && got == ps[first], "the principal is that of the first credential that succeeds")
	} else {
		vf.Cover("rejected")
		vf.Assert(err == ErrInvalidCredentials && p == nil, "without a good credential the request is rejected")
	}
	next = 0
	err = a.Verify(req, "act", "res")
	vf.Assert((err == nil) == (first >= 0), "verification agrees with authorization")
	vf.Assert(first >= 0 || err == ErrInvalidCredentials, "verification fails with the invalid-credentials error")
}

// Requests with all kinds of credentials against every configuration.
func VF_C21_Config() {
	certOn, accessOn, roleOn := vf.Choice("roleCert", 2) == 1, vf.Choice("accessToken", 2) == 1, vf.Choice("roleToken", 2) == 1
	opts := []Option{WithHTTPClient(vfSlowTrans), WithRoleAuthHeader("X-Role"), WithTranslator(vfQuery{}), WithCacheExp(0),
		WithAccessTokenParam(NewAccessTokenParam(accessOn, false, "", "", false, nil))}
	if !certOn {
		opts = append(opts, WithDisableRoleCert())
	}
	if !roleOn {
		opts = append(opts, WithDisableRoleToken())
	}
	az, err := New(opts...)
	vf.Assert((err == nil) == (certOn || accessOn || roleOn), "construction fails exactly when no credential is enabled")
	if err != nil {
		vf.Cover("no credential")
		return
	}
	a := az.(*authority)
	okRole, okAccess, okPolicy := vf.Bool("roleOK"), vf.Bool("accessOK"), vf.Bool("policyOK")
	okPolicyRole := vf.Bool("policyRoleOK")
	refusal := vfRefusal()
	rp := &vfRole{f: func(string) (*role.Token, error) {
		if !okRole {
			return nil, refusal
		}
		return &role.Token{Domain: "role", Roles: []string{"r"}, Principal: "by role token"}, nil
	}}
	ap := &vfAccess{f: func(string, *x509.Certificate) (*access.OAuth2AccessTokenClaim, error) {
		if !okAccess {
			return nil, refusal
		}
		return vfClaim("by access token", "access", []string{"r"}, 1, 2, "c"), nil
	}}
	pd := &vfPolicy{f: func(domain string, roles []string, act, res string) ([]string, error) {
		if domain == "access" && !okPolicy || domain == "role" && !okPolicyRole {
			return nil, refusal
		}
		return roles, nil
	}}
	a.roleProcessor, a.accessProcessor, a.policyd = rp, ap, pd
	query := []string{"x=1", "", "y=2&x=%31+1&", "%zz"}[vf.Choice("query", 4)]
	req := &http.Request{Method: "GET", Header: http.Header{}, URL: &url.URL{Path: "/", RawQuery: query}}
	prefix := []string{"", "Bearer ", "bearer ", "BEARER "}[vf.Choice("scheme", 4)]
	tok := vf.StrOf("token", "tB. ", 0, 2)
	hasAuth := vf.Choice("authorization", 2) == 1
	if hasAuth {
		req.Header.Set("Authorization", prefix+tok)
	}
	rtok := vf.StrOf("rtoken", "r; ", 0, 1)
	if vf.Choice("roleHeader", 2) == 1 {
		req.Header.Set("x-role", rtok)
		if vf.Choice("repeated", 2) == 1 { // the first value of a repeated header counts
			req.Header.Add("x-role", "later")
			req.Header.Add("Authorization", "Bearer later")
			if !hasAuth {
				hasAuth, prefix, tok = true, "Bearer ", "later"
			}
		}
	} else {
		rtok = ""
	}
	certs := vf.Choice("peerCerts", 4)
	c1, c2 := vfCert(1, "i", "s"), vfCert(2, "i", "s")
	switch certs {
	case 1:
		req.TLS = &tls.ConnectionState{}
	case 2:
		req.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{c1}}
	case 3:
		req.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{c2, c1}, VerifiedChains: [][]*x509.Certificate{{c2, c1}, {c2, c1}}, HandshakeComplete: true, ServerName: "host"}
	}
	p, err := a.Authorize(req, "act", "res")
	hasTok := hasAuth && prefix+tok != ""
	byAccess := accessOn && hasTok && okAccess && okPolicy
	byRole := roleOn && okRole && okPolicyRole
	vf.Assert((err == nil) == (byAccess || byRole), "a request is authorized exactly when an enabled credential authorizes it")
	if err != nil {
		vf.Cover("rejected")
		vf.Assert(err == ErrInvalidCredentials && p == nil, "a rejected request yields the invalid-credentials error and no principal")
	} else {
		vf.Cover("authorized")
		want := "by role token"
		if byAccess {
			want = "by access token"
		}
		vf.Assert(p.Name() == want, "the principal is that of the first credential that succeeds")
		vf.Assert(pd.act == "act" && pd.res == "res?"+query, "the check is made for the request's action, resource and query")
	}
	if ap.calls > 0 {
		vf.Assert(accessOn, "a disabled credential is never consulted")
		vf.Assert(ap.tok == tok, "the access token is the bearer token of the request")
		switch certs {
		case 2:
			vf.Assert(ap.cert == c1, "the client certificate is the peer's own certificate")
		case 3:
			vf.Assert(ap.cert == c2, "the client certificate is the peer's own certificate")
		default:
			vf.Assert(ap.cert == nil, "without TLS there is no client certificate")
		}
	}
	if rp.calls > 0 {
		vf.Assert(roleOn, "a disabled credential is never consulted")
		vf.Assert(rp.tok == rtok, "the role token is that of the configured header")
	}
}
