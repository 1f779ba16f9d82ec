package authorizerd

import (
	"context"
	"crypto/x509"
	"crypto/x509/pkix"
	"errors"
	"net/http"
	"strings"
	"time"

	"github.com/golang-jwt/jwt/v4"
	"github.com/kpango/gache"
	perrors "github.com/pkg/errors"
	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
	"github.com/yahoojapan/athenz-authorizer/v5/jwk"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
	"github.com/yahoojapan/athenz-authorizer/v5/role"
)

// vfRefusal is one of the errors a policy check ends with.
func vfRefusal() error {
	return []error{errVF, perrors.Wrap(policy.ErrDenyByPolicy, "policy deny"), perrors.Wrap(policy.ErrNoMatch, "no match"), errExpired}[vf.Choice("refusal", 4)]
}

var (
	errVF       = errors.New("verif: rejected")
	errExpired  = perrors.Wrap(errors.New("token expired: access denied, not found, invalid context canceled"), "error authorize")
	vfSlowTrans = &http.Client{Transport: vfNoNet{}}
)

type vfNoNet struct{}

func (vfNoNet) RoundTrip(*http.Request) (*http.Response, error) { return nil, errVF }

// vfRole stands for the role token processor.
type vfRole struct {
	f     func(tok string) (*role.Token, error)
	calls int
	tok   string
}

func (p *vfRole) ParseAndValidateRoleToken(tok string) (*role.Token, error) {
	p.calls++
	p.tok = tok
	return p.f(tok)
}

// vfAccess stands for the access token processor.
type vfAccess struct {
	f     func(tok string, cert *x509.Certificate) (*access.OAuth2AccessTokenClaim, error)
	calls int
	tok   string
	cert  *x509.Certificate
}

func (p *vfAccess) ParseAndValidateOAuth2AccessToken(tok string, cert *x509.Certificate) (*access.OAuth2AccessTokenClaim, error) {
	p.calls++
	p.tok, p.cert = tok, cert
	return p.f(tok, cert)
}

// vfPolicy stands for the policy daemon.
type vfPolicy struct {
	f      func(domain string, roles []string, act, res string) ([]string, error)
	calls  int
	domain string
	roles  []string
	act    string
	res    string

	vfDaemon
}

func (p *vfPolicy) CheckPolicy(ctx context.Context, domain string, roles []string, act, res string) error {
	_, err := p.CheckPolicyRoles(ctx, domain, roles, act, res)
	return err
}

func (p *vfPolicy) CheckPolicyRoles(ctx context.Context, domain string, roles []string, act, res string) ([]string, error) {
	p.calls++
	p.domain, p.roles, p.act, p.res = domain, roles, act, res
	return p.f(domain, roles, act, res)
}

func (p *vfPolicy) GetPolicyCache(context.Context) map[string]interface{} {
	return map[string]interface{}{"cached": 1}
}

// vfDaemon stands for the refreshing part of a child daemon.
type vfDaemon struct {
	update  func(ctx context.Context) error
	start   func(ctx context.Context) <-chan error
	updates int
	starts  int
}

func (d *vfDaemon) Update(ctx context.Context) error {
	d.updates++
	if d.update == nil {
		return nil
	}
	return d.update(ctx)
}

func (d *vfDaemon) Start(ctx context.Context) <-chan error {
	d.starts++
	if d.start == nil {
		ch := make(chan error)
		close(ch)
		return ch
	}
	return d.start(ctx)
}

type vfPubkeyd struct{ vfDaemon }

func (d *vfPubkeyd) GetProvider() pubkey.Provider { return nil }

type vfJwkd struct{ vfDaemon }

func (d *vfJwkd) GetProvider() jwk.Provider { return nil }

// vfAuthority is an authorizer built by New whose children are replaced by stand-ins.
func vfAuthority(opts ...Option) *authority {
	a, err := New(append([]Option{
		WithHTTPClient(vfSlowTrans),
		WithAthenzDomains("dom"),
		WithDisableRoleCert(),
		WithAccessTokenParam(NewAccessTokenParam(true, false, "", "", false, nil)),
	}, opts...)...)
	if err != nil {
		vf.Assert(false, "the authorizer can be constructed")
		vf.Stop()
	}
	return a.(*authority)
}

func vfClaim(sub, aud string, scope []string, iat, exp int64, client string) *access.OAuth2AccessTokenClaim {
	c := &access.OAuth2AccessTokenClaim{Scope: scope, ClientID: client, UserID: "uid", ProxyPrincipal: "proxy", AuthTime: 5, Version: 1}
	c.BaseClaim = access.BaseClaim{StandardClaims: jwt.StandardClaims{Subject: sub, Audience: aud, IssuedAt: iat, ExpiresAt: exp, NotBefore: 7, Issuer: "issuer", Id: "id"}}
	return c
}

type vfQuery struct{}

// Translate keeps method and path; the query becomes part of the decision.
func (vfQuery) Translate(domain, method, path, query string) (string, string, error) {
	return method, path + "?" + query, nil
}

// vfCert: certificates differ in content; their names may coincide.
func vfCert(n int, issuer, subject string) *x509.Certificate {
	if n == 0 {
		return nil
	}
	return &x509.Certificate{Raw: []byte{'r', 'a', 'w', byte('0' + n)}, Issuer: pkix.Name{CommonName: issuer}, Subject: pkix.Name{CommonName: subject}}
}

// vfIsPlaceholder: a non-empty name in braces.
func vfIsPlaceholder(s string) bool {
	return len(s) > 2 && strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}")
}

var (
	_ = gache.New
	_ = time.Second
	_ = strings.Index
)
