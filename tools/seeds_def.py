D='policy/daemon.go'; F='policy/fetcher.go'; A='authorizerd.go'; T='translator.go'; AP='access/processor.go'; J='jwk/daemon.go'; P='pubkey/daemon.go'; RT='role/token.go'; RP='role/processor.go'
MOCK='''
type dRole struct{ f func(string) (*role.Token, error) }

func (d dRole) ParseAndValidateRoleToken(t string) (*role.Token, error) { return d.f(t) }

type dAcc struct {
	f func(string, *x509.Certificate) (*access.OAuth2AccessTokenClaim, error)
}

func (d dAcc) ParseAndValidateOAuth2AccessToken(t string, c *x509.Certificate) (*access.OAuth2AccessTokenClaim, error) {
	return d.f(t, c)
}

type dPol struct {
	policy.Daemon
	f func(domain string, roles []string, act, res string) ([]string, error)
}

func (d dPol) CheckPolicyRoles(_ context.Context, domain string, roles []string, act, res string) ([]string, error) {
	return d.f(domain, roles, act, res)
}
func (d dPol) CheckPolicy(_ context.Context, domain string, roles []string, act, res string) error {
	_, err := d.f(domain, roles, act, res)
	return err
}

var _ = jwt.StandardClaims{}
'''
ROOTIMP='''
	"context"
	"crypto/x509"
	"testing"

	"github.com/golang-jwt/jwt/v4"
	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
	"github.com/yahoojapan/athenz-authorizer/v5/role"
'''
POLSP='''
func sp(expires time.Time, pols ...*util.Policy) *SignedPolicy {
	return &SignedPolicy{util.DomainSignedPolicyData{SignedPolicyData: &util.SignedPolicyData{
		Expires:    &rdl.Timestamp{Time: expires},
		PolicyData: &util.PolicyData{Domain: "dom", Policies: pols},
	}}}
}
'''
SEEDS['c01-cancelled-check']=('C01','policy',[(D,'''						case <-cctx.Done():
							ch <- roleEffect{Role: role, Effect: cctx.Err()}
							return
						default:
							// deny''','''						case <-cctx.Done():
							// nobody needs the result anymore
							return
						default:
							// deny''')],'''
package policy

import (
	"context"
	"testing"
	"time"

	"github.com/kpango/gache"
	"github.com/kpango/glg"
)

// role a allows at once; role b denies, but only its last assertion says so. The caller's context ends in between.
func TestDemo(t *testing.T) {
	glg.Get().SetMode(glg.NONE)
	allow, _ := NewAssertion("get", "dom:res", "allow")
	other, _ := NewAssertion("nomatch", "dom:other", "deny")
	deny, _ := NewAssertion("get", "dom:res", "deny")
	rp := gache.New()
	rp.Set("dom:role.a", []*Assertion{allow})
	many := make([]*Assertion, 3000000)
	for i := range many {
		many[i] = other
	}
	rp.Set("dom:role.b", append(many, deny))
	p := &policyd{rolePolicies: &rp}
	for i := 0; i < 3; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		time.AfterFunc(30*time.Millisecond, cancel)
		if roles, err := p.CheckPolicyRoles(ctx, "dom", []string{"a", "b"}, "get", "res"); err == nil {
			t.Fatalf("a denied request was authorized: %v", roles)
		}
		cancel()
	}
}
''','the context of the check ends after one role has been decided and while another role is still being evaluated',
'an interrupted check authorizes a request although a deny assertion of another role matches')

SEEDS['c06-reload-in-check']=('C06','policy',[(D,'''		curRpPtrPtr := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
		rp := *(*gache.Gache)(atomic.LoadPointer(curRpPtrPtr))

		for _, role := range roles {''','''		for _, role := range roles {'''),(D,'''				default:
					asss, ok := rp.Get(dr)''','''				default:
					// always check on the latest policies
					curRpPtrPtr := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
					rp := *(*gache.Gache)(atomic.LoadPointer(curRpPtrPtr))
					asss, ok := rp.Get(dr)''')],'''
package policy

import (
	"context"
	"sync/atomic"
	"testing"
	"time"
	"unsafe"

	"github.com/kpango/gache"
	"github.com/kpango/glg"
)

// In both policy versions the request is denied, by role b in the old one and by role a in the new one.
func TestDemo(t *testing.T) {
	glg.Get().SetMode(glg.NONE)
	allow, _ := NewAssertion("get", "dom:res", "allow")
	deny, _ := NewAssertion("get", "dom:res", "deny")
	old, cur := gache.New(), gache.New()
	old.Set("dom:role.a", []*Assertion{allow})
	old.Set("dom:role.b", []*Assertion{deny})
	cur.Set("dom:role.a", []*Assertion{deny})
	cur.Set("dom:role.b", []*Assertion{allow})
	p := &policyd{rolePolicies: &old}
	stop := make(chan struct{})
	defer close(stop)
	go func() {
		pp := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
		for {
			select {
			case <-stop:
				return
			default:
				atomic.StorePointer(pp, unsafe.Pointer(&cur))
				atomic.StorePointer(pp, unsafe.Pointer(&old))
			}
		}
	}()
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end); {
		if roles, err := p.CheckPolicyRoles(context.Background(), "dom", []string{"a", "b"}, "get", "res"); err == nil {
			t.Fatalf("a request which every policy version denies was authorized: %v", roles)
		}
	}
}
''','an update of the policies completes between the lookups of two roles of one check','a check mixes two versions of the policies and misses the deny assertion of both')

SEEDS['c03-colon-in-resource']=('C03','policy',[('policy/assertion.go','strings.SplitN(resource, ":", 2)','strings.Split(resource, ":")')],'''
package policy

import "testing"

func TestDemo(t *testing.T) {
	a, err := NewAssertion("get", "dom:urn:book:*", "allow")
	if err != nil {
		t.Fatal(err)
	}
	if a.ResourceDomain != "dom" || !a.ResourceRegexp.MatchString("urn:book:1") || a.ResourceRegexp.MatchString("urn") {
		t.Fatalf("resource with a colon: %+v", a)
	}
}
''','a policy resource which itself contains a colon','the resource pattern is cut at the second colon, so assertions match other resources than they name')

SEEDS['c04-deny-case']=('C04','policy',[(D,'if strings.EqualFold("deny", ass.Effect) {','if ass.Effect == "deny" {')],'''
package policy

import (
	"context"
	"testing"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/ardielle/ardielle-go/rdl"
	"github.com/kpango/gache"
)
'''+POLSP+'''
func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		g := gache.New()
		err := simplifyAndCachePolicy(context.Background(), g, sp(time.Now().Add(time.Hour), &util.Policy{Assertions: []*util.Assertion{
			{Role: "dom:role.r", Action: "get", Resource: "dom:res", Effect: "ALLOW"},
			{Role: "dom:role.r", Action: "get", Resource: "dom:res", Effect: "DENY"},
		}}))
		if err != nil {
			t.Fatal(err)
		}
		p := &policyd{rolePolicies: &g}
		if err := p.CheckPolicy(context.Background(), "dom", []string{"r"}, "get", "res"); err == nil {
			t.Fatal("the deny assertion was dropped")
		}
	}
}
''','a deny assertion which is not spelled in lower case follows an allow assertion on the same role, action and resource','the deny assertion is treated as a duplicate and lost')

SEEDS['c07-zms-signature']=('C07','policy',[('policy/signed_policy.go','''	if err := ver.Verify((string)(pd), s.SignedPolicyData.ZmsSignature); err != nil {''','''	if s.SignedPolicyData.ZmsSignature == "" {
		// unsigned policy data, covered by the signature of ZTS
		return nil
	}
	if err := ver.Verify((string)(pd), s.SignedPolicyData.ZmsSignature); err != nil {''')],'''
package policy

import (
	"errors"
	"testing"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/ardielle/ardielle-go/rdl"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)
'''+POLSP+'''
type ver func(in, sig string) error

func (v ver) Verify(in, sig string) error { return v(in, sig) }

func TestDemo(t *testing.T) {
	s := sp(time.Now().Add(time.Hour))
	s.Signature = "ok"
	err := s.Verify(func(env pubkey.AthenzEnv, id string) authcore.Verifier {
		return ver(func(in, sig string) error {
			if env == pubkey.EnvZTS && sig == "ok" {
				return nil
			}
			return errors.New("bad signature")
		})
	})
	if err == nil {
		t.Fatal("policy data without a ZMS signature accepted")
	}
}
''','a policy whose ZMS signature is missing','policy data that ZMS never signed is accepted')

SEEDS['c09-etag-slide']=('C09','policy',[(F,'		return tp.sp, nil\n','''		// the policy is still the current one
		tp.eTagExpiry = fastime.Now().Add(f.expiryMargin)
		return tp.sp, nil
''')],'''
package policy

import (
	"context"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"
	"unsafe"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/ardielle/ardielle-go/rdl"
)
'''+POLSP+'''
func TestDemo(t *testing.T) {
	var seen []string
	srv := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		seen = append(seen, r.Header.Get("If-None-Match"))
		w.WriteHeader(http.StatusNotModified)
	}))
	defer srv.Close()
	exp := time.Now().Add(2 * time.Second)
	f := &fetcher{domain: "dom", athenzURL: strings.TrimPrefix(srv.URL, "https://"), client: srv.Client(), expiryMargin: time.Hour,
		spVerifier: func(*SignedPolicy) error { return nil }}
	f.policyCache = unsafe.Pointer(&taggedPolicy{eTag: "tag", eTagExpiry: exp, sp: sp(exp)})
	f.Fetch(context.Background())
	time.Sleep(3 * time.Second)
	f.Fetch(context.Background())
	if len(seen) != 2 || seen[0] != "tag" || seen[1] != "" {
		t.Fatalf("the ETag of an expired policy was sent: %q", seen)
	}
}
''','a 304 answer and a second fetch after the expiry of the cached policy','the ETag of a policy is kept alive by 304 answers after the expiry of the policy, so an expired policy is never replaced')

SEEDS['c11-no-expiry']=('C11','role',[(RT,'return fastime.Now().After(r.ExpiryTime)','return !r.ExpiryTime.IsZero() && fastime.Now().After(r.ExpiryTime)')],'''
package role

import (
	"testing"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

type ver func(in, sig string) error

func (v ver) Verify(in, sig string) error { return v(in, sig) }

func TestDemo(t *testing.T) {
	r := &rtp{pkp: func(pubkey.AthenzEnv, string) authcore.Verifier {
		return ver(func(string, string) error { return nil })
	}}
	if _, err := r.ParseAndValidateRoleToken("d=dom;r=admin;p=user.x;k=0;s=sig"); err == nil {
		t.Fatal("a token without an expiry was accepted")
	}
}
''','a role token without the expiry field','a role token that carries no expiry never expires')

SEEDS['c12-field-case']=('C12','role',[(RT,'	switch key {','	switch strings.ToLower(key) {')],'''
package role

import (
	"testing"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

type ver func(in, sig string) error

func (v ver) Verify(in, sig string) error { return v(in, sig) }

func TestDemo(t *testing.T) {
	r := &rtp{pkp: func(pubkey.AthenzEnv, string) authcore.Verifier {
		return ver(func(string, string) error { return nil })
	}}
	tok, err := r.ParseAndValidateRoleToken("d=dom;r=guest;p=user.x;e=4000000000;k=0;R=admin;s=sig")
	if err != nil {
		t.Fatal(err)
	}
	if len(tok.Roles) != 1 || tok.Roles[0] != "guest" {
		t.Fatalf("roles %v", tok.Roles)
	}
}
''','a role token with an extra field whose name differs from a known one in case only','an unknown field of the token overrides its roles')

SEEDS['c13-expiry-leeway']=('C13','access',[('access/claim.go','now := jwt.TimeFunc().Unix()','now := jwt.TimeFunc().Add(-time.Second).Unix() // round down')],'''
package access

import (
	"testing"
	"time"

	"github.com/golang-jwt/jwt/v4"
)

func TestDemo(t *testing.T) {
	defer func(f func() time.Time) { jwt.TimeFunc = f }(jwt.TimeFunc)
	jwt.TimeFunc = func() time.Time { return time.Unix(1700000000, 0) }
	c := &OAuth2AccessTokenClaim{BaseClaim: BaseClaim{jwt.StandardClaims{ExpiresAt: 1700000000}}}
	if c.Valid() == nil {
		t.Fatal("a token which expires now is accepted")
	}
	c.ExpiresAt, c.IssuedAt, c.NotBefore = 1800000000, 1700000000, 1700000000
	if err := c.Valid(); err != nil {
		t.Fatalf("a token issued now is rejected: %v", err)
	}
}
''','a token used within the second of its expiry or of its issue','tokens are accepted for a second after they expired')

SEEDS['c14-proxy-uri']=('C14','access',[(AP,'if _, ok := valid[uri.String()]; ok {','if _, ok := valid[uri.Scheme+"://"+uri.Host+uri.Path]; ok {')],'''
package access

import (
	"crypto/x509"
	"net/url"
	"testing"
)

func TestDemo(t *testing.T) {
	a := &atp{enableMTLSCertificateBoundAccessToken: true}
	u, _ := url.Parse("spiffe://athenz.io/proxy?tenant=other")
	c := &OAuth2AccessTokenClaim{Confirm: map[string]interface{}{confirmMethodProxyPrincipals: []interface{}{"spiffe://athenz.io/proxy"}}}
	if err := a.validateCertificateBoundAccessToken(&x509.Certificate{URIs: []*url.URL{u}}, c); err == nil {
		t.Fatal("a certificate with another URI was accepted")
	}
}
''','a client certificate whose URI differs from a proxy principal only in its query, fragment or escaping','a certificate that the token is not bound to is accepted')

SEEDS['c16-jku-fallback']=('C16','jwk',[(J,'''	if !ok {
		return nil
	}

	key, found''','''	if !ok && isContain(j.urls, jwkSetURL) {
		// not fetched yet
		keys, ok = j.keys.Load(j.athenzJwksURL)
	}
	if !ok {
		return nil
	}

	key, found''')],'''
package jwk

import (
	"sync"
	"testing"

	"github.com/lestrrat-go/jwx/jwk"
)

func TestDemo(t *testing.T) {
	set, err := jwk.Parse([]byte(`{"keys":[{"kty":"oct","kid":"1","k":"AyM1SysPpbyDfgZld3umj1qzKObwVMkoqQ-EstJQLr_T-1qS0gZH75aKtMN3Yj0iPS4hcgUuTwjAzZr1Z9CAow"}]}`))
	if err != nil {
		t.Fatal(err)
	}
	j := &jwkd{athenzJwksURL: "https://athenz/keys", urls: []string{"https://other/keys"}, keys: &sync.Map{}}
	j.keys.Store("https://athenz/keys", set)
	if k := j.getKey("1", "https://other/keys"); k != nil {
		t.Fatal("a key of another set was returned")
	}
}
''','a token whose jku is a configured URL whose key set has never been fetched, with a kid that the Athenz key set has','the token is verified by a key that does not belong to its jku')

SEEDS['c17-empty-set']=('C17','jwk',[(J,'''		j.keys.Store(target, keys)
''','''		if keys.Len() > 0 {
			j.keys.Store(target, keys)
		}
''')],'''
package jwk

import (
	"context"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	body := `{"keys":[{"kty":"oct","kid":"1","k":"AyM1SysPpbyDfgZld3umj1qzKObwVMkoqQ-EstJQLr_T-1qS0gZH75aKtMN3Yj0iPS4hcgUuTwjAzZr1Z9CAow"}]}`
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Write([]byte(body)) }))
	defer srv.Close()
	j := &jwkd{athenzJwksURL: srv.URL, client: srv.Client(), keys: &sync.Map{}}
	if err := j.Update(context.Background()); err != nil || j.getKey("1", "") == nil {
		t.Fatal("first update", err)
	}
	body = `{"keys":[]}`
	if err := j.Update(context.Background()); err != nil {
		t.Skip("the empty set was refused")
	}
	if j.getKey("1", "") != nil {
		t.Fatal("a withdrawn key is still used")
	}
}
''','an update in which the server withdraws every key','withdrawn keys stay valid forever')

SEEDS['c18-key-gap']=('C18','pubkey',[(P,'''		cm.Range(func(key interface{}, val interface{}) bool {
			cache.Store(key, val)
			return true
		})
		cache.Range(func(key interface{}, val interface{}) bool {
			_, ok := cm.Load(key)
			if !ok {
				cache.Delete(key)
			}
			return true
		})
''','''		// replace the keys
		cache.Range(func(key interface{}, val interface{}) bool {
			cache.Delete(key)
			return true
		})
		cm.Range(func(key interface{}, val interface{}) bool {
			cache.Store(key, val)
			return true
		})
''')],'''
package pubkey

import (
	"context"
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/kpango/gache"
	"github.com/kpango/glg"
)

const pem = `-----BEGIN PUBLIC KEY-----
MFwwDQYJKoZIhvcNAQEBBQADSwAwSAJBALGlaObbNHUrGouw0MunmcrbrWOoDKIt
PADHlo6zJbqEK36AqytV6sKKec70oAkeX7QUV4M9p2Fp1wL7H8uECUMCAwEAAQ==
-----END PUBLIC KEY-----
`

// the keys of both versions contain the key 0, it can be used at any time
func TestDemo(t *testing.T) {
	glg.Get().SetMode(glg.NONE)
	type ent struct {
		ID  string `json:"id"`
		Key string `json:"key"`
	}
	dec := new(authcore.YBase64)
	k := dec.EncodeToString([]byte(pem))
	var pub []ent
	for i := 0; i < 300; i++ {
		pub = append(pub, ent{ID: string(rune('0' + i)), Key: k})
	}
	body, _ := json.Marshal(map[string]interface{}{"name": "sys.auth.zts", "publicKeys": pub})
	srv := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Write(body) }))
	defer srv.Close()
	p := &pubkeyd{athenzURL: strings.TrimPrefix(srv.URL, "https://"), sysAuthDomain: "sys.auth", client: srv.Client(), eTagCache: gache.New(), eTagExpiry: time.Minute,
		confCache: &AthenzConfig{ZMSPubKeys: new(sync.Map), ZTSPubKeys: new(sync.Map)}}
	if err := p.Update(context.Background()); err != nil {
		t.Fatal(err)
	}
	stop := make(chan struct{})
	done := make(chan struct{})
	go func() {
		defer close(done)
		for {
			select {
			case <-stop:
				return
			default:
				p.Update(context.Background())
			}
		}
	}()
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end); {
		if p.getPubKey(EnvZTS, "0") == nil {
			t.Error("a key which every version has was missing during an update")
			break
		}
	}
	close(stop)
	<-done
}
''','a lookup of a key while an update that keeps the key is being applied','valid tokens are rejected during the refresh of the public keys')

SEEDS['c19-query-key']=('C19','',[(A,'if query != "" && a.translator != nil {','if a.translator != nil && strings.Contains(query, "=") {')],'''
package authorizerd

import ('''+ROOTIMP+'''	"errors"
	"net/http"
	"time"
)
'''+MOCK+'''
func TestDemo(t *testing.T) {
	tr, err := NewMappingRules(map[string][]Rule{"dom": {
		{Method: "get", Path: "/a?x={x}", Action: "read", Resource: "secret.{x}"},
		{Method: "get", Path: "/a", Action: "read", Resource: "public"},
	}})
	if err != nil {
		t.Fatal(err)
	}
	z, err := New(WithAthenzDomains("dom"), WithTranslator(tr), WithDisableRoleCert())
	if err != nil {
		t.Fatal(err)
	}
	a := z.(*authority)
	a.roleProcessor = dRole{func(string) (*role.Token, error) {
		return &role.Token{Domain: "dom", Roles: []string{"r"}, ExpiryTime: time.Now().Add(time.Hour)}, nil
	}}
	a.policyd = dPol{f: func(_ string, roles []string, act, res string) ([]string, error) {
		if res == "public" {
			return roles, nil
		}
		return nil, errors.New("denied")
	}}
	req := func(u string) error {
		r, _ := http.NewRequest("GET", u, nil)
		r.Header.Set("Athenz-Role-Auth", "tok")
		return a.Verify(r, "get", "/a")
	}
	if err := req("http://h/a"); err != nil {
		t.Fatal(err)
	}
	if err := req("http://h/a?x"); err == nil {
		t.Fatal("another request was served from the cache")
	}
}
''','two requests that differ only in a query without a value, the first one being authorized','a request is answered with the cached authorization of a different request')

SEEDS['c21-deny-stops']=('C21','',[(A,'''		verified, err := verifier(r, act, res)
		if err == nil {
			return verified, nil
		}
''','''		verified, err := verifier(r, act, res)
		if err == nil {
			return verified, nil
		}
		if errors.Cause(err) == policy.ErrDenyByPolicy {
			// explicitly denied
			break
		}
''')],'''
package authorizerd

import ('''+ROOTIMP+'''	"net/http"
	"time"
)
'''+MOCK+'''
func TestDemo(t *testing.T) {
	z, err := New(WithAthenzDomains("dom"), WithAccessTokenParam(NewAccessTokenParam(true, false, "", "", false, nil)))
	if err != nil {
		t.Fatal(err)
	}
	a := z.(*authority)
	a.accessProcessor = dAcc{func(string, *x509.Certificate) (*access.OAuth2AccessTokenClaim, error) {
		c := &access.OAuth2AccessTokenClaim{Scope: []string{"denied"}}
		c.Audience = "dom"
		return c, nil
	}}
	a.roleProcessor = dRole{func(string) (*role.Token, error) {
		return &role.Token{Domain: "dom", Roles: []string{"allowed"}, ExpiryTime: time.Now().Add(time.Hour)}, nil
	}}
	a.policyd = dPol{f: func(_ string, roles []string, act, res string) ([]string, error) {
		if roles[0] == "denied" {
			return nil, policy.ErrDenyByPolicy
		}
		return roles, nil
	}}
	r, _ := http.NewRequest("GET", "http://h/a", nil)
	r.Header.Set("Authorization", "Bearer x")
	r.Header.Set("Athenz-Role-Auth", "tok")
	if _, err := a.Authorize(r, "get", "res"); err != nil {
		t.Fatalf("the role token authorizes the request: %v", err)
	}
}
''','a request with two credentials, the first of which the policies deny explicitly','a request with a valid credential is refused, and Verify and Authorize disagree')

SEEDS['c22-prefix-empty']=('C22','',[(A,'if act == "" || res == "" {','if act == "" || a.resourcePrefix+res == "" {')],'''
package authorizerd

import ('''+ROOTIMP+'''	"time"
)
'''+MOCK+'''
func TestDemo(t *testing.T) {
	z, err := New(WithAthenzDomains("dom"), WithResourcePrefix("/svc"))
	if err != nil {
		t.Fatal(err)
	}
	a := z.(*authority)
	a.roleProcessor = dRole{func(string) (*role.Token, error) {
		return &role.Token{Domain: "dom", Roles: []string{"r"}, ExpiryTime: time.Now().Add(time.Hour)}, nil
	}}
	a.policyd = dPol{f: func(_ string, roles []string, act, res string) ([]string, error) { return roles, nil }}
	if err := a.VerifyRoleToken(context.Background(), "tok", "get", ""); err == nil {
		t.Fatal("an empty resource was authorized")
	}
}
''','a resource prefix is configured and the resource of the request is empty','a request without a resource is authorized')

SEEDS['c24-rule-path']=('C24','',[(T,'!strings.HasPrefix(rule.Path, "/")','!strings.Contains(rule.Path, "/")')],'''
package authorizerd

import "testing"

func TestDemo(t *testing.T) {
	if _, err := NewMappingRules(map[string][]Rule{"dom": {{Method: "get", Path: "a/b", Action: "x", Resource: "y"}}}); err == nil {
		t.Fatal("a path which does not start with a slash was accepted")
	}
}
''','a rule whose path has a slash, but not at its start','a rule that can never apply is accepted')

SEEDS['c26-deny-stops']=('C26','',[(A,'''a.policyd.CheckPolicy(ctx, domain, roles, act, res); err == nil {
			return nil
		}''','''a.policyd.CheckPolicy(ctx, domain, roles, act, res); err == nil {
			return nil
		} else if errors.Cause(err) == policy.ErrDenyByPolicy {
			break
		}''')],'''
package authorizerd

import ('''+ROOTIMP+'''	"crypto/x509/pkix"
	"net/url"
)
'''+MOCK+'''
func TestDemo(t *testing.T) {
	z, err := New(WithAthenzDomains("dom"))
	if err != nil {
		t.Fatal(err)
	}
	a := z.(*authority)
	a.policyd = dPol{f: func(dom string, roles []string, act, res string) ([]string, error) {
		if dom == "d1" {
			return nil, policy.ErrDenyByPolicy
		}
		return roles, nil
	}}
	u, _ := url.Parse("athenz://role/d2/writer")
	certs := []*x509.Certificate{{Subject: pkix.Name{CommonName: "d1:role.reader"}, URIs: []*url.URL{u}}}
	for i := 0; i < 100; i++ {
		if err := a.VerifyRoleCert(context.Background(), certs, "get", "res"); err != nil {
			t.Fatalf("a role of the certificate is allowed: %v", err)
		}
	}
}
''','a role certificate with roles of two domains, the one evaluated first being denied','whether a role certificate is authorized depends on the order of a map')

SEEDS['c28-retry-once']=('C28','pubkey',[(P,'''					time.Sleep(p.retryDelay)

					select {
					case fch <- struct{}{}:
					default:
						glg.Warn("failure queue already full")
					}
				}
			case <-ticker.C:''','''					time.Sleep(p.retryDelay)
				}
			case <-ticker.C:''')],'''
package pubkey

import (
	"context"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/kpango/gache"
)

// the server fails; the keys have to be fetched again and again without waiting for the next period
func TestDemo(t *testing.T) {
	var n int32
	srv := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		atomic.AddInt32(&n, 1)
		w.WriteHeader(500)
	}))
	defer srv.Close()
	p := &pubkeyd{athenzURL: strings.TrimPrefix(srv.URL, "https://"), sysAuthDomain: "sys.auth", client: srv.Client(), eTagCache: gache.New(), eTagExpiry: time.Minute, eTagPurgePeriod: time.Minute,
		refreshPeriod: 2 * time.Second, retryDelay: 20 * time.Millisecond,
		confCache: &AthenzConfig{ZMSPubKeys: new(sync.Map), ZTSPubKeys: new(sync.Map)}}
	ctx, cancel := context.WithCancel(context.Background())
	ech := p.Start(ctx)
	time.Sleep(3500 * time.Millisecond)
	cancel()
	for range ech {
	}
	if c := atomic.LoadInt32(&n); c < 10 {
		t.Fatalf("%d requests in 1.5 s of failures", c)
	}
}
''','two refreshes of the public keys fail in a row','after a second failure the keys are not fetched again before the next period')

SEEDS['c29-quadratic-wait']=('C29','client',[('client/exp_rt.go','float64(2*count+1)','float64(count*count+1)')],'''
package client

import (
	"testing"
	"time"
)

// the waits of the first n attempts add up to (n/factor)^2 seconds
func TestDemo(t *testing.T) {
	p, _ := NewExponentialRoundTripper(nil, 5, 10, time.Minute)
	var sum time.Duration
	for n := 1; n < 10; n++ {
		sum += p.calNextWaitDur(n - 1)
		want := time.Duration(float64(n*n) / 25 * float64(time.Second))
		if d := sum - want; d > time.Millisecond || d < -time.Millisecond {
			t.Fatalf("after %d attempts: %v, expected %v", n, sum, want)
		}
	}
}
''','more than one retry','the waits between retries no longer follow the documented backoff')

SEEDS['c32-not-modified']=('C32','policy',[(F,'''	defer func() {
		if err := flushAndClose(res.Body); err != nil {
			glg.Warn(errors.Wrap(err, "close Response.Body fail"))
		}
	}()

	// if server responses NotModified, return policy from cache
''','''	// if server responses NotModified, return policy from cache
'''),(F,'''	if res.StatusCode != http.StatusOK {''','''	defer func() {
		if err := flushAndClose(res.Body); err != nil {
			glg.Warn(errors.Wrap(err, "close Response.Body fail"))
		}
	}()

	if res.StatusCode != http.StatusOK {''')],'''
package policy

import (
	"context"
	"net/http"
	"strings"
	"testing"
	"time"
	"unsafe"
)

type body struct {
	*strings.Reader
	closed int
}

func (b *body) Close() error { b.closed++; return nil }

type rt struct{ b *body }

func (r rt) RoundTrip(q *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 304, Body: r.b, Request: q, Header: http.Header{}}, nil
}

func TestDemo(t *testing.T) {
	b := &body{Reader: strings.NewReader("x")}
	f := &fetcher{domain: "dom", athenzURL: "athenz", client: &http.Client{Transport: rt{b}}}
	f.policyCache = unsafe.Pointer(&taggedPolicy{eTag: "tag", eTagExpiry: time.Now().Add(time.Hour), sp: &SignedPolicy{}})
	f.Fetch(context.Background())
	if b.closed == 0 {
		t.Fatal("the body of the 304 response was not closed")
	}
}
''','a 304 answer to a policy fetch','the connection of every 304 answer leaks')

SEEDS['c33-jwk-delay']=('C33','',[(A,'jwk.WithRetryDelay(prov.jwkRetryDelay)','jwk.WithRetryDelay(prov.pubkeyRetryDelay)')],'''
package authorizerd

import "testing"

func TestDemo(t *testing.T) {
	if _, err := New(WithAthenzDomains("dom"), WithJwkRetryDelay("nonsense")); err == nil {
		t.Fatal("the retry delay of jwkd is ignored")
	}
}
''','a retry delay configured for jwkd that differs from the one of pubkeyd','the configured retry delay of jwkd has no effect')

SEEDS['c35-empty-certs']=('C35','',[(A,'if r.TLS != nil && len(r.TLS.PeerCertificates) != 0 {','if r.TLS != nil && r.TLS.PeerCertificates != nil {')],'''
package authorizerd

import (
	"crypto/tls"
	"crypto/x509"
	"net/http"
	"testing"
)

func TestDemo(t *testing.T) {
	z, err := New(WithAthenzDomains("dom"))
	if err != nil {
		t.Fatal(err)
	}
	r, _ := http.NewRequest("GET", "https://h/a", nil)
	r.Header.Set("Authorization", "Bearer a.b.c")
	r.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{}}
	if z.Verify(r, "get", "res") == nil {
		t.Fatal("authorized")
	}
}
''','a TLS connection state with an empty, non-nil list of client certificates','a request crashes the process')

SEEDS['c10-short-etag']=('C10','pubkey',[(P,'''	eTag := r.Header.Get("ETag")
	if eTag != "" {''','''	eTag := r.Header.Get("ETag")
	if eTag != "" && eTag[:2] != "W/" { // strong validators only''')],'''
package pubkey

import (
	"context"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kpango/gache"
)

func TestDemo(t *testing.T) {
	srv := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("ETag", "1")
		w.Write([]byte(`{"name":"sys.auth.zts","publicKeys":[]}`))
	}))
	defer srv.Close()
	p := &pubkeyd{athenzURL: strings.TrimPrefix(srv.URL, "https://"), sysAuthDomain: "sys.auth", client: srv.Client(), eTagCache: gache.New(), eTagExpiry: time.Minute,
		confCache: &AthenzConfig{ZMSPubKeys: new(sync.Map), ZTSPubKeys: new(sync.Map)}}
	if _, _, err := p.fetchPubKeyEntries(context.Background(), EnvZTS); err != nil {
		t.Fatal(err)
	}
}
''','a public key answer with an ETag of a single character','an answer of the server crashes the process')

# ---- C37, C08, C25, ...
SEEDS['c37-etag-pointer']=('C37','policy',[(F,'atomic.StorePointer(&f.policyCache, unsafe.Pointer(newTp))','f.policyCache = unsafe.Pointer(newTp)')],'''
package policy

import (
	"context"
	"io/ioutil"
	"net/http"
	"strings"
	"sync"
	"testing"
)

type rt func(*http.Request) (*http.Response, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func TestDemo(t *testing.T) {
	f := &fetcher{domain: "d", athenzURL: "h", spVerifier: func(*SignedPolicy) error { return nil },
		client: &http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
			return &http.Response{StatusCode: 200, Header: http.Header{}, Request: r,
				Body: ioutil.NopCloser(strings.NewReader(`{"signedPolicyData":{"expires":"2199-01-01T00:00:00.000Z","policyData":{"domain":"d","policies":[]}}}`))}, nil
		})}}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 30; k++ {
				f.Fetch(context.Background())
			}
		}()
	}
	wg.Wait()
}
''','two fetches of one domain at the same time, for example the periodic refresh and the refresh of expired policies','the pointer to the cached policy is written without synchronisation while another fetch reads it','race')

SEEDS['c37-lower-rules']=('C37','',[(T,'''	for _, rule := range mr.Rules[domain] {
		if strings.ToLower(rule.Method) == strings.ToLower(method) {''','''	for i, rule := range mr.Rules[domain] {
		// methods are compared in lower case
		if lower := strings.ToLower(rule.Method); lower != rule.Method {
			rule.Method = lower
			mr.Rules[domain][i] = rule
		}
		if rule.Method == strings.ToLower(method) {''')],'''
package authorizerd

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	for k := 0; k < 50; k++ {
		mr, err := NewMappingRules(map[string][]Rule{"d": {{Method: "Get", Path: "/a/{x}", Action: "read", Resource: "{x}"}}})
		if err != nil {
			t.Fatal(err)
		}
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				mr.Translate("d", "GET", "/a/b", "")
			}()
		}
		wg.Wait()
	}
}
''','two requests translated at the same time by a rule whose method is not in lower case, the first time it is used','the rule is rewritten while another request reads it','race')

SEEDS['c37-plain-swap']=('C37','policy',[(D,'oldRpPtr := (*gache.Gache)(atomic.SwapPointer(curRpPtrPtr, unsafe.Pointer(&rp)))','oldRpPtr := p.rolePolicies\n	p.rolePolicies = &rp')],'''
package policy

import (
	"context"
	"sync"
	"testing"
	"time"

	"github.com/kpango/gache"
)

func TestDemo(t *testing.T) {
	g := gache.New()
	p := &policyd{rolePolicies: &g, purgePeriod: time.Hour}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 200; i++ {
			p.Update(ctx)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 200; i++ {
			p.CheckPolicy(ctx, "d", []string{"r"}, "a", "b")
		}
	}()
	wg.Wait()
}
''','a policy update during a check','the pointer to the policies in force is written without synchronisation while checks read it','race')

SEEDS['c38-effect-buffer']=('C38','policy',[(D,'ech := make(chan roleEffect, len(roles))','ech := make(chan roleEffect, 16)')],'''
package policy

import (
	"context"
	"fmt"
	"runtime"
	"testing"
	"time"

	"github.com/kpango/gache"
)

func TestDemo(t *testing.T) {
	g := gache.New()
	p := &policyd{rolePolicies: &g}
	var roles []string
	for i := 0; i < 100; i++ {
		roles = append(roles, fmt.Sprint("r", i))
		a, err := NewAssertion("a", "d:x", "deny")
		if err != nil {
			t.Fatal(err)
		}
		g.SetWithExpire("d:role."+roles[i], []*Assertion{a}, time.Hour)
	}
	before := runtime.NumGoroutine()
	for i := 0; i < 10; i++ {
		if err := p.CheckPolicy(context.Background(), "d", roles, "a", "x"); err == nil {
			t.Fatal("a denied request is permitted")
		}
	}
	time.Sleep(500 * time.Millisecond)
	if n := runtime.NumGoroutine(); n > before {
		t.Fatalf("%d goroutines are left after the checks", n-before)
	}
}
''','a token with many roles, more than 16 of which have an assertion that matches, one of them denying','the goroutines of a denied check are left behind for ever')

SEEDS['c38-pubkey-context']=('C38','pubkey',[(P,'p.client.Do(req.WithContext(ctx))','p.client.Do(req)')],'''
package pubkey

import (
	"context"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	free := make(chan struct{})
	srv := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		select {
		case <-free:
		case <-r.Context().Done():
		}
	}))
	defer srv.Close()
	defer close(free)
	d, err := New(WithAthenzURL(strings.TrimPrefix(srv.URL, "https://")), WithSysAuthDomain("sys.auth"), WithHTTPClient(srv.Client()))
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan error, 1)
	go func() { done <- d.Update(ctx) }()
	time.Sleep(100 * time.Millisecond)
	cancel()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the update goes on after its context has ended")
	}
}
''','a server that does not answer while the public keys are refreshed, and a cancellation at that time','a cancelled refresh of the public keys does not end')

SEEDS['c39-proxy-claim']=('C39','access',[('access/claim.go','`json:"proxy,omitempty"`','`json:"-"`')],'''
package access

import (
	"encoding/json"
	"testing"
)

func TestDemo(t *testing.T) {
	c := &OAuth2AccessTokenClaim{}
	if err := json.Unmarshal([]byte(`{"sub":"s","proxy":"p"}`), c); err != nil || c.Subject != "s" {
		t.Fatal(err, c.Subject)
	}
	if c.ProxyPrincipal != "p" {
		t.Fatalf("proxy principal %q", c.ProxyPrincipal)
	}
}
''','an access token with a proxy principal','the proxy principal of the token is not reported')

SEEDS['c40-domains-append']=('C40','',[('option.go','authz.athenzDomains = domains','authz.athenzDomains = append(authz.athenzDomains, domains...)')],'''
package authorizerd

import (
	"context"
	"net/http"
	"strings"
	"sync"
	"testing"
)

type dTrip struct {
	mu   sync.Mutex
	urls []string
}

func (d *dTrip) RoundTrip(r *http.Request) (*http.Response, error) {
	d.mu.Lock()
	d.urls = append(d.urls, r.URL.String())
	d.mu.Unlock()
	return nil, http.ErrHandlerTimeout
}

func TestDemo(t *testing.T) {
	d := &dTrip{}
	a, err := New(WithHTTPClient(&http.Client{Transport: d}), WithDisablePubkeyd(), WithDisableJwkd(), WithPolicyRetryDelay("1ms"),
		WithAthenzDomains("preset"), WithAthenzDomains("mine"))
	if err != nil {
		t.Fatal(err)
	}
	a.Init(context.Background())
	for _, u := range d.urls {
		if strings.Contains(u, "preset") {
			t.Fatal("a domain that was configured over is requested")
		}
	}
	if len(d.urls) == 0 {
		t.Fatal("the domain is not requested")
	}
}
''','the policy domains are set twice, as when presets are overridden','the policies of domains that were configured over are still loaded')

SEEDS['c41-kept-report']=('C41','policy',[(D,'type roleEffect struct {','// reports holds the reports by the policies they are of\nvar reports sync.Map\n\ntype roleEffect struct {'),(D,'	rp := *(*gache.Gache)(atomic.LoadPointer(curRpPtrPtr))\n	return rp.ToRawMap(ctx)','	cur := atomic.LoadPointer(curRpPtrPtr)\n	if m, ok := reports.Load(cur); ok {\n		return m.(map[string]interface{})\n	}\n	m := (*(*gache.Gache)(cur)).ToRawMap(ctx)\n	if len(m) != 0 {\n		reports.Store(cur, m)\n	}\n	return m')],'''
package policy

import (
	"context"
	"testing"
	"time"

	"github.com/kpango/gache"
)

func TestDemo(t *testing.T) {
	g := gache.New()
	p := &policyd{rolePolicies: &g}
	a, err := NewAssertion("a", "d:x", "allow")
	if err != nil {
		t.Fatal(err)
	}
	g.SetWithExpire("d:role.r", []*Assertion{a}, 2*time.Second)
	ctx := context.Background()
	if len(p.GetPolicyCache(ctx)) != 1 {
		t.Fatal("the policies are not reported")
	}
	time.Sleep(4 * time.Second)
	if len(p.GetPolicyCache(ctx)) != 0 {
		t.Fatal("expired policies are reported")
	}
}
''','policies that expire between two reports','policies that are no longer in force are reported')

SEEDS['c42-roles-in-place']=('C42','policy',[(D,'allowedRoles := make([]string, 0, len(roles))','allowedRoles := roles[:0]')],'''
package policy

import (
	"context"
	"testing"
	"time"

	"github.com/kpango/gache"
)

func TestDemo(t *testing.T) {
	g := gache.New()
	p := &policyd{rolePolicies: &g}
	a, err := NewAssertion("a", "d:x", "allow")
	if err != nil {
		t.Fatal(err)
	}
	g.SetWithExpire("d:role.writer", []*Assertion{a}, time.Hour)
	roles := []string{"reader", "writer"}
	allowed, err := p.CheckPolicyRoles(context.Background(), "d", roles, "a", "x")
	if err != nil || len(allowed) != 1 || allowed[0] != "writer" {
		t.Fatal(allowed, err)
	}
	if roles[0] != "reader" || roles[1] != "writer" {
		t.Fatalf("the roles of the token have become %v", roles)
	}
}
''','a token with several roles, the first of which is not permitted','the roles reported for the principal are not those of the token')

SEEDS['c20-token-lifetime']=('C20','',[(A,'		a.cache.SetWithExpire(key.String(), p, a.cacheExp)\n','		exp := a.cacheExp\n		if left := time.Until(time.Unix(p.ExpiryTime(), 0)); left > exp {\n			exp = left\n		}\n		a.cache.SetWithExpire(key.String(), p, exp)\n')],'''
package authorizerd

import ('''+ROOTIMP+'''	"errors"
	"time"
)
'''+MOCK+'''
func TestDemo(t *testing.T) {
	z, err := New(WithAthenzDomains("dom"), WithCacheExp(time.Second))
	if err != nil {
		t.Fatal(err)
	}
	a := z.(*authority)
	n := 0
	a.roleProcessor = dRole{func(string) (*role.Token, error) {
		return &role.Token{Domain: "dom", Roles: []string{"r"}, ExpiryTime: time.Now().Add(time.Hour)}, nil
	}}
	a.policyd = dPol{f: func(_ string, roles []string, act, res string) ([]string, error) {
		if n++; n > 1 {
			return nil, errors.New("no longer permitted")
		}
		return roles, nil
	}}
	a.VerifyRoleToken(context.Background(), "tok", "get", "res")
	time.Sleep(3 * time.Second)
	if a.VerifyRoleToken(context.Background(), "tok", "get", "res") == nil {
		t.Fatal("a success is used beyond the expiry of the cache")
	}
}
''','a token that is valid for longer than the cache expiry and a request with it after that expiry','a success is kept until the token expires, whatever the policies say')

SEEDS['c23-path-fold']=('C23','',[(T,'} else if reqPath != rule.splitPaths[i].name {','} else if !strings.EqualFold(reqPath, rule.splitPaths[i].name) {')],'''
package authorizerd

import "testing"

func TestDemo(t *testing.T) {
	m, err := NewMappingRules(map[string][]Rule{"dom": {{Method: "get", Path: "/a/{x}", Action: "read", Resource: "{x}"}}})
	if err != nil {
		t.Fatal(err)
	}
	if act, res, err := m.Translate("dom", "get", "/A/secret", ""); err != nil || act != "get" || res != "/A/secret" {
		t.Fatal(act, res, err)
	}
}
''','a request whose path differs from that of the rule in upper and lower case only','a rule applies to another path than the configured one')

SEEDS['c25-prefix-once']=('C25','',[(A,'		res = a.resourcePrefix + res\n','		if !strings.HasPrefix(res, a.resourcePrefix) {\n			res = a.resourcePrefix + res\n		}\n')],'''
package authorizerd

import ('''+ROOTIMP+'''	"time"
)
'''+MOCK+'''
func TestDemo(t *testing.T) {
	z, err := New(WithAthenzDomains("dom"), WithResourcePrefix("/svc"))
	if err != nil {
		t.Fatal(err)
	}
	a := z.(*authority)
	a.roleProcessor = dRole{func(string) (*role.Token, error) {
		return &role.Token{Domain: "dom", Roles: []string{"r"}, ExpiryTime: time.Now().Add(time.Hour)}, nil
	}}
	seen := ""
	a.policyd = dPol{f: func(_ string, roles []string, act, res string) ([]string, error) { seen = res; return roles, nil }}
	if err := a.VerifyRoleToken(context.Background(), "tok", "get", "/svc/x"); err != nil {
		t.Fatal(err)
	}
	if seen != "/svc/svc/x" {
		t.Fatalf("the policy is checked for %q", seen)
	}
}
''','a resource that itself begins with the configured prefix','another resource than the requested one is checked')

SEEDS['c27-broken-field']=('C27','role',[(RP,'errors.Wrap(err, "error setting value")','errors.Wrapf(err, "error setting value of %+v", *rt)')],'''
package role

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	p, err := New()
	if err != nil {
		t.Fatal(err)
	}
	_, err = p.ParseAndValidateRoleToken("d=dom;e=soon;s=c2lnbmF0dXJl")
	if err == nil || strings.Contains(err.Error(), "c2lnbmF0dXJl") {
		t.Fatalf("the error, which is logged, is %v", err)
	}
}
''','a role token with a time that is not a number','the signature of the token is logged')

SEEDS['c30-unanchored']=('C30','internal/url',[('internal/url/util.go','"^(http|https)://"','"(http|https)://"')],'''
package url

import "testing"

func TestDemo(t *testing.T) {
	for _, u := range []string{"proxy.example/https://athenz.example/zts", "https://proxy.example/http://athenz.example"} {
		want := u
		if u[:8] == "https://" {
			want = u[8:]
		}
		if got := TrimHTTPScheme(u); got != want {
			t.Fatalf("%q has become %q", u, got)
		}
	}
}
''','an Athenz URL with another URL in its path, as with a forwarding proxy','other addresses than the configured one are requested')

SEEDS['c34-child-ends']=('C34','',[(A,'			case err := <-cech:\n				if err != nil {','			case err, ok := <-cech:\n				if !ok {\n					return\n				}\n				if err != nil {')],'''
package authorizerd

import (
	"context"
	"net/http"
	"testing"
)

type dTrip struct{}

func (dTrip) RoundTrip(*http.Request) (*http.Response, error) { return nil, http.ErrHandlerTimeout }

type dKeys struct{}

func (dKeys) keys() {}

func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		a, err := New(WithHTTPClient(&http.Client{Transport: dTrip{}}), WithAthenzDomains("dom"))
		if err != nil {
			t.Fatal(err)
		}
		ctx, cancel := context.WithCancel(context.Background())
		ech := a.Start(ctx)
		cancel()
		last := error(nil)
		for err := range ech {
			last = err
		}
		if last != context.Canceled {
			t.Fatalf("the cancellation is not reported, last %v", last)
		}
	}
}
''','a cancellation at which the public-key refresher ends before the authorizer notices it','the cancellation is not reported and the success cache is not cleared')

SEEDS['c02-full-names']=('C02','policy',[(D,'			dr := fmt.Sprintf("%s:role.%s", domain, role)\n','			dr := role\n			if !strings.Contains(role, ":role.") {\n				dr = fmt.Sprintf("%s:role.%s", domain, role)\n			}\n')],'''
package policy

import (
	"context"
	"testing"
	"time"

	"github.com/kpango/gache"
)

func TestDemo(t *testing.T) {
	g := gache.New()
	p := &policyd{rolePolicies: &g}
	a, err := NewAssertion("a", "d:x", "allow")
	if err != nil {
		t.Fatal(err)
	}
	g.SetWithExpire("d:role.reader", []*Assertion{a}, time.Hour)
	g.SetWithExpire("other:role.admin", []*Assertion{a}, time.Hour)
	rs, err := p.CheckPolicyRoles(context.Background(), "d", []string{"reader", "other:role.admin"}, "a", "x")
	if err != nil || len(rs) != 1 || rs[0] != "reader" {
		t.Fatalf("authorized as %v %v", rs, err)
	}
}
''','a presented role whose name looks like the full name of a role of another domain','a role of another domain is authorized')

SEEDS['c05-fallback-grace']=('C05','policy',[(D,'''			return errors.Wrap(err, errMsg)
		}
	}

	glg.DebugFunc(''','''			return errors.Wrap(err, errMsg)
		}
		// the cached policy has to last until it can be fetched again
		if grace := fastime.Now().Add(time.Minute); sp.SignedPolicyData.Expires.Time.Before(grace) {
			sp.SignedPolicyData.Expires.Time = grace
		}
	}

	glg.DebugFunc(''')],'''
package policy

import (
	"context"
	"errors"
	"testing"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/ardielle/ardielle-go/rdl"
	"github.com/kpango/gache"
)
'''+POLSP+'''
type dFetch struct {
	sp  *SignedPolicy
	err error
}

func (f *dFetch) Domain() string                                              { return "dom" }
func (f *dFetch) Fetch(context.Context) (*SignedPolicy, error)                { return f.sp, f.err }
func (f *dFetch) FetchWithRetry(context.Context) (*SignedPolicy, error)       { return f.sp, f.err }

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	g := gache.New()
	f := &dFetch{sp: sp(time.Now().Add(3*time.Second), &util.Policy{Assertions: []*util.Assertion{
		{Role: "dom:role.r", Action: "get", Resource: "dom:res", Effect: "ALLOW"},
	}})}
	p := &policyd{rolePolicies: &g, purgePeriod: time.Hour, fetchers: map[string]Fetcher{"dom": f}}
	if err := p.Update(ctx); err != nil {
		t.Fatal(err)
	}
	f.err = errors.New("the server does not answer")
	if err := p.Update(ctx); err != nil {
		t.Fatal(err)
	}
	if err := p.CheckPolicy(ctx, "dom", []string{"r"}, "get", "res"); err != nil {
		t.Fatal("the policy is not in force yet")
	}
	time.Sleep(5 * time.Second)
	if err := p.CheckPolicy(ctx, "dom", []string{"r"}, "get", "res"); err == nil {
		t.Fatal("an expired policy is in force")
	}
}
''','a refresh that falls back on the cached policy less than a minute before that expires','the policy is enforced after its expiry')

SEEDS['c08-same-error']=('C08','policy',[(F,'''		lastErr = err
		time.Sleep(f.retryDelay)
''','''		if i > 0 && lastErr.Error() == err.Error() && i+1 < f.retryAttempts {
			// the failure is not a temporary one
			lastErr = err
			break
		}
		lastErr = err
		time.Sleep(f.retryDelay)
''')],'''
package policy

import (
	"context"
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/ardielle/ardielle-go/rdl"
)
'''+POLSP+'''
func TestDemo(t *testing.T) {
	n := 0
	srv := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		n++
		if n < 4 {
			w.WriteHeader(http.StatusServiceUnavailable)
			return
		}
		json.NewEncoder(w).Encode(sp(time.Now().Add(time.Hour), &util.Policy{}))
	}))
	defer srv.Close()
	f := &fetcher{domain: "dom", athenzURL: strings.TrimPrefix(srv.URL, "https://"), client: srv.Client(), retryAttempts: 4,
		spVerifier: func(*SignedPolicy) error { return nil }}
	got, err := f.FetchWithRetry(context.Background())
	if err != nil || got == nil {
		t.Fatalf("the policy was not fetched in %d attempts: %v", n, err)
	}
}
''','a server that fails the same way three times before it answers, with three or more retries configured','the configured attempts are not made and an answer that would be had is missed')

SEEDS['c15-pair-memo']=('C15','access',[(AP,'''	clientIDs := a.authorizedClientIDs[cn]

''','''	clientIDs := a.authorizedClientIDs[cn]

	// do not search again for what has been found
	pair := fmt.Sprintf("%p/%s/%s", a, cn, clientID)
	if _, ok := authorizedPairs.Load(pair); ok {
		return nil
	}
'''),(AP,'''		if v == clientID {
			return nil''','''		if v == clientID {
			authorizedPairs.Store(pair, struct{}{})
			return nil'''),(AP,'type atp struct {','// authorizedPairs are the pairs found by each processor\nvar authorizedPairs sync.Map\n\ntype atp struct {'),(AP,'	"encoding/base64"\n','	"encoding/base64"\n	"fmt"\n	"sync"\n')],'''
package access

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"testing"
)

func TestDemo(t *testing.T) {
	a := &atp{authorizedClientIDs: map[string][]string{"svc": {"a/b"}, "svc/a": {"c"}}}
	cert := func(cn string) *x509.Certificate { return &x509.Certificate{Subject: pkix.Name{CommonName: cn}} }
	if err := a.validateClientID(cert("svc"), &OAuth2AccessTokenClaim{ClientID: "a/b"}); err != nil {
		t.Fatal(err)
	}
	if err := a.validateClientID(cert("svc/a"), &OAuth2AccessTokenClaim{ClientID: "b"}); err == nil {
		t.Fatal("a client id that is not configured for the certificate was accepted")
	}
}
''','two tokens, the certificate name and client id of which are the same text when joined','a client id is accepted that is not configured for the certificate')

SEEDS['c31-keys-optional']=('C31','',[(A,'''				err := a.pubkeyd.Update(egCtx)
				if err != nil {
					return err
				}
''','''				err := a.pubkeyd.Update(egCtx)
				if err != nil {
					if a.disablePolicyd && !a.disableJwkd {
						// access tokens can be verified without public keys
						glg.Warnf("update pubkey error: %v", err)
						return nil
					}
					return err
				}
''')],'''
package authorizerd

import (
	"context"
	"errors"
	"testing"

	"github.com/yahoojapan/athenz-authorizer/v5/jwk"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

type dPub struct{ pubkey.Daemon }

func (dPub) Update(context.Context) error { return errors.New("no keys") }

type dJwk struct{ jwk.Daemon }

func (dJwk) Update(context.Context) error { return nil }

func TestDemo(t *testing.T) {
	a := &authority{disablePolicyd: true, pubkeyd: dPub{}, jwkd: dJwk{}}
	if err := a.Init(context.Background()); err == nil {
		t.Fatal("the initialization succeeded without public keys")
	}
}
''','policies disabled, JWKs enabled and a failing public-key update','the initialization reports success without public keys')

SEEDS['c36-domain-case']=('C36','',[(A,'		authorizedRoles, err := a.policyd.CheckPolicyRoles(ctx, domain, roles, act, res)\n','		// domain names are in lower case\n		authorizedRoles, err := a.policyd.CheckPolicyRoles(ctx, strings.ToLower(domain), roles, act, res)\n')],'''
package authorizerd

import ('''+ROOTIMP+'''	"errors"
	"time"

	"github.com/kpango/gache"
)
'''+MOCK+'''
func TestDemo(t *testing.T) {
	a := &authority{cache: gache.New(), cacheExp: time.Minute,
		roleProcessor: dRole{func(string) (*role.Token, error) { return &role.Token{Domain: "DOM", Roles: []string{"r"}}, nil }},
		policyd: dPol{f: func(domain string, roles []string, act, res string) ([]string, error) {
			if domain != "dom" {
				return nil, errors.New("no such domain")
			}
			return roles, nil
		}},
	}
	if _, err := a.AuthorizeRoleToken(context.Background(), "t", "a", "x"); err == nil {
		t.Fatal("the token is for another domain than the policies")
	}
}
''','a token whose domain differs from a configured one only in case','the token is authorized by the policies of a domain it does not name')

SEEDS['c11-hex-expiry']=('C11','role',[(RT,'i, err := strconv.ParseInt(value, 10, 64)\n		if err != nil {\n			return errors.Wrap(err, "invalid expiry time")','i, err := strconv.ParseInt(value, 0, 64)\n		if err != nil {\n			return errors.Wrap(err, "invalid expiry time")')],'''
package role

import (
	"testing"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

type ver func(in, sig string) error

func (v ver) Verify(in, sig string) error { return v(in, sig) }

func TestDemo(t *testing.T) {
	r := &rtp{pkp: func(pubkey.AthenzEnv, string) authcore.Verifier {
		return ver(func(string, string) error { return nil })
	}}
	if _, err := r.ParseAndValidateRoleToken("d=dom;r=admin;p=user.x;e=0xee6b2800;k=0;s=sig"); err == nil {
		t.Fatal("a token whose expiry is not a decimal number was accepted")
	}
}
''','an expiry written with a base prefix, a leading zero or underscores','a role token with a malformed expiry is accepted, and one with a leading zero gets another expiry')

SEEDS['c14-name-suffix']=('C14','access',[(AP,'	if cn != clientID {','	// the certificate of a host is named <host>.<service>\n	if !strings.HasSuffix(cn, clientID) {'),(AP,'	"encoding/base64"\n','	"encoding/base64"\n	"strings"\n')],'''
package access

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	a := &atp{enableMTLSCertificateBoundAccessToken: true, clientCertificateOffsetSeconds: 3600}
	c := &OAuth2AccessTokenClaim{ClientID: "dom.api", Confirm: map[string]interface{}{confirmMethodCertThumbprint: "other"}}
	c.IssuedAt = 1000
	cert := &x509.Certificate{Subject: pkix.Name{CommonName: "evildom.api"}, NotBefore: time.Unix(1000, 0)}
	if err := a.validateCertificateBoundAccessToken(cert, c); err == nil {
		t.Fatal("the certificate of another principal was accepted")
	}
}
''','a rotated certificate whose common name ends with the client id of the token','a token bound to the certificate of one principal is accepted with the certificate of another')

SEEDS['c16-jku-number']=('C16','access',[(AP,'	if err == errHeaderValueNotString || err == errNilHeader {\n','	if err == errNilHeader {\n')],'''
package access

import (
	"testing"

	"github.com/golang-jwt/jwt/v4"
)

func TestDemo(t *testing.T) {
	a := &atp{jwkp: func(kid, url string) interface{} { return "key of " + url }}
	if _, err := a.keyFunc(&jwt.Token{Header: map[string]interface{}{"kid": "1", "jku": []interface{}{"https://evil"}}}); err == nil {
		t.Fatal("a token whose jku is not a text was given a key")
	}
}
''','a token whose jku header is not a text','the token is verified with the Athenz keys instead of being rejected')

SEEDS['c32-empty-answer']=('C32','policy',[(F,'	defer func() {\n		if err := flushAndClose(res.Body)','	if res.ContentLength == 0 {\n		// nothing to read\n		res.Body = http.NoBody\n	}\n	defer func() {\n		if err := flushAndClose(res.Body)')],'''
package policy

import (
	"context"
	"net/http"
	"strings"
	"testing"
)

type body struct {
	*strings.Reader
	closed int
}

func (b *body) Close() error { b.closed++; return nil }

type rt struct{ b *body }

func (r rt) RoundTrip(q *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 503, Body: r.b, Request: q, Header: http.Header{}}, nil
}

func TestDemo(t *testing.T) {
	b := &body{Reader: strings.NewReader("")}
	f := &fetcher{domain: "dom", athenzURL: "athenz", client: &http.Client{Transport: rt{b}}}
	f.Fetch(context.Background())
	if b.closed == 0 {
		t.Fatal("the body of the response was not closed")
	}
}
''','an answer that tells a length of 0','the body of the answer is never closed')

SEEDS['c34-timeout-lost']=('C34','',[(A,'			case err := <-pech:\n				if err != nil {','			case err := <-pech:\n				if err != nil && errors.Cause(err) != context.DeadlineExceeded {')],'''
package authorizerd

import (
	"context"
	"testing"
	"time"

	"github.com/kpango/gache"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
)

type dPol struct {
	policy.Daemon
	ch chan error
}

func (d dPol) Start(context.Context) <-chan error { return d.ch }

func TestDemo(t *testing.T) {
	d := dPol{ch: make(chan error, 1)}
	d.ch <- context.DeadlineExceeded
	a := &authority{cache: gache.New(), cacheExp: time.Minute, disablePubkeyd: true, disableJwkd: true, policyd: d}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	select {
	case <-a.Start(ctx):
	case <-time.After(3 * time.Second):
		t.Fatal("the failure of the policy refresh was not reported")
	}
}
''','a policy refresh that fails because a request timed out','the failure does not reach the error stream of the authorizer')

SEEDS['c03-any-domain']=('C03','policy',[(D,'							if strings.EqualFold(ass.ResourceDomain, domain) &&','							if (ass.ResourceDomain == "*" || strings.EqualFold(ass.ResourceDomain, domain)) &&')],'''
package policy

import (
	"context"
	"testing"
	"time"

	"github.com/kpango/gache"
)

func TestDemo(t *testing.T) {
	a, err := NewAssertion("read", "*:data", "ALLOW")
	if err != nil {
		t.Fatal(err)
	}
	g := gache.New().SetDefaultExpire(time.Hour)
	g.Set("dom:role.r", []*Assertion{a})
	p := &policyd{rolePolicies: &g}
	if err := p.CheckPolicy(context.Background(), "dom", []string{"r"}, "read", "data"); err == nil {
		t.Fatal("an assertion for the domain * applied to the domain dom")
	}
}
''','an assertion whose resource has * as its domain','the assertion applies to every domain')

SEEDS['c42-client-timeout']=('C42','',[('option.go','		authz.client = c\n		return nil','		if c.Timeout == 0 {\n			c.Timeout = defaultHTTPClientTimeout * time.Second\n		}\n		authz.client = c\n		return nil')],'''
package authorizerd

import (
	"net/http"
	"testing"
)

func TestDemo(t *testing.T) {
	c := &http.Client{}
	if err := WithHTTPClient(c)(&authority{}); err != nil {
		t.Fatal(err)
	}
	if c.Timeout != 0 {
		t.Fatal("the client of the caller was changed")
	}
}
''','a client without a timeout that the caller also uses for something else','every request of the client gets a timeout')

SEEDS['c17-key-union']=('C17','jwk',[(J,'''		j.keys.Store(target, keys)
''','''		if old, ok := j.keys.Load(target); ok {
			// keys in use do not vanish from one update to the next
			for i := 0; i < old.(jwk.Set).Len(); i++ {
				k, _ := old.(jwk.Set).Get(i)
				if _, ok := keys.LookupKeyID(k.KeyID()); !ok {
					keys.Add(k)
				}
			}
		}
		j.keys.Store(target, keys)
''')],'''
package jwk

import (
	"context"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	key := `{"kty":"oct","kid":"%","k":"AyM1SysPpbyDfgZld3umj1qzKObwVMkoqQ-EstJQLr_T-1qS0gZH75aKtMN3Yj0iPS4hcgUuTwjAzZr1Z9CAow"}`
	kid := "1"
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(`{"keys":[` + key[:20] + kid + key[21:] + `]}`))
	}))
	defer srv.Close()
	if key[20] != '%' {
		t.Fatal("demo")
	}
	j := &jwkd{athenzJwksURL: srv.URL, client: srv.Client(), keys: &sync.Map{}}
	if err := j.Update(context.Background()); err != nil || j.getKey("1", "") == nil {
		t.Fatal("first update", err)
	}
	kid = "2"
	if err := j.Update(context.Background()); err != nil || j.getKey("2", "") == nil {
		t.Fatal("second update", err)
	}
	if j.getKey("1", "") != nil {
		t.Fatal("a withdrawn key is still used")
	}
}
''','an update in which the server replaces a key by one of another ID','withdrawn keys stay valid forever')

SEEDS['c20-roles-expiry']=('C20','',[(A,'		a.cache.SetWithExpire(key.String(), p, a.cacheExp)\n','''		exp := a.cacheExp
		if len(p.AuthorizedRoles()) > 1 {
			// such a check is expensive
			exp *= 2
		}
		a.cache.SetWithExpire(key.String(), p, exp)
''')],'''
package authorizerd

import ('''+ROOTIMP+'''	"time"
)
'''+MOCK+'''
func TestDemo(t *testing.T) {
	z, err := New(WithAthenzDomains("dom"), WithCacheExp(time.Second))
	if err != nil {
		t.Fatal(err)
	}
	a := z.(*authority)
	n := 0
	a.roleProcessor = dRole{func(string) (*role.Token, error) {
		n++
		return &role.Token{Domain: "dom", Roles: []string{"a", "b"}, ExpiryTime: time.Now().Add(time.Hour)}, nil
	}}
	a.policyd = dPol{f: func(_ string, roles []string, act, res string) ([]string, error) { return roles, nil }}
	ctx := context.Background()
	if _, err := a.AuthorizeRoleToken(ctx, "tok", "act", "res"); err != nil || n != 1 {
		t.Fatal(err, n)
	}
	time.Sleep(1500 * time.Millisecond)
	if _, err := a.AuthorizeRoleToken(ctx, "tok", "act", "res"); err != nil || n != 2 {
		t.Fatal("served from the cache beyond the cache expiry", err, n)
	}
}
''','a token with several authorized roles, used again after the cache expiry','a result is served from the cache longer than configured')

SEEDS['c21-expired-stops']=('C21','',[(A,'''		verified, err := verifier(r, act, res)
		if err == nil {
			return verified, nil
		}
''','''		verified, err := verifier(r, act, res)
		if err == nil {
			return verified, nil
		}
		if strings.Contains(err.Error(), "expired") {
			// the caller has to renew the credential
			break
		}
''')],'''
package authorizerd

import ('''+ROOTIMP+'''	"errors"
	"net/http"
	"time"
)
'''+MOCK+'''
func TestDemo(t *testing.T) {
	z, err := New(WithAthenzDomains("dom"), WithAccessTokenParam(NewAccessTokenParam(true, false, "", "", false, nil)))
	if err != nil {
		t.Fatal(err)
	}
	a := z.(*authority)
	a.accessProcessor = dAcc{func(string, *x509.Certificate) (*access.OAuth2AccessTokenClaim, error) {
		return nil, errors.New("token is expired by 1s")
	}}
	a.roleProcessor = dRole{func(string) (*role.Token, error) {
		return &role.Token{Domain: "dom", Roles: []string{"allowed"}, ExpiryTime: time.Now().Add(time.Hour)}, nil
	}}
	a.policyd = dPol{f: func(_ string, roles []string, act, res string) ([]string, error) { return roles, nil }}
	r, _ := http.NewRequest("GET", "http://h/a", nil)
	r.Header.Set("Authorization", "Bearer x")
	r.Header.Set("Athenz-Role-Auth", "tok")
	if _, err := a.Authorize(r, "get", "res"); err != nil {
		t.Fatalf("the role token authorizes the request: %v", err)
	}
}
''','a request with an expired access token and a valid role token','the valid credential is not looked at')

SEEDS['c22-query-empty']=('C22','',[(A,'if act == "" || res == "" {','if (act == "" || res == "") && (a.translator == nil || query == "") {')],'''
package authorizerd

import ('''+ROOTIMP+'''	"net/http"
	"time"
)
'''+MOCK+'''
type same struct{}

func (same) Translate(domain, method, path, query string) (string, string, error) {
	return method, path, nil
}

func TestDemo(t *testing.T) {
	z, err := New(WithAthenzDomains("dom"), WithTranslator(same{}))
	if err != nil {
		t.Fatal(err)
	}
	a := z.(*authority)
	a.roleProcessor = dRole{func(string) (*role.Token, error) {
		return &role.Token{Domain: "dom", Roles: []string{"r"}, ExpiryTime: time.Now().Add(time.Hour)}, nil
	}}
	a.policyd = dPol{f: func(_ string, roles []string, act, res string) ([]string, error) { return roles, nil }}
	r, _ := http.NewRequest("GET", "http://h/a?x=1", nil)
	r.Header.Set("Athenz-Role-Auth", "tok")
	if _, err := a.Authorize(r, "", "res"); err == nil {
		t.Fatal("an empty action was authorized")
	}
}
''','a request with a query and an empty action, with a translator configured','the request is authorized for the empty action')

SEEDS['c28-gives-up']=('C28','pubkey',[(P,'	ech := make(chan error, 100)\n','	ech := make(chan error, 100)\n	fails := 0\n'),(P,'				if err := p.Update(ctx); err != nil {\n					ech <- errors.Wrap(err, "error update pubkey")\n\n					time.Sleep','				if err := p.Update(ctx); err != nil {\n					ech <- errors.Wrap(err, "error update pubkey")\n					if fails++; fails > 4 {\n						// leave it to the next period\n						fails = 0\n						continue\n					}\n\n					time.Sleep')],'''
package pubkey

import (
	"context"
	"net/http"
	"net/http/httptest"
	"sync/atomic"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	var n int32
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		atomic.AddInt32(&n, 1)
		w.WriteHeader(503)
	}))
	defer srv.Close()
	d, err := New(WithAthenzURL(srv.URL), WithSysAuthDomain("d"), WithRefreshPeriod("3s"), WithRetryDelay("20ms"), WithHTTPClient(srv.Client()))
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ech := d.Start(ctx)
	fails := 0
	for end := time.After(5 * time.Second); ; {
		select {
		case <-ech:
			fails++
			if fails > 12 {
				return
			}
			continue
		case <-end:
		}
		break
	}
	t.Fatalf("only %d attempts were made in the first two seconds after the tick", fails)
}
''','a run of six and more failed updates','the keys are not fetched again until the next period, hours later')

SEEDS['c33-purge-floor']=('C33','policy',[('policy/option.go','		pol.purgePeriod = pp\n','		if pp > 0 && pp < time.Minute {\n			// do not look at the whole cache all the time\n			pp = time.Minute\n		}\n		pol.purgePeriod = pp\n')],'''
package policy

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	d, err := New(WithPurgePeriod("30s"))
	if err != nil {
		t.Fatal(err)
	}
	if p := d.(*policyd).purgePeriod; p != 30*time.Second {
		t.Fatal("the purge period is", p)
	}
}
''','a policy purge period of less than a minute','an expired policy is noticed later than configured')

SEEDS['c40-no-domains']=('C40','',[('option.go','		authz.athenzDomains = domains\n','		if len(domains) > 0 {\n			authz.athenzDomains = domains\n		}\n')],'''
package authorizerd

import "testing"

func TestDemo(t *testing.T) {
	z, err := New(WithAthenzDomains("a", "b"), WithAthenzDomains())
	if err != nil {
		t.Fatal(err)
	}
	if d := z.(*authority).athenzDomains; len(d) != 0 {
		t.Fatal("an earlier setting is in force:", d)
	}
}
''','the domains set a second time, to none','the earlier setting stays in force')
