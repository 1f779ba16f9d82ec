package authorizerd

//vf:use net

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// vfSeen is what a principal says.
type vfSeen struct {
	name, domain, client string
	roles, authorized    string
	issued, expires      int64
}

func vfLook(p Principal) vfSeen {
	s := vfSeen{p.Name(), p.Domain(), "", strings.Join(p.Roles(), ","), strings.Join(p.AuthorizedRoles(), ","), p.IssueTime(), p.ExpiryTime()}
	if c, ok := p.(OAuthAccessToken); ok {
		s.client = c.ClientID()
	}
	return s
}

// vfSite serves one domain with its keys.
func vfSite(host, domain, roleName string, key int, life time.Duration) *vfNet {
	begin := time.Now()
	return vfNewNet(func(r vfRequest) (int, string, string, error) {
		switch {
		case !strings.HasPrefix(r.url, "https://"+host+"/"):
			return 404, "", "", nil
		case strings.Contains(r.url, "/service/"):
			return 200, "e", `{"name":"sys.auth.zts","publicKeys":[{"key":"` + vf.YB64(vf.PubPEM(0)) + `","id":"0"},{"key":"` + vf.YB64(vf.PubPEM(key)) + `","id":"t"}]}`, nil
		case strings.Contains(r.url, "/oauth2/keys"):
			return 200, "", `{"keys":[` + vf.JWK("t", key) + `]}`, nil
		}
		return 200, "e", vfPolicyDoc(domain, roleName, begin.Add(life)), nil
	})
}

func vfRoleTok(domain, roles, prin string, exp int64, key int) string {
	head := fmt.Sprintf("d=%s;r=%s;p=%s;e=%d;t=7;k=t", domain, roles, prin, exp)
	return head + ";s=" + vf.ZMSSign(head, key)
}

func vfAccessTok(domain, roles, prin string, exp int64, key int) string {
	return vf.JWT(`{"alg":"RS256","kid":"t"}`, fmt.Sprintf(`{"sub":"%s","aud":"%s","scp":["%s"],"exp":%d,"iat":7,"client_id":"%s-id"}`,
		prin, domain, strings.ReplaceAll(roles, ",", `","`), exp, prin), "RS256", key)
}

// Principals handed out stay as they are, whatever is authorized or refreshed afterwards.
func VF_C42_Principals() {
	net := vfSite("athenz.io/zts/v1", "dom", "a", 1, 10*time.Hour)
	opts := []Option{WithHTTPClient(net.client()), WithAthenzDomains("dom"), WithDisableRoleCert(), WithAccessTokenParam(NewAccessTokenParam(true, false, "", "", false, nil))}
	if vf.Choice("cache", 2) == 1 {
		opts = append(opts, WithCacheExp(0))
	}
	a, err := New(opts...)
	vf.Assert(err == nil, "the authorizer can be constructed")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	vf.Assert(a.Init(ctx) == nil, "the authorizer initializes")
	exp := time.Now().Add(9 * time.Hour).Unix()
	name := vf.StrOf("principal", "ab.", 0, 1)
	extra := vf.StrOf("role", "bcd", 1, vf.Q(1, 2))
	use := func(k int) Principal {
		var p Principal
		var err error
		switch k {
		case 0:
			p, err = a.AuthorizeRoleToken(ctx, vfRoleTok("dom", "a", name, exp, 1), "act", "res")
		case 1:
			p, err = a.AuthorizeRoleToken(ctx, vfRoleTok("dom", extra+",a,b", "two", exp+1, 1), "act", "res")
		case 2:
			p, err = a.AuthorizeAccessToken(ctx, vfAccessTok("dom", "a", "three", exp+2, 1), "act", "res", nil)
		case 3:
			p, err = a.AuthorizeAccessToken(ctx, vfAccessTok("dom", "b,a,c,d", "four", exp+3, 1), "act", "res", nil)
		case 4:
			p, err = a.AuthorizeRoleToken(ctx, vfRoleTok("dom", "b", "five", exp, 1), "act", "res")
			vf.Assert(err != nil, "the request is refused")
			return nil
		}
		vf.Assert(err == nil && p != nil, "the request is authorized")
		return p
	}
	k := vf.Choice("first", 4)
	p := use(k)
	first := vfLook(p)
	want := []vfSeen{{name, "dom", "", "a", "a", 7, exp}, {"two", "dom", "", extra + ",a,b", "a", 7, exp + 1}, {"three", "dom", "three-id", "a", "a", 7, exp + 2}, {"four", "dom", "four-id", "b,a,c,d", "a", 7, exp + 3}}
	vf.Assert(first == want[k], "the principal is the token's")
	for i := 0; i < vf.Q(2, 3); i++ {
		switch vf.Choice("then", 4) {
		case 0:
			vf.Assert(a.Init(ctx) == nil, "the authorizer initializes again")
		case 1:
			time.Sleep(2 * time.Minute)
		}
		j := vf.Choice("next", 5)
		if q := use(j); q != nil {
			vf.Assert(vfLook(q) == want[j], "the principal is the token's")
		}
		vf.Assert(vfLook(p) == first, "a principal stays as it was handed out")
	}
	vf.Cover("done")
}

// Authorizing a request does not change the request, whatever it carries.
func VF_C42_Request() {
	net := vfSite("athenz.io/zts/v1", "dom", "a", 1, 10*time.Hour)
	a, err := New(WithHTTPClient(net.client()), WithAthenzDomains("dom"), WithRoleAuthHeader("X-Tok"))
	vf.Assert(err == nil, "the authorizer can be constructed")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	vf.Assert(a.Init(ctx) == nil, "the authorizer initializes")
	exp := time.Now().Add(time.Hour).Unix()
	r, err := http.NewRequest("GET", "https://host/p/q?b=1&a=2&b=3", nil)
	vf.Assert(err == nil, "the request is well-formed")
	role, auth := "", ""
	switch vf.Choice("role token", 3) {
	case 1:
		role = vfRoleTok("dom", []string{"a", "b"}[vf.Choice("role", 2)], "one", exp, 1)
	case 2:
		role = vf.StrOf("text", "d=;r ", 0, 2)
	}
	switch vf.Choice("access token", 3) {
	case 1:
		auth = "Bearer " + vfAccessTok("dom", []string{"a", "b"}[vf.Choice("scope", 2)], "two", exp, 1)
	case 2:
		auth = vf.StrOf("bearer", "Bb. ", 0, 2)
	}
	if role != "" {
		r.Header.Set("X-Tok", role)
	}
	if auth != "" {
		r.Header.Set("Authorization", auth)
	}
	r.Header["X-Many"] = []string{"1", "2"}
	u, err := url.Parse("athenz://role/dom/a")
	vf.Assert(err == nil, "the URI is well-formed")
	cert := &x509.Certificate{Raw: []byte("raw"), Subject: pkix.Name{CommonName: "dom:role.a"}, Issuer: pkix.Name{CommonName: "ca"}, URIs: []*url.URL{u}}
	certs := []*x509.Certificate{cert, nil}[:1]
	if vf.Choice("certificate", 2) == 1 {
		r.TLS = &tls.ConnectionState{PeerCertificates: certs}
	}
	headers := len(r.Header)
	a.Authorize(r, "act", "res")
	a.Verify(r, "act", "res")
	a.VerifyRoleCert(ctx, certs, "act", "res")
	vf.Assert(r.Header.Get("X-Tok") == role && r.Header.Get("Authorization") == auth && len(r.Header) == headers, "the headers stay as they were")
	vf.Assert(len(r.Header["X-Many"]) == 2 && r.Header["X-Many"][0] == "1" && r.Header["X-Many"][1] == "2", "the headers stay as they were")
	vf.Assert(r.URL.String() == "https://host/p/q?b=1&a=2&b=3" && r.Method == "GET" && r.Host == "host", "the request line stays as it was")
	vf.Assert(len(certs) == 1 && certs[0] == cert && certs[:2][1] == nil && cert.Subject.CommonName == "dom:role.a" && cert.Issuer.CommonName == "ca" &&
		string(cert.Raw) == "raw" && len(cert.URIs) == 1 && cert.URIs[0] == u && u.String() == "athenz://role/dom/a", "the certificates stay as they were")
	vf.Cover("done")
}

// Two authorizers in one process decide as if each were alone.
func VF_C42_Instances() {
	one := vfSite("one/zts", "dom", "a", 1, 10*time.Hour)
	two := vfSite("two/zts", "dom", "b", 2, 20*time.Hour)
	mk := func(net *vfNet, host, header, prefix string, roleToken bool, exp time.Duration) Authorizerd {
		opts := make([]Option, 0, 20)
		opts = append(opts, WithAthenzURL(host), WithHTTPClient(net.client()), WithAthenzDomains("dom"), WithDisableRoleCert(),
			WithRoleAuthHeader(header), WithResourcePrefix(prefix), WithCacheExp(exp))
		if !roleToken {
			opts = append(opts, WithDisableRoleToken())
		}
		opts = append(opts, WithAccessTokenParam(NewAccessTokenParam(true, false, "", "", false, nil)))
		a, err := New(opts...)
		vf.Assert(err == nil, "the authorizer can be constructed")
		return a
	}
	plain := vf.Choice("role tokens", 2) == 1
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var a, b Authorizerd
	if vf.Choice("order", 2) == 0 {
		a, b = mk(one, "one/zts", "X-One", "", true, time.Minute), mk(two, "two/zts", "X-Two", "r", plain, time.Hour)
	} else {
		b, a = mk(two, "two/zts", "X-Two", "r", plain, time.Hour), mk(one, "one/zts", "X-One", "", true, time.Minute)
	}
	exp := time.Now().Add(9 * time.Hour).Unix()
	loaded := [2]bool{}
	for i := 0; i < vf.Q(2, 3); i++ {
		switch vf.Choice("init", 3) {
		case 1:
			vf.Assert(a.Init(ctx) == nil, "the authorizer initializes")
			loaded[0] = true
		case 2:
			vf.Assert(b.Init(ctx) == nil, "the authorizer initializes")
			loaded[1] = true
		}
		roleName := vf.StrOf("role", "abc", 1, 1)
		key := 1 + vf.Choice("key", 2)
		res := []string{"res", "es"}[vf.Choice("resource", 2)]
		act := "ac" + vf.StrOf("action", "tTs", 1, 1)
		acted := vf.Or(act == "act", act == "acT")
		n := 0
		for _, header := range []string{"X-One", "X-Two", "Authorization"} {
			r, err := http.NewRequest("GET", "https://host/", nil)
			vf.Assert(err == nil, "the request is well-formed")
			if header == "Authorization" {
				r.Header.Set(header, "Bearer "+vfAccessTok("dom", roleName, "p", exp, key))
			} else {
				r.Header.Set(header, vfRoleTok("dom", roleName, "p", exp, key))
			}
			wantA := loaded[0] && key == 1 && res == "res" && header != "X-Two" && vf.And(acted, roleName == "a")
			wantB := loaded[1] && key == 2 && res == "es" && (header == "Authorization" || header == "X-Two" && plain) && vf.And(acted, roleName == "b")
			vf.Assert((a.Verify(r, act, res) == nil) == wantA, "the first authorizer decides by its own settings, keys and policies")
			vf.Assert((b.Verify(r, act, res) == nil) == wantB, "the second authorizer decides by its own settings, keys and policies")
			if wantA || wantB {
				n++
			}
		}
		if n > 0 {
			vf.Cover("authorized")
		}
	}
	for _, r := range one.reqs {
		vf.Assert(strings.HasPrefix(r.url, "https://one/zts/"), "the first authorizer asks its own server")
	}
	for _, r := range two.reqs {
		vf.Assert(strings.HasPrefix(r.url, "https://two/zts/"), "the second authorizer asks its own server")
	}
	vf.Cover("done")
}

// What an authorizer is configured with is not changed by it, and can be used for another one.
func VF_C42_Settings() {
	net := vfSite("athenz.io/zts/v1", "dom", "a", 1, 10*time.Hour)
	timeout := []time.Duration{7 * time.Second, 0}[vf.Choice("timeout", 2)]
	c := &http.Client{Transport: net, Timeout: timeout}
	urls := []string{"https://k1/", "https://k2/", "spare"}
	domains := []string{"dom", "spare"}
	ids := map[string][]string{"cn": {"x", "y"}}
	opts := make([]Option, 0, 12)
	opts = append(opts, WithHTTPClient(c), WithAthenzDomains(domains[:1]...), WithJwkURLs(urls[:2]),
		WithAccessTokenParam(NewAccessTokenParam(true, true, "1h", "1h", true, ids)))
	rules := map[string][]Rule{"dom": {{Method: "GET", Path: "/a/{b}", Action: "act", Resource: "{b}"}}}
	m, err := NewMappingRules(rules)
	vf.Assert(err == nil, "the rules are valid")
	opts = append(opts, WithTranslator(m))
	spare := opts[:cap(opts)]
	n := 1 + vf.Choice("authorizers", 2)
	exp := time.Now().Add(time.Hour).Unix()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for i := 0; i < n; i++ {
		a, err := New(opts...)
		vf.Assert(err == nil, "the authorizer can be constructed")
		vf.Assert((a.Init(ctx) == nil) == false, "the additional keys cannot be fetched")
		a.AuthorizeRoleToken(ctx, vfRoleTok("dom", "a", "p", exp, 1), "GET", "/a/res")
		a.AuthorizeAccessToken(ctx, vfAccessTok("dom", "a", "p", exp, 1), "GET", "/a/res", &x509.Certificate{Subject: pkix.Name{CommonName: "cn"}})
		for j := len(opts); j < len(spare); j++ {
			vf.Assert(spare[j] == nil, "the options stay as they were")
		}
		vf.Assert(c.Timeout == timeout && c.Transport == http.RoundTripper(net) && c.Jar == nil && c.CheckRedirect == nil, "the client stays as it was")
		vf.Assert(urls[0] == "https://k1/" && urls[1] == "https://k2/" && urls[2] == "spare", "the URLs stay as they were")
		vf.Assert(domains[0] == "dom" && domains[1] == "spare", "the domains stay as they were")
		vf.Assert(len(ids) == 1 && len(ids["cn"]) == 2 && ids["cn"][0] == "x" && ids["cn"][1] == "y", "the client ids stay as they were")
		r := rules["dom"]
		vf.Assert(len(rules) == 1 && len(r) == 1 && r[0].Method == "GET" && r[0].Path == "/a/{b}" && r[0].Action == "act" && r[0].Resource == "{b}", "the rules stay as they were")
	}
	vf.Cover("done")
}
