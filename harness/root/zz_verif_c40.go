package authorizerd

//vf:use net

import (
	"context"
	"crypto/x509"
	"crypto/x509/pkix"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
	"github.com/yahoojapan/athenz-authorizer/v5/role"
)

// vfSwitch gives one of the sequences of an enabling and a disabling option, and what is to come of it.
func vfSwitch(name string, opts []Option, enable, disable Option, def bool) ([]Option, bool) {
	switch vf.Choice(name, 5) {
	case 1:
		return append(opts, disable), false
	case 2:
		return append(opts, enable), true
	case 3:
		return append(opts, disable, enable), true
	case 4:
		return append(opts, enable, disable), false
	}
	return opts, def
}

// Which requests an initialization sends.
func VF_C40_Requests() {
	pub, keys := vfPubDoc(), vfJwkDoc()
	sick := vf.Choice("sick", 2) == 1
	exp := time.Now().Add(100 * time.Hour)
	docs := map[string]string{"d1": vfPolicyDoc("d1", "a", exp), "d2": vfPolicyDoc("d2", "a", exp)}
	net := vfNewNet(func(r vfRequest) (int, string, string, error) {
		switch {
		case strings.Contains(r.url, "/service/"):
			return 200, "", pub, nil
		case strings.HasSuffix(r.url, "/signed_policy_data"):
			if sick {
				return 500, "", "", nil
			}
			for d, doc := range docs {
				if strings.Contains(r.url, "/"+d+"/") {
					return 200, "", doc, nil
				}
			}
		case strings.Contains(r.url, "keys"):
			return 200, "", keys, nil
		}
		return 404, "", "", nil
	})
	opts := []Option{WithHTTPClient(nil), WithHTTPClient(net.client()), WithAthenzURL("https://other/x"), WithAthenzURL("https://host/zts/v1")}
	opts, pubOn := vfSwitch("pubkeyd", opts, WithEnablePubkeyd(), WithDisablePubkeyd(), true)
	opts, polOn := vfSwitch("policyd", opts, WithEnablePolicyd(), WithDisablePolicyd(), true)
	opts, jwkOn := vfSwitch("jwkd", opts, WithEnableJwkd(), WithDisableJwkd(), true)
	vf.Assume(pubOn || !polOn) // policies need keys
	sys := "sys.auth"
	if pubOn {
		switch vf.Choice("system domain", 3) {
		case 1:
			sys = "own.auth"
			opts = append(opts, WithPubkeySysAuthDomain("first.auth"), WithPubkeySysAuthDomain(sys))
		case 2:
			opts = append(opts, WithPubkeySysAuthDomain(""))
		}
	}
	var domains []string
	attempts := 2
	if polOn {
		domains = [][]string{nil, {"d1"}, {"d1", "d2"}, {}}[vf.Choice("domains", 4)]
		if domains != nil {
			opts = append(opts, WithAthenzDomains("zero"), WithAthenzDomains(domains...))
		}
		if n := vf.Choice("attempts", 4); n > 0 {
			attempts = n
			opts = append(opts, WithPolicyRetryAttempts(7), WithPolicyRetryAttempts(n))
		}
		opts = append(opts, WithPolicyRetryDelay("1s"))
	}
	want := map[string]int{}
	if pubOn {
		want["https://host/zts/v1/domain/"+sys+"/service/zts"] = 1
		want["https://host/zts/v1/domain/"+sys+"/service/zms"] = 1
	}
	for _, d := range domains {
		n := 1
		if sick {
			n = 1 + attempts
		}
		want["https://host/zts/v1/domain/"+d+"/signed_policy_data"] = n
	}
	if jwkOn {
		want["https://host/zts/v1/oauth2/keys?rfc=true"] = 1
		switch vf.Choice("urls", 4) {
		case 3: // none after all
			opts = append(opts, WithJwkURLs([]string{"https://k1/keys"}), WithJwkURLs(nil))
		case 1:
			opts = append(opts, WithJwkURLs([]string{"https://k1/keys", "http://k2/keys"}))
			want["https://k1/keys"], want["http://k2/keys"] = 1, 1
		case 2:
			opts = append(opts, WithJwkURLs([]string{"https://k1/keys"}), WithJwkURLs([]string{"https://k3/keys"}))
			want["https://k3/keys"] = 1
		}
	}
	a, err := New(opts...)
	vf.Assert(err == nil, "the authorizer can be constructed")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	err = a.Init(ctx)
	vf.Assert((err != nil) == (sick && len(domains) > 0), "the initialization fails exactly when the policies cannot be fetched")
	got := map[string]int{}
	for _, r := range net.reqs {
		vf.Assert(r.method == "GET", "only GET requests are sent")
		got[r.url]++
	}
	for u, n := range got {
		vf.Assert(want[u] == n, "every request is due to a setting")
	}
	for u, n := range want {
		vf.Assert(got[u] == n, "every setting takes effect")
	}
	vf.Cover("done")
}

// Which credentials are read from where.
func VF_C40_Credentials() {
	opts := []Option{WithHTTPClient(vfSlowTrans), WithDisablePolicyd()}
	opts, roleOn := vfSwitch("role token", opts, WithEnableRoleToken(), WithDisableRoleToken(), true)
	opts, certOn := vfSwitch("role certificate", opts, WithEnableRoleCert(), WithDisableRoleCert(), true)
	accessOn := true
	switch vf.Choice("access token", 3) {
	case 1:
		accessOn = false
		opts = append(opts, WithAccessTokenParam(NewAccessTokenParam(false, false, "", "", false, nil)))
	case 2:
		opts = append(opts, WithAccessTokenParam(NewAccessTokenParam(false, false, "", "", false, nil)), WithAccessTokenParam(NewAccessTokenParam(true, false, "", "", false, nil)))
	}
	header := "Athenz-Role-Auth"
	switch vf.Choice("header", 3) {
	case 1:
		header = "X-Tok"
		opts = append(opts, WithRoleAuthHeader("first"), WithRoleAuthHeader("X-Tok"))
	case 2:
		header = "X-Tok"
		opts = append(opts, WithRoleAuthHeader("x-tok"))
	}
	d, err := New(opts...)
	vf.Assert((err == nil) == (roleOn || certOn || accessOn), "construction fails exactly when no credential is enabled")
	if err != nil {
		vf.Cover("refused")
		return
	}
	a := d.(*authority)
	read := ""
	if a.roleProcessor != nil {
		a.roleProcessor = &vfRole{f: func(t string) (*role.Token, error) { read = t; return &role.Token{Domain: "r"}, nil }}
	}
	if a.accessProcessor != nil {
		a.accessProcessor = &vfAccess{f: func(t string, _ *x509.Certificate) (*access.OAuth2AccessTokenClaim, error) {
			read = t
			return vfClaim("s", "a", nil, 1, 2, "c"), nil
		}}
	}
	r, err := http.NewRequest("GET", "https://host/", nil)
	vf.Assert(err == nil, "the request is well-formed")
	at := []string{"Athenz-Role-Auth", "X-Tok", "Authorization"}[vf.Choice("carried", 3)]
	if at == "Authorization" {
		r.Header.Set(at, "Bearer tok")
	} else {
		r.Header.Set(at, "tok")
	}
	p, err := a.Authorize(r, "act", "res")
	wantTok, wantDom := "", ""
	switch {
	case accessOn && at == "Authorization":
		wantTok, wantDom = "tok", "a"
	case roleOn && at == header:
		wantTok, wantDom = "tok", "r"
	case roleOn: // an empty header
		wantDom = "r"
	}
	vf.Assert((err == nil) == (wantDom != ""), "an enabled credential is read")
	vf.Assert(read == wantTok, "the credential is read from where it was configured")
	if err == nil {
		vf.Cover("authorized")
		vf.Assert(p.Domain() == wantDom, "the enabled credential authorizes the request")
	}
}

// The prefix of the roles in certificates, and the prefix of resources.
func VF_C40_Prefixes() {
	var opts []Option
	prefix, resPrefix := "athenz://role/", ""
	switch vf.Choice("uri prefix", 3) {
	case 1:
		prefix = vf.StrOf("prefix", "abc:/", 1, vf.Q(3, 5))
		opts = append(opts, WithRoleCertURIPrefix("zzz"), WithRoleCertURIPrefix(prefix))
	case 2:
		prefix = ""
		opts = append(opts, WithRoleCertURIPrefix(""))
	}
	if vf.Choice("resource prefix", 2) == 1 {
		resPrefix = vf.StrOf("resource", "abc:/", 0, 2)
		opts = append(opts, WithResourcePrefix("zzz"), WithResourcePrefix(resPrefix))
	}
	a := vfAuthority(opts...)
	pd := &vfPolicy{f: func(domain string, roles []string, act, res string) ([]string, error) { return roles, nil }}
	a.policyd = pd
	uri := []string{"athenz://role/d/r", "abc/d/r", "a:d/r"}[vf.Choice("uri", 3)]
	u, err := url.Parse(uri)
	vf.Assert(err == nil, "the URI is well-formed")
	text := u.String()
	cert := &x509.Certificate{Subject: pkix.Name{CommonName: "somebody"}, URIs: []*url.URL{u}}
	err = a.VerifyRoleCert(context.Background(), []*x509.Certificate{cert}, "act", "res")
	has := len(text) >= len(prefix) && text[:len(prefix)] == prefix
	slash := -1
	rest := ""
	if has {
		rest = text[len(prefix):]
		slash = strings.IndexByte(rest, '/')
	}
	vf.Assert((err == nil) == (slash >= 0), "the certificate is accepted exactly when its URI names a role after the prefix")
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(pd.domain == rest[:slash] && len(pd.roles) == 1 && pd.roles[0] == rest[slash+1:], "the role is what follows the prefix")
	}
	a.roleProcessor = &vfRole{f: func(string) (*role.Token, error) { return &role.Token{Domain: "d", Roles: []string{"r"}}, nil }}
	_, err = a.AuthorizeRoleToken(context.Background(), "tok", "act", "x")
	vf.Assert(err == nil, "the token is authorized")
	vf.Assert(pd.res == resPrefix+"x", "the resource carries the prefix")
}

// Without a client and a cache expiry the documented defaults are used.
func VF_C40_Defaults() {
	opts := []Option{WithAthenzDomains("dom"), WithAccessTokenParam(NewAccessTokenParam(true, false, "", "", false, nil))}
	if vf.Choice("client", 2) == 1 {
		opts = append(opts, WithHTTPClient(&http.Client{}), WithHTTPClient(nil))
	}
	exp := time.Minute
	switch vf.Choice("expiry", 3) {
	case 1:
		exp = 5 * time.Second
		opts = append(opts, WithCacheExp(time.Hour), WithCacheExp(exp))
	case 2:
		exp = time.Hour
		opts = append(opts, WithCacheExp(exp))
	}
	d, err := New(opts...)
	vf.Assert(err == nil, "the authorizer can be constructed")
	a := d.(*authority)
	vf.Assert(a.client != nil && a.client.Timeout == 30*time.Second, "requests of the default client end after 30 seconds")
	n := 0
	a.policyd = &vfPolicy{f: func(domain string, roles []string, act, res string) ([]string, error) { n++; return roles, nil }}
	a.roleProcessor = &vfRole{f: func(string) (*role.Token, error) { return &role.Token{Domain: "d", Roles: []string{"r"}}, nil }}
	for i := 0; i < 2; i++ {
		_, err = a.AuthorizeRoleToken(context.Background(), "tok", "act", "x")
		vf.Assert(err == nil, "the token is authorized")
	}
	vf.Assert(n == 1, "a success is cached")
	time.Sleep(exp - time.Second)
	a.AuthorizeRoleToken(context.Background(), "tok", "act", "x")
	vf.Assert(n == 1, "a success is cached until its expiry")
	time.Sleep(2 * time.Second)
	a.AuthorizeRoleToken(context.Background(), "tok", "act", "x")
	vf.Assert(n == 2, "a success is not cached beyond its expiry")
	vf.Cover("done")
}

// vfSilent is a server that leaves some requests without an answer, or without the end of one.
type vfSilent struct {
	net  *vfNet
	part string
	body bool
}

func (s *vfSilent) RoundTrip(req *http.Request) (*http.Response, error) {
	if !strings.Contains(req.URL.String(), s.part) {
		return s.net.RoundTrip(req)
	}
	if s.body {
		res, err := s.net.RoundTrip(req)
		if err == nil {
			res.Body = vfEndless{req.Context()}
		}
		return res, err
	}
	<-req.Context().Done()
	return nil, req.Context().Err()
}

type vfEndless struct{ ctx context.Context }

func (b vfEndless) Read([]byte) (int, error) {
	<-b.ctx.Done()
	return 0, b.ctx.Err()
}

func (vfEndless) Close() error { return nil }

// A server that does not answer holds up an initialization no longer than the timeout of the client.
func VF_C40_Timeout() {
	pub, keys, dom := vfPubDoc(), vfJwkDoc(), vfPolicyDoc("dom", "a", time.Now().Add(100*time.Hour))
	s := &vfSilent{net: vfNewNet(func(r vfRequest) (int, string, string, error) {
		switch {
		case strings.Contains(r.url, "/service/"):
			return 200, "", pub, nil
		case strings.Contains(r.url, "/oauth2/keys"):
			return 200, "", keys, nil
		}
		return 200, "", dom, nil
	})}
	s.part = []string{"nothing", "/service/zms", "/service/zts", "/signed_policy_data", "/oauth2/keys"}[vf.Choice("silent", 5)]
	s.body = vf.Choice("body", 2) == 1
	limit := 30 * time.Second
	opts := []Option{WithAthenzDomains("dom"), WithPolicyRetryAttempts(1), WithPolicyRetryDelay("1s")}
	switch vf.Choice("client", 3) {
	case 1:
		opts = append(opts, WithHTTPClient(nil))
	case 2:
		limit = 5 * time.Second
		opts = append(opts, WithHTTPClient(&http.Client{Timeout: limit}))
	}
	d, err := New(opts...)
	vf.Assert(err == nil, "the authorizer can be constructed")
	a := d.(*authority)
	a.client.Transport = s
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	begin := time.Now()
	err = a.Init(ctx)
	took := time.Now().Sub(begin)
	vf.Assert((err == nil) == (s.part == "nothing"), "an initialization fails exactly when an answer is missing")
	want := limit
	if s.part == "nothing" {
		want = 0
	} else if s.part == "/signed_policy_data" {
		want = 2 * limit // and the delay between and after the attempts
	}
	vf.Assert(took >= want && took < want+5*time.Second, "a request ends with the timeout of the client")
	vf.Cover("done")
}
