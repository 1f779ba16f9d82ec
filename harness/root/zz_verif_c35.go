package authorizerd

//vf:use net

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"net/http"
	"net/url"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// A crash of any goroutine is reported by the engine; the harnesses below only
// have to lead the authorizer through every configuration and request.

func vfWhole(net *vfNet, opts ...Option) *authority {
	vf.CaptureLogs() // what is logged is computed
	a, err := New(append([]Option{WithHTTPClient(net.client()), WithAthenzDomains("dom"), WithPolicyRetryAttempts(1), WithPolicyRetryDelay("1ms")}, opts...)...)
	if err != nil {
		vf.Cover("refused configuration")
		vf.Stop()
	}
	return a.(*authority)
}

func vfAthenz() *vfNet {
	begin := time.Now()
	return vfNewNet(func(r vfRequest) (int, string, string, error) {
		switch r.url {
		case "https://athenz.io/zts/v1/domain/dom/signed_policy_data":
			return 200, "", vfPolicyDoc("dom", "r", begin.Add(time.Hour)), nil
		case "https://athenz.io/zts/v1/oauth2/keys?rfc=true":
			return 200, "", vfJwkDoc(), nil
		}
		return 200, "", vfPubDoc(), nil
	})
}

func vfUse(a *authority, tok string, certs []*x509.Certificate, state int) {
	ctx := context.Background()
	r, err := http.NewRequest("GET", "https://host/path?q", nil)
	if err != nil {
		vf.Stop()
	}
	switch state {
	case 1:
		r.TLS = &tls.ConnectionState{}
	case 2:
		r.TLS = &tls.ConnectionState{PeerCertificates: certs}
	}
	r.Header.Set("Authorization", "Bearer "+tok)
	r.Header.Set("Athenz-Role-Auth", tok)
	p, err := a.Authorize(r, "act", "res")
	vf.Assert((p == nil) == (err != nil), "there is either a principal or an error")
	verr := a.Verify(r, "act", "res")
	vf.Assert((verr == nil) == (err == nil), "verifying and authorizing agree")
	var cert *x509.Certificate
	if len(certs) > 0 {
		cert = certs[0]
	}
	a.VerifyAccessToken(ctx, tok, "act", "res", cert)
	a.VerifyRoleToken(ctx, tok, "act", "res")
	a.VerifyRoleCert(ctx, certs, "act", "res")
	a.GetPolicyCache(ctx)
	if p != nil {
		vf.Cover("authorized")
		p.Name()
		p.Roles()
		p.AuthorizedRoles()
		p.Domain()
		p.IssueTime()
		p.ExpiryTime()
	} else {
		vf.Cover("rejected")
	}
}

func vfGoodToken(kind int) string {
	if kind == 0 {
		return vf.JWT(`{"alg":"RS256","kid":"0"}`, `{"sub":"p","aud":"dom","scp":["r"],"exp":9999999999,"iat":1,"client_id":"c"}`, "RS256", 0)
	}
	head := "d=dom;r=r;p=p;e=9999999999;t=1;k=0"
	return head + ";s=" + vf.ZMSSign(head, 0)
}

// Every combination of enabled parts, with well-formed tokens.
func VF_C35_Configurations() {
	var opts []Option
	bits := vf.Choice("disabled", 8)
	if bits&1 != 0 {
		opts = append(opts, WithDisablePubkeyd())
	}
	if bits&2 != 0 {
		opts = append(opts, WithDisablePolicyd())
	}
	if bits&4 != 0 {
		opts = append(opts, WithDisableJwkd())
	}
	tokens := vf.Choice("credentials", 8)
	if tokens&1 != 0 {
		opts = append(opts, WithDisableRoleToken())
	}
	if tokens&2 != 0 {
		opts = append(opts, WithDisableRoleCert())
	}
	if tokens&4 != 0 {
		opts = append(opts, WithAccessTokenParam(NewAccessTokenParam(false, false, "", "", false, nil)))
	} else {
		flags := vf.Choice("flags", 4)
		opts = append(opts, WithAccessTokenParam(NewAccessTokenParam(true, flags&1 != 0, "1h", "1h", flags&2 != 0, map[string][]string{"c": {"c"}})))
	}
	a := vfWhole(vfAthenz(), opts...)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if vf.Choice("init", 2) == 1 {
		a.Init(ctx)
	}
	if tokens&1 == 0 || tokens&4 == 0 {
		kind := 0
		if tokens&4 != 0 || vf.Choice("kind", 2) == 1 {
			kind = 1
		}
		vf.Assume(tokens&1 == 0 || kind == 0)
		r, _ := http.NewRequest("GET", "https://host/path?q", nil)
		tok := vfGoodToken(kind)
		r.Header.Set("Authorization", "Bearer "+tok)
		r.Header.Set("Athenz-Role-Auth", tok)
		certs := []*x509.Certificate{{Raw: []byte("cert"), Subject: pkix.Name{CommonName: "c"}, NotBefore: time.Unix(1, 0)}}
		switch vf.Choice("tls", 4) {
		case 1:
			r.TLS = &tls.ConnectionState{PeerCertificates: certs}
		case 2:
			r.TLS = &tls.ConnectionState{}
		case 3:
			r.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{}}
		}
		p, err := a.Authorize(r, "act", "res")
		vf.Assert((p == nil) == (err != nil), "there is either a principal or an error")
		if err == nil {
			vf.Cover("authorized")
			vf.Assert(kind == 1 || bits&4 == 0, "no access token is accepted without keys")
			vf.Assert(kind == 0 || bits&1 == 0, "no role token is accepted without keys")
		}
	}
	a.GetPolicyCache(ctx)
}

// Any text in the credential headers.
func VF_C35_Text() {
	a := vfWhole(vfAthenz())
	if a.Init(context.Background()) != nil {
		vf.Assert(false, "the authorizer initializes")
		vf.Stop()
	}
	var tok string
	if vf.Choice("kind", 2) == 0 {
		tok = vf.StrOf("role token", "dsk=;e", 0, vf.Q(4, 5))
		if vf.Choice("signed", 2) == 1 {
			tok += ";s=" + vf.StrOf("signature", ".A=", 0, vf.Q(1, 2))
		}
	} else {
		tok = vf.StrOf("access token", "e.J=", 0, vf.Q(3, 5))
	}
	vfUse(a, tok, nil, vf.Choice("tls", 2))
}

// Signed tokens whose claims and headers have any JSON type.
func VF_C35_Claims() {
	a := vfWhole(vfAthenz(), WithAccessTokenParam(NewAccessTokenParam(true, vf.Choice("mtls", 2) == 1, "1h", "1h", vf.Choice("clientID", 2) == 1, map[string][]string{"c": {"c", ""}})))
	if a.Init(context.Background()) != nil {
		vf.Assert(false, "the authorizer initializes")
		vf.Stop()
	}
	values := []string{"null", "true", "-1", `""`, `"r"`, "[]", "[null]", `["r",1]`, "{}", `{"a":null}`, `{"x5t#S256":null,"proxy-principals#spiffe":[null,1,"x"]}`, "1e400", "99999999999999999999"}
	v := values[vf.Choice("value", len(values))]
	names := []string{"sub", "aud", "scp", "client_id", "cnf", "exp", "iat", "nbf", "auth_time", "ver", "uid", "proxy", "", "kid", "alg", "jku", "typ", " "}
	n := vf.Choice("name", len(names))
	header, claims := `{"alg":"RS256","kid":"0"}`, `{"sub":"p","aud":"dom","scp":["r"],"exp":9999999999,"iat":1,"client_id":"c"`
	switch {
	case n < 12:
		claims += `,"` + names[n] + `":` + v + `}`
	case n == 12:
		claims = v
	case n == 17:
		header = v
		claims += "}"
	default:
		header = `{"alg":"RS256","kid":"0","` + names[n] + `":` + v + `}`
		claims += "}"
	}
	tok := vf.JWT(header, claims, "RS256", 0)
	certs := []*x509.Certificate{{Raw: []byte("cert"), Subject: pkix.Name{CommonName: "c"}, NotBefore: time.Unix(1, 0), URIs: []*url.URL{{Scheme: "spiffe", Host: "x"}}}}
	vfUse(a, tok, certs, vf.Choice("tls", 3))
}

// Client certificates of any shape with valid tokens.
func VF_C35_Shapes() {
	ids := map[string][]string{"c": {"c", ""}, "": {"c"}}
	if vf.Choice("ids", 2) == 1 {
		ids = nil
	}
	a := vfWhole(vfAthenz(), WithAccessTokenParam(NewAccessTokenParam(true, vf.Choice("mtls", 2) == 1, "1h", "1h", vf.Choice("clientID", 2) == 1, ids)))
	if a.Init(context.Background()) != nil {
		vf.Assert(false, "the authorizer initializes")
		vf.Stop()
	}
	c := &x509.Certificate{}
	if vf.Choice("raw", 2) == 1 {
		c.Raw = []byte("cert")
	}
	c.Subject.CommonName = []string{"", "c", "."}[vf.Choice("cn", 3)]
	if vf.Choice("names", 2) == 1 {
		c.Subject.Organization = []string{"o"}
		c.DNSNames = []string{"host"}
		c.NotBefore = time.Unix(1, 0)
	}
	c.URIs = [][]*url.URL{nil, {}, {{}}, {{Scheme: "spiffe", Host: "x"}}}[vf.Choice("uris", 4)]
	claims := `{"sub":"p","aud":"dom","scp":["r"],"exp":9999999999,"iat":1` + []string{``, `,"client_id":""`, `,"client_id":"c"`, `,"client_id":"."`}[vf.Choice("client", 4)] +
		[]string{``, `,"cnf":{}`, `,"cnf":{"x5t#S256":""}`, `,"cnf":{"x5t#S256":"x","proxy-principals#spiffe":["spiffe://x",""]}`}[vf.Choice("cnf", 4)] + `}`
	certs := []*x509.Certificate{c}
	if vf.Choice("chain", vf.Q(1, 2)) == 1 {
		certs = append(certs, &x509.Certificate{})
	}
	vfUse(a, vf.JWT(`{"alg":"RS256","kid":"0"}`, claims, "RS256", 0), certs, 2)
}

// Role tokens with any fields, properly signed.
func VF_C35_Fields() {
	a := vfWhole(vfAthenz())
	if a.Init(context.Background()) != nil {
		vf.Assert(false, "the authorizer initializes")
		vf.Stop()
	}
	heads := []string{"", "k=0", "d=dom;r=;e=9999999999;k=0", "d=;r=,;e=9999999999;k=0", "=;e=9999999999;k=0", "e=-9223372036854775808;k=0", "e=9223372036854775807;t=-9223372036854775808;k=0;d=dom;r=r",
		"e=9223372036854775808;k=0", "e=9999999999;t=9999999999;k=0;d=dom;r=r,r,,r", "e=9999999999;k=0;d=dom;r=r;h=;a=;i=;p=;v=;o=;c=;g=;t=0"}
	head := heads[vf.Choice("head", len(heads))]
	if vf.Choice("more", 2) == 1 {
		head += ";" + vf.StrOf("field", "ketrd=", 0, vf.Q(3, 4))
	}
	tok := head + ";s=" + vf.ZMSSign(head, 0)
	vfUse(a, tok, nil, 0)
}

// Certificates of any content.
func VF_C35_Certs() {
	a := vfWhole(vfAthenz())
	if a.Init(context.Background()) != nil {
		vf.Assert(false, "the authorizer initializes")
		vf.Stop()
	}
	var certs []*x509.Certificate
	for i, n := 0, vf.Choice("certs", vf.Q(2, 3)); i < n; i++ {
		c := &x509.Certificate{}
		c.Subject.CommonName = vf.StrOf("cn", ":r", 0, vf.Q(1, 3)) + []string{"", ":role.", "dom:role.r"}[vf.Choice("cnRest", 3)]
		switch vf.Choice("uris", 3) {
		case 1:
			c.URIs = []*url.URL{{}, {Scheme: "athenz", Host: "role"}, {Opaque: "athenz://role/"}}
		case 2:
			c.URIs = []*url.URL{{Scheme: "athenz", Host: "role", Path: vf.StrOf("path", "/a", 0, vf.Q(2, 3))}}
		}
		certs = append(certs, c)
	}
	vfUse(a, vfGoodToken(vf.Choice("kind", 2)), certs, vf.Choice("tls", 3))
}
