package authorizerd

//vf:use net

import (
	"context"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"fmt"
	"net/http"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

const (
	vfPolicyURL  = "/signed_policy_data"
	vfJwkPath    = "/oauth2/keys"
	vfDomainPath = "https://athenz.io/zts/v1/domain/"
)

func vfServe(life time.Duration) *vfNet {
	begin := time.Now()
	return vfNewNet(func(r vfRequest) (int, string, string, error) {
		switch r.url {
		case vfDomainPath + "dom" + vfPolicyURL:
			return 200, "", vfPolicyDoc("dom", "a", begin.Add(life)), nil
		case vfDomainPath + "dom2" + vfPolicyURL:
			return 200, "", vfPolicyDoc("dom2", "b", begin.Add(life)), nil
		case "https://athenz.io/zts/v1/oauth2/keys?rfc=true":
			return 200, "", vfJwkDoc(), nil
		case vfDomainPath + "sys.auth/service/zts", vfDomainPath + "sys.auth/service/zms":
			return 200, "", vfPubDoc(), nil
		}
		return 404, "", "", nil
	})
}

// vfDomains configures which domains are loaded.
func vfDomains() (Option, bool, bool) {
	switch vf.Choice("domains", 3) {
	case 0:
		return WithAthenzDomains("dom"), true, false
	case 1:
		return WithAthenzDomains("dom2"), false, true
	}
	return WithAthenzDomains("dom", "dom2"), true, true
}

// vfRequested is a request's action and resource and whether the policies permit them to the role.
func vfRequested(domain, roleName string, has, has2 bool) (string, string, bool) {
	act, res := "act", "res"
	switch vf.Choice("request", 3) {
	case 0:
		act = "ac" + vf.StrOf("act", "ts", 1, 1)
	case 1:
		res = "re" + vf.StrOf("res", "st", 1, 1)
	}
	ok := vf.Or(vf.And(domain == "dom", vf.And(has, roleName == "a")), vf.And(domain == "dom2", vf.And(has2, roleName == "b")))
	return act, res, vf.And(ok, vf.And(act == "act", res == "res"))
}

// From the credential to the decision, everything real: role tokens.
func VF_C36_RoleToken() {
	doms, has, has2 := vfDomains()
	header := "Athenz-Role-Auth"
	opts := []Option{doms}
	if vf.Choice("header", 2) == 1 {
		header = "X-Other"
		opts = append(opts, WithRoleAuthHeader(header))
	}
	enabled := vf.Choice("enabled", 2) == 1
	if !enabled {
		opts = append(opts, WithDisableRoleToken())
	}
	net := vfServe(time.Hour)
	a, err := New(append([]Option{WithHTTPClient(net.client())}, opts...)...)
	if err != nil {
		vf.Assert(false, "the authorizer can be constructed")
		vf.Stop()
	}
	ctx := context.Background()
	if a.Init(ctx) != nil {
		vf.Assert(false, "the authorizer initializes")
		vf.Stop()
	}
	domain := []string{"dom", "dom2", "dom3", "Dom"}[vf.Choice("domain", 4)]
	roleName := vf.StrOf("role", "aAbc", 1, 1)
	off := vf.Int("expiry", -2, 2)
	kid := vf.Choice("kid", 2)
	key := vf.Choice("key", 2)
	head := fmt.Sprintf("d=%s;r=x,%s;p=prin;e=%d;t=7;k=%d", domain, roleName, time.Now().Unix()+off, kid)
	tok := head + ";s=" + vf.ZMSSign(head, key)
	act, res, ok := vfRequested(domain, roleName, has, has2)
	want := vf.And(vf.And(enabled, off >= 0), vf.And(kid == 0 && key == 0, ok))
	r, err := http.NewRequest("GET", "https://host/x", nil)
	if err != nil {
		vf.Stop()
	}
	sent := []string{"Athenz-Role-Auth", "X-Other"}[vf.Choice("sent", 2)]
	r.Header.Set(sent, tok)
	want = vf.And(want, sent == header)
	p, err := a.Authorize(r, act, res)
	vf.Assert(vf.Implies(err == nil, want), "a request is authorized only with a valid credential whose role the policies permit")
	vf.Assert(vf.Implies(want, err == nil), "a request with a valid credential whose role the policies permit is authorized")
	if err == nil {
		vf.Cover("authorized")
		roles := p.AuthorizedRoles()
		vf.Assert(p.Name() == "prin" && p.Domain() == domain && p.IssueTime() == 7, "the principal is the token's")
		vf.Assert(len(roles) == 1 && roles[0] == roleName, "the authorized role is the one permitted")
	} else {
		vf.Cover("refused")
	}
	vf.Assert((a.Verify(r, act, res) == nil) == (err == nil), "verifying and authorizing agree")
}

// Access tokens with the configured checks of the client certificate.
func VF_C36_AccessToken() {
	doms, has, has2 := vfDomains()
	opts := []Option{doms}
	enabled, mtls, byID := true, true, false
	if c := vf.Choice("param", 6); c > 0 {
		enabled, mtls, byID = c != 5, c&1 != 0, c&2 != 0
		opts = append(opts, WithAccessTokenParam(NewAccessTokenParam(enabled, mtls, "1h", "0s", byID, map[string][]string{"cn": {"x", "id"}, "cn2": {"id2"}})))
	}
	net := vfServe(time.Hour)
	a, err := New(append([]Option{WithHTTPClient(net.client())}, opts...)...)
	if err != nil {
		vf.Assert(false, "the authorizer can be constructed")
		vf.Stop()
	}
	ctx := context.Background()
	if a.Init(ctx) != nil {
		vf.Assert(false, "the authorizer initializes")
		vf.Stop()
	}
	domain := []string{"dom", "dom2", "doM"}[vf.Choice("domain", 3)]
	roleName := vf.StrOf("role", "aAbc", 1, 1)
	off := vf.Int("expiry", -2, 2)
	key := vf.Choice("key", 2)
	id := []string{"id", "id2"}[vf.Choice("clientID", 2)]
	raw := []string{"cert", "other"}[vf.Choice("bound", 2)]
	sum := sha256.Sum256([]byte(raw))
	tok := vf.JWT(`{"alg":"RS256","kid":"0"}`, fmt.Sprintf(`{"sub":"prin","aud":"%s","scp":["x","%s"],"exp":%d,"iat":1,"client_id":"%s","cnf":{"x5t#S256":"%s"}}`,
		domain, roleName, time.Now().Unix()+off, id, base64.RawURLEncoding.EncodeToString(sum[:])), "RS256", key)
	act, res, ok := vfRequested(domain, roleName, has, has2)
	want := vf.And(vf.And(enabled, off > 0), vf.And(key == 0, ok))
	r, err := http.NewRequest("GET", "https://host/x", nil)
	if err != nil {
		vf.Stop()
	}
	r.Header.Set("Authorization", "Bearer "+tok)
	cn := ""
	if k := vf.Choice("certificate", 4); k > 0 {
		cn = []string{"cn", "cn2", "cn3"}[k-1]
		r.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{{Raw: []byte("cert"), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Unix(1, 0)}, {Raw: []byte("other")}}}
		if k == 1 { // verified by two authorities
			r.TLS.VerifiedChains = [][]*x509.Certificate{r.TLS.PeerCertificates, r.TLS.PeerCertificates}
			r.TLS.HandshakeComplete = true
		}
	}
	want = vf.And(want, !mtls || cn != "" && raw == "cert")
	want = vf.And(want, !byID || cn == "cn" && id == "id" || cn == "cn2" && id == "id2")
	p, err := a.Authorize(r, act, res)
	vf.Assert(vf.Implies(err == nil, want), "a request is authorized only with a valid credential whose role the policies permit")
	vf.Assert(vf.Implies(want, err == nil), "a request with a valid credential whose role the policies permit is authorized")
	if err == nil {
		vf.Cover("authorized")
		roles := p.AuthorizedRoles()
		vf.Assert(p.Name() == "prin" && p.Domain() == domain && p.IssueTime() == 1, "the principal is the token's")
		vf.Assert(len(roles) == 1 && roles[0] == roleName, "the authorized role is the one permitted")
		c, isAccess := p.(OAuthAccessToken)
		vf.Assert(isAccess && c.ClientID() == id, "the client ID is the token's")
	} else {
		vf.Cover("refused")
	}
	vf.Assert((a.Verify(r, act, res) == nil) == (err == nil), "verifying and authorizing agree")
}

// What was allowed stops being allowed once the policies and keys behind it are gone.
func VF_C36_Lapse() {
	net := vfServe(2 * time.Minute)
	a, err := New(WithHTTPClient(net.client()), WithAthenzDomains("dom"), WithCacheExp(time.Minute), WithPolicyRefreshPeriod("900h"))
	if err != nil {
		vf.Stop()
	}
	ctx := context.Background()
	if a.Init(ctx) != nil {
		vf.Stop()
	}
	life := vf.Int("lifetime", 30, 300)
	head := fmt.Sprintf("d=dom;r=a;p=prin;e=%d;t=7;k=0", time.Now().Unix()+life)
	tok := head + ";s=" + vf.ZMSSign(head, 0)
	waits := []int{0, 29, 59, 61, 100, 119, 121, 181, 400}
	passed := 0
	cached := -1
	for i := 0; i < vf.Q(2, 3); i++ {
		w := waits[vf.Choice("wait", len(waits))]
		time.Sleep(time.Duration(w) * time.Second)
		passed += w
		_, err := a.AuthorizeRoleToken(ctx, tok, "act", "res")
		fresh := vf.And(int64(passed) <= life, passed < 120)
		reuse := cached >= 0 && passed-cached <= 60
		may := vf.And(int64(passed) <= life, passed <= 120)
		vf.Assert(vf.Implies(err == nil, vf.Or(may, reuse)), "an authorization ends with the token or the policy, at most the cache expiry later")
		vf.Assert(vf.Implies(fresh, err == nil), "a valid token is authorized")
		if err == nil && !reuse {
			cached = passed
		}
	}
}
