package authorizerd

//vf:use net

import (
	"context"
	"crypto/x509"
	"crypto/x509/pkix"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// vfShared is a server without state of its own.
type vfShared struct {
	pub, keys, dom, dom2, none string
	slow                       time.Duration
}

func (s *vfShared) RoundTrip(req *http.Request) (*http.Response, error) {
	body, status := s.none, 200
	u := req.URL.String()
	switch {
	case strings.HasSuffix(u, "/domain/dom/signed_policy_data"):
		body = s.dom
	case strings.HasSuffix(u, "/domain/dom2/signed_policy_data"):
		body = s.dom2
	case strings.Contains(u, "/oauth2/keys"):
		body = s.keys
	case strings.Contains(u, "/service/"):
		body = s.pub
	default:
		status = 404
	}
	if s.slow > 0 {
		time.Sleep(s.slow)
	}
	return &http.Response{StatusCode: status, Status: "status", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Etag": []string{`"e"`}}, Body: vfBody{strings.NewReader(body)}, ContentLength: -1, Request: req}, nil
}

func vfSharedAuthority(slow time.Duration, opts ...Option) Authorizerd {
	s := &vfShared{pub: vfPubDoc(), keys: vfJwkDoc(), slow: slow}
	s.dom = vfPolicyDoc("dom", "a", time.Now().Add(time.Hour))
	s.dom2 = vfPolicyDoc("dom2", "b", time.Now().Add(time.Hour))
	tr, err := NewMappingRules(map[string][]Rule{"dom": {
		{Method: "Get", Path: "/p/{x}", Action: "act", Resource: "{x}"},
		{Method: "Get", Path: "/p/{x}?q={y}", Action: "act", Resource: "{x}{y}"},
	}})
	vf.Assert(err == nil, "the rules are valid")
	a, err := New(append([]Option{WithHTTPClient(&http.Client{Transport: s}), WithAthenzDomains("dom", "dom2"), WithTranslator(tr), WithRoleCertURIPrefix("athenz://"),
		WithAccessTokenParam(NewAccessTokenParam(true, false, "", "", false, nil)),
		WithPolicyRefreshPeriod("10m"), WithPubkeyRefreshPeriod("10m"), WithJwkRefreshPeriod("10m")}, opts...)...)
	if err != nil {
		vf.Assert(false, "the authorizer can be constructed")
		vf.Stop()
	}
	return a
}

func vfRoleTok(kid string) string {
	head := "d=dom;r=a;p=prin;e=9999999999;t=7;k=" + kid
	return head + ";s=" + vf.ZMSSign(head, 0)
}

func vfAccessTok() string {
	return vf.JWT(`{"alg":"RS256","kid":"0"}`, `{"sub":"s","aud":"dom","scp":["a"],"exp":9999999999,"iat":1}`, "RS256", 0)
}

// vfUse is one use of the authorizer by a client.
func vfUse(ctx context.Context, a Authorizerd, op int) {
	switch op {
	case 0:
		a.VerifyRoleToken(ctx, vfRoleTok("0"), "act", "res")
	case 1:
		a.AuthorizeRoleToken(ctx, vfRoleTok("0"), "act", "other")
	case 2:
		p, err := a.AuthorizeAccessToken(ctx, vfAccessTok(), "act", "res", nil)
		if err == nil {
			p.AuthorizedRoles()
		}
	case 3:
		r, err := http.NewRequest("GET", "https://host/x?q", nil)
		if err != nil {
			return
		}
		r.Header.Set("Athenz-Role-Auth", vfRoleTok("0"))
		p, err := a.Authorize(r, "act", "res")
		if err == nil {
			p.Name()
			p.AuthorizedRoles()
		}
	case 4:
		a.GetPolicyCache(ctx)
	case 5:
		a.VerifyRoleToken(ctx, vfRoleTok("1"), "act", "res")
	case 6:
		a.Init(ctx)
	case 7, 8:
		u := "https://host/p/res"
		if op == 8 {
			u += "?q="
		}
		r, err := http.NewRequest("GET", u, nil)
		if err != nil {
			return
		}
		r.Header.Set("Authorization", "Bearer "+vfAccessTok())
		p, err := a.Authorize(r, r.Method, r.URL.Path)
		if err == nil {
			p.AuthorizedRoles()
		}
	case 9:
		a.VerifyRoleCert(ctx, []*x509.Certificate{{Subject: pkix.Name{CommonName: "dom:role.a"}}, {Subject: pkix.Name{CommonName: "dom2:role.b"},
			URIs: []*url.URL{{Scheme: "athenz", Host: "dom", Path: "/b"}}}}, "act", "res")
	}
}

// Clients use the authorizer at the same time.
func VF_C37_Clients() {
	vf.Races()
	a := vfSharedAuthority(0)
	ctx := context.Background()
	vf.Assert(a.Init(ctx) == nil, "the authorizer initializes")
	x := vf.Choice("one", 10)
	y := vf.Choice("other", 10)
	vf.Assume(x <= y)
	warm := vf.Choice("warm", 2) == 1
	if warm {
		vfUse(ctx, a, x)
	}
	done := make(chan bool)
	go func() { vfUse(ctx, a, x); done <- true }()
	go func() { vfUse(ctx, a, y); done <- true }()
	<-done
	<-done
	vf.Cover("done")
}

// A client uses the authorizer while it refreshes its keys and policies.
func VF_C37_Refresh() {
	vf.Races()
	slow := time.Duration(vf.Choice("slow", 2)) * time.Second
	a := vfSharedAuthority(slow)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if vf.Choice("init", 2) == 1 {
		vf.Assert(a.Init(ctx) == nil, "the authorizer initializes")
	}
	ch := a.Start(ctx)
	op := vf.Choice("use", 10)
	var wait [2]time.Duration
	for i := range wait {
		wait[i] = 10*time.Minute + time.Duration(vf.Choice("offset", 3))*time.Second
	}
	done := make(chan bool)
	go func() {
		for _, w := range wait {
			time.Sleep(w)
			vfUse(ctx, a, op)
		}
		done <- true
	}()
	<-done
	cancel()
	for range ch {
	}
	vf.Cover("done")
}

// The authorizer is stopped while it is used.
func VF_C37_Stop() {
	vf.Races()
	a := vfSharedAuthority(0)
	ctx, cancel := context.WithCancel(context.Background())
	vf.Assert(a.Init(ctx) == nil, "the authorizer initializes")
	ch := a.Start(ctx)
	op := vf.Choice("use", 10)
	done := make(chan bool)
	vf.Delays(1)
	go func() { vfUse(context.Background(), a, op); done <- true }()
	cancel()
	for range ch {
	}
	<-done
	vf.Sequential()
	vf.Cover("done")
}
