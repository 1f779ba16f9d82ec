package policy

//vf:use http

import (
	"context"
	"net/http"
	"strings"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// vfShared is a server without state of its own.
type vfShared struct {
	docs map[string]string
	etag string
}

func (s *vfShared) RoundTrip(req *http.Request) (*http.Response, error) {
	status, body := 404, ""
	for d, b := range s.docs {
		if strings.Contains(req.URL.String(), "/domain/"+d+"/") {
			status, body = 200, b
		}
	}
	h := http.Header{}
	if s.etag != "" {
		h.Set("ETag", s.etag)
		if req.Header.Get("If-None-Match") == s.etag {
			status, body = 304, ""
		}
	}
	return &http.Response{StatusCode: status, Status: "status", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: vfStatic{strings.NewReader(body)}, ContentLength: -1, Request: req}, nil
}

type vfStatic struct{ *strings.Reader }

func (vfStatic) Close() error { return nil }

func vfSharedDaemon(life time.Duration, etag string) *policyd {
	exp := time.Now().Add(life)
	dom := func(d string) string {
		return vfJSON(vfDoc(d, exp, []*util.Assertion{vfAss(d+":role.r1", "a", d+":x*", "ALLOW"), vfAss(d+":role.r2", "A*", d+":X", "DENY")},
			[]*util.Assertion{vfAss(d+":role.r1", "b", d+":y", "ALLOW"), vfAss(d+":role.r2", "a", d+":x", "ALLOW")}))
	}
	d, err := New(WithAthenzURL("athenz.io/zts/v1"), WithAthenzDomains("d", "e"),
		WithHTTPClient(&http.Client{Transport: &vfShared{map[string]string{"d": dom("d"), "e": dom("e")}, etag}}),
		WithPubKeyProvider(vfAcceptAll), WithRetryDelay("1s"), WithRetryAttempts(1), WithExpiryMargin("1m"), WithPurgePeriod("1m"), WithRefreshPeriod("10m"))
	if err != nil {
		vf.Assert(false, "the policy daemon can be constructed")
		vf.Stop()
	}
	return d.(*policyd)
}

func vfUse(ctx context.Context, p *policyd, op int) {
	switch op {
	case 0:
		p.Update(ctx)
	case 1:
		p.CheckPolicy(ctx, "d", []string{"r1", "r2"}, "a", "x")
	case 2:
		p.CheckPolicyRoles(ctx, "d", []string{"r1", "r2"}, "b", "y")
	case 3:
		for range p.GetPolicyCache(ctx) {
		}
	case 4:
		p.CheckPolicyRoles(ctx, "nosuch", []string{"r1"}, "b", "y")
	}
}

// Updates and checks at the same time.
func VF_C37_Uses() {
	vf.Races()
	etag := []string{"", `"v1"`}[vf.Choice("etag", 2)]
	p := vfSharedDaemon(time.Hour, etag)
	ctx := context.Background()
	if vf.Choice("loaded", 2) == 1 {
		vf.Assert(p.Update(ctx) == nil, "documents load")
	}
	x, y := vf.Choice("one", 5), vf.Choice("other", 5)
	vf.Assume(x <= y)
	vf.Delays(vf.Q(0, 1))
	done := make(chan bool)
	go func() { vfUse(ctx, p, x); done <- true }()
	go func() { vfUse(ctx, p, y); done <- true }()
	<-done
	<-done
	vf.Sequential()
	vf.Cover("done")
}

// Checks while expired policies are refreshed in the background.
func VF_C37_Expiry() {
	vf.Races()
	p := vfSharedDaemon(2*time.Minute, "")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	vf.Assert(p.Update(ctx) == nil, "documents load")
	if vf.Choice("started", 2) == 1 {
		ch := p.Start(ctx)
		go func() {
			for range ch {
			}
		}()
	}
	time.Sleep(3 * time.Minute)
	op := vf.Choice("op", 5)
	vf.Delays(vf.Q(0, 1))
	done := make(chan bool)
	go func() { vfUse(ctx, p, 1); vfUse(ctx, p, op); done <- true }()
	go func() { vfUse(ctx, p, 2); done <- true }()
	<-done
	<-done
	vf.Sequential()
	vf.Cover("done")
}

// Fetches of one domain at the same time.
func VF_C37_Fetch() {
	vf.Races()
	etag := []string{"", `"v1"`}[vf.Choice("etag", 2)]
	p := vfSharedDaemon(time.Hour, etag)
	f := p.fetchers["d"]
	ctx := context.Background()
	if vf.Choice("loaded", 2) == 1 {
		f.Fetch(ctx)
	}
	done := make(chan bool)
	one := func(retry int) {
		var sp *SignedPolicy
		if retry == 1 {
			sp, _ = f.FetchWithRetry(ctx)
		} else {
			sp, _ = f.Fetch(ctx)
		}
		if sp != nil {
			_ = len(sp.SignedPolicyData.PolicyData.Policies)
		}
		done <- true
	}
	x, y := vf.Choice("one", 2), vf.Choice("other", 2)
	go one(x)
	go one(y)
	<-done
	<-done
	vf.Cover("done")
}
