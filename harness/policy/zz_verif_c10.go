package policy

//vf:use http

import (
	"context"
	"net/http"
	"strings"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

func vfHostile(good string) (string, bool) {
	bodies := []string{
		"null", "{}", "[]", "\"x\"", "1", "", "{",
		`{"signedPolicyData":null}`,
		`{"signedPolicyData":{}}`,
		`{"keyId":1}`,
		`{"signedPolicyData":{"expires":"x","policyData":{}}}`,
		`{"signedPolicyData":{"expires":null,"policyData":{}}}`,
		strings.Replace(good, `"policyData":{`, `"policyData":null,"x":{`, 1),
		strings.Replace(good, `"policies":[{`, `"policies":[null,{`, 1),
		strings.Replace(good, `"assertions":[{`, `"assertions":[null,{`, 1),
		strings.Replace(good, `"resource":"d:x"`, `"resource":null`, 1),
		strings.Replace(good, `"resource":"d:x"`, `"resource":"x"`, 1),
	}
	i := vf.Choice("body", len(bodies)+2)
	if i == len(bodies) {
		return good, true
	}
	if i == len(bodies)+1 {
		return vf.StrOf("text", "{}[]nul\":", 0, vf.Q(3, 4)), false
	}
	return bodies[i], false
}

// Two updates answered by a hostile server.
func VF_C10_Policy() {
	good := vfJSON(vfDoc("d", time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC), []*util.Assertion{vfAss("d:role.r", "a", "d:x", "ALLOW")}))
	s := &vfServer{}
	usable := false
	have := false
	s.answer = func(*http.Request) *vfReply {
		st := int(vf.Int("status", 100, 999))
		usable = st == 304 && have
		body := ""
		if st == 200 {
			body, usable = vfHostile(good)
		}
		r := &vfReply{status: st, body: body, etag: "t"}
		if vf.Choice("sized", 2) == 1 {
			r.sized, r.etag = true, ""
		}
		return r
	}
	var f Fetcher
	p := vfClientDaemon(s, WithRetryAttempts(-1))
	f = p.fetchers["d"]
	ctx := context.Background()
	for i := 0; i < vf.Q(2, 3); i++ {
		sp, err := f.Fetch(ctx)
		if err == nil {
			vf.Cover("fetched")
			vf.Assert(sp != nil, "a fetch without error returns a document")
		} else {
			vf.Cover("failed")
		}
		vf.Assert(err == nil || !usable, "a usable answer is not an error")
		if err == nil {
			have = true
			g := p.Update
			_ = g
		}
	}
}

// The whole update with a hostile document.
func VF_C10_PolicyUpdate() {
	good := vfJSON(vfDoc("d", time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC), []*util.Assertion{vfAss("d:role.r", "a", "d:x", "ALLOW")}))
	s := &vfServer{}
	usable := false
	s.answer = func(*http.Request) *vfReply {
		var body string
		body, usable = vfHostile(good)
		return &vfReply{status: 200, body: body, etag: "t"}
	}
	p := vfClientDaemon(s, WithRetryAttempts(-1))
	p.fetchers["d"].(*fetcher).retryAttempts = 0
	err := p.Update(context.Background())
	if err == nil {
		vf.Cover("updated")
	} else {
		vf.Cover("failed")
	}
	vf.Observe("err", err != nil)
	vf.Assert((err == nil) == usable, "an update fails exactly when the document is unusable")
	vf.Assert(vfGranted(p, "r") == usable, "an unusable document grants nothing")
}

// Policies of a domain that is not configured expire.
func VF_C10_Expiry() {
	role := []string{"d:role.r", "other:role.r", "x", "", ":role."}[vf.Choice("role", 5)]
	s := &vfServer{}
	exp := time.Now().Add(time.Minute)
	s.answer = func(*http.Request) *vfReply {
		return &vfReply{status: 200, body: vfJSON(vfDoc("d", exp, []*util.Assertion{vfAss(role, "a", "d:x", "ALLOW")}))}
	}
	p := vfClientDaemon(s, WithPurgePeriod("30s"), WithRetryDelay("1s"))
	ctx, cancel := context.WithCancel(context.Background())
	vf.Assert(p.Update(ctx) == nil, "the document loads")
	time.Sleep(100 * time.Second)
	p.CheckPolicy(ctx, "d", []string{"r"}, "a", "x")
	time.Sleep(100 * time.Second)
	cancel()
	vf.Settle()
	vf.Cover("survived")
}

// Headers of any kind with short or odd values.
func VF_C10_PolicyHeaders() {
	good := vfJSON(vfDoc("d", time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC), []*util.Assertion{vfAss("d:role.r", "a", "d:x", "ALLOW")}))
	names := []string{"Content-Type", "ETag", "Date", "Expires", "Last-Modified", "Retry-After", "Cache-Control", "Content-Length", "Content-Encoding", "Warning"}
	values := []string{"", "x", "text", "W/", "\"", "-1", "a;b=c,d", "max-age="}
	s := &vfServer{}
	name, value := names[vf.Choice("name", len(names))], values[vf.Choice("value", len(values))]
	st := 0
	s.answer = func(*http.Request) *vfReply {
		st = []int{200, 304, 429, 503}[vf.Choice("status", 4)]
		body := good
		if st == 304 {
			body = ""
		}
		return &vfReply{status: st, body: body, extra: [2]string{name, value}}
	}
	p := vfClientDaemon(s, WithRetryAttempts(-1))
	p.fetchers["d"].(*fetcher).retryAttempts = 0
	for i := 0; i < 2; i++ {
		err := p.Update(context.Background())
		vf.Assert(err == nil || st != 200, "a signed document loads whatever the headers are")
		if err == nil {
			vf.Cover("updated")
			vf.Assert(vfGranted(p, "r"), "a loaded document grants")
		} else {
			vf.Cover("failed")
		}
	}
}
