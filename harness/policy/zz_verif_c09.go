package policy

//vf:use http

import (
	"context"
	"errors"
	"net/http"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// Histories of fetches with symbolic entity tags, expiries and margin.
func VF_C09_History() {
	margin := time.Duration(vf.Int("margin", 0, 600)) * time.Second
	s := &vfServer{}
	bad := false
	f := &fetcher{
		domain: "d", athenzURL: "athenz.io", expiryMargin: margin,
		client: &http.Client{Transport: s},
		spVerifier: func(sp *SignedPolicy) error {
			if bad {
				return errors.New("invalid")
			}
			return nil
		},
	}
	roleOf := func(sp *SignedPolicy) string { return sp.SignedPolicyData.PolicyData.Policies[0].Assertions[0].Role }
	names := []string{"r0", "r1", "r2", "r3"}
	// the document that must be cached
	have, etag, role := false, "", ""
	var exp time.Time
	ctx := context.Background()
	for i := 0; i < vf.Q(3, 4); i++ {
		now := time.Now()
		wantHeader := have && etag != "" && exp.Add(-margin).After(now)
		kind := vf.Choice("kind", 4)
		newTag, newExp := "", now
		s.answer = func(req *http.Request) *vfReply {
			got, sent := req.Header["If-None-Match"]
			vf.Assert(sent == wantHeader, "If-None-Match is sent exactly while a tagged document is fresh")
			if sent {
				vf.Cover("conditional")
				vf.Assert(len(got) == 1 && got[0] == etag, "If-None-Match carries the cached document's ETag")
			}
			switch kind {
			case 1:
				return &vfReply{status: 304, etag: vf.StrOf("tag304", "xXy\"/W", 0, 1)}
			case 2:
				return &vfReply{status: 500, etag: "z"}
			}
			forms := []string{"", `W/"x"`, `"x"`, ` "x y"`, `"x-gzip"`, `"*"`, `*`}
			if newTag = forms[vf.Choice("form", vf.Q(4, len(forms)))]; newTag == "" {
				newTag = vf.StrOf("tag", "xXy\"/W", 0, 1)
			}
			newExp = now.Add(time.Duration(vf.Int("expiry", 1, 1000)) * time.Second)
			bad = kind == 3
			return &vfReply{status: 200, etag: newTag, body: vfJSON(vfAllowDoc(newExp, names[i]))}
		}
		sp, err := f.Fetch(ctx)
		vf.Assert(len(s.reqs) == i+1, "one request per fetch")
		switch kind {
		case 0:
			vf.Assert(err == nil && sp != nil && roleOf(sp) == "d:role."+names[i], "a verified document is returned")
			have, etag, role, exp = true, newTag, "d:role."+names[i], newExp
		case 1:
			if have {
				vf.Cover("not modified")
				vf.Assert(err == nil && sp != nil && roleOf(sp) == role, "a not-modified answer yields the cached document")
			} else {
				vf.Assert(err != nil, "a not-modified answer without a cached document is an error")
			}
		default:
			vf.Assert(err != nil && sp == nil, "a failed fetch returns an error and no document")
		}
		time.Sleep(time.Duration(1+200*vf.Choice("wait", 2)) * time.Second)
	}
}
