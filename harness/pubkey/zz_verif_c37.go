package pubkey

import (
	"context"
	"net/http"
	"strings"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// vfShared is a server without state of its own.
type vfShared struct {
	doc, etag string
	fail      bool
}

func (s *vfShared) RoundTrip(req *http.Request) (*http.Response, error) {
	if s.fail {
		return nil, errVF
	}
	status, body := 200, s.doc
	h := http.Header{}
	if s.etag != "" {
		h.Set("ETag", s.etag)
		if req.Header.Get("If-None-Match") == s.etag {
			status, body = 304, ""
		}
	}
	return &http.Response{StatusCode: status, Status: "status", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: vfStatic{strings.NewReader(body)}, ContentLength: -1, Request: req}, nil
}

type vfStatic struct{ *strings.Reader }

func (vfStatic) Close() error { return nil }

// Keys are used while they are refreshed.
func VF_C37_PubkeyUse() {
	vf.Races()
	s := &vfShared{doc: vfDoc([]vfKey{{"0", 0}, {"1", 1}}), etag: []string{"", `"v1"`}[vf.Choice("etag", 2)], fail: vf.Choice("fail", 2) == 1}
	d, err := New(WithAthenzURL("athenz.io/zts/v1"), WithHTTPClient(&http.Client{Transport: s}), WithRetryDelay("3s"),
		WithRefreshPeriod("10s"), WithETagExpiry("15s"), WithETagPurgePeriod("5s"))
	if err != nil {
		vf.Assert(false, "the public key daemon can be constructed")
		vf.Stop()
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if vf.Choice("loaded", 2) == 1 {
		d.Update(ctx)
	}
	env := []AthenzEnv{EnvZMS, EnvZTS}[vf.Choice("env", 2)]
	get := func() {
		if v := d.GetProvider()(env, "0"); v != nil {
			v.Verify("data", "sig")
		}
	}
	done := make(chan bool)
	x, y := vf.Choice("one", 3), vf.Choice("other", 3)
	vf.Assume(x <= y)
	one := func(op int) {
		switch op {
		case 0:
			d.Update(ctx)
		case 1:
			get()
		case 2:
			c, cn := context.WithCancel(ctx)
			ch := d.Start(c)
			time.Sleep(12 * time.Second)
			get()
			cn()
			for range ch {
			}
		}
		done <- true
	}
	go one(x)
	go one(y)
	<-done
	<-done
	vf.Cover("done")
}
