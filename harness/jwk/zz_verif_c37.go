package jwk

import (
	"context"
	"net/http"
	"strings"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// vfShared is a server without state of its own.
type vfShared struct {
	doc  string
	fail bool
}

func (s *vfShared) RoundTrip(req *http.Request) (*http.Response, error) {
	if s.fail {
		return nil, errVF
	}
	return &http.Response{StatusCode: 200, Status: "status", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: vfStatic{strings.NewReader(s.doc)}, ContentLength: -1, Request: req}, nil
}

type vfStatic struct{ *strings.Reader }

func (vfStatic) Close() error { return nil }

// Keys are used while they are refreshed.
func VF_C37_JwkUse() {
	vf.Races()
	s := &vfShared{`{"keys":[` + vf.JWK("0", 0) + `,` + vf.JWK("1", 1) + `]}`, vf.Choice("fail", 2) == 1}
	d, err := New(WithAthenzJwksURL("athenz.io/zts/v1"), WithHTTPClient(&http.Client{Transport: s}), WithRetryDelay("3s"),
		WithRefreshPeriod("10s"), WithURLs([]string{"http://extra/keys"}))
	if err != nil {
		vf.Assert(false, "the JWK daemon can be constructed")
		vf.Stop()
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if vf.Choice("loaded", 2) == 1 {
		d.Update(ctx)
	}
	kid, url := []string{"0", "9"}[vf.Choice("kid", 2)], []string{"", "http://extra/keys"}[vf.Choice("url", 2)]
	get := func() { d.GetProvider()(kid, url) }
	done := make(chan bool)
	x, y := vf.Choice("one", 3), vf.Choice("other", 3)
	vf.Assume(x <= y)
	one := func(op int) {
		switch op {
		case 0:
			d.Update(ctx)
		case 1:
			get()
		case 2:
			c, cn := context.WithCancel(ctx)
			ch := d.Start(c)
			time.Sleep(12 * time.Second)
			get()
			cn()
			for range ch {
			}
		}
		done <- true
	}
	go one(x)
	go one(y)
	<-done
	<-done
	vf.Cover("done")
}
