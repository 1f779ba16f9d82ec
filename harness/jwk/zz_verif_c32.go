package jwk

import (
	"context"
	"errors"
	"io"
	"net/http"
	"strings"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// vfTracked is a body that records what is done with it.
type vfTracked struct {
	rd         *strings.Reader
	failAt     int // reads fail after failAt-1 bytes when > 0
	read       int
	closed     int
	afterClose bool
}

func (b *vfTracked) Read(p []byte) (int, error) {
	if b.closed > 0 {
		b.afterClose = true
		return 0, errors.New("read after close")
	}
	if b.failAt > 0 && b.read >= b.failAt-1 {
		return 0, io.ErrUnexpectedEOF
	}
	n, err := b.rd.Read(p)
	b.read += n
	return n, err
}

func (b *vfTracked) Close() error { b.closed++; return nil }

type vfTracker struct {
	answer func() *http.Response
	log    []*vfTracked
}

func (t *vfTracker) RoundTrip(req *http.Request) (*http.Response, error) {
	r := t.answer()
	if r == nil {
		return nil, errVF
	}
	r.Proto, r.ProtoMajor, r.ProtoMinor, r.Header, r.Request, r.ContentLength = "HTTP/1.1", 1, 1, http.Header{}, req, -1
	t.log = append(t.log, r.Body.(*vfTracked))
	return r, nil
}

// Bodies of every kind of answer, with reads failing anywhere.
func VF_C32_JWK() {
	bodies := []string{vfSet(map[string]int{"0": 0}), "{", "", "null", `{"keys":[{"kty":"RSA"}]}`, `{"keys":[]} trailing`}
	s := &vfTracker{}
	s.answer = func() *http.Response {
		if vf.Choice("refused", 2) == 1 {
			return nil
		}
		st := int(vf.Int("status", 200, 599))
		vf.Assume(vf.Or(st < 300, st >= 400))
		body := bodies[vf.Choice("body", len(bodies))]
		b := &vfTracked{rd: strings.NewReader(body)}
		b.failAt = []int{0, 1, 2, 20}[vf.Choice("failAt", 4)]
		return &http.Response{StatusCode: st, Status: "status", Body: b, ContentLength: []int64{-1, int64(len(body))}[vf.Choice("sized", 2)]}
	}
	d, err := New(WithAthenzJwksURL("athenz.io/zts/v1"), WithHTTPClient(&http.Client{Transport: s}), WithURLs([]string{"https://other/keys"}))
	if err != nil {
		vf.Assert(false, "the JWK daemon can be constructed")
		return
	}
	d.Update(context.Background())
	for _, b := range s.log {
		vf.Assert(b.closed > 0, "the body of every response is closed after the update")
		vf.Assert(!b.afterClose, "no body is used after it was closed")
	}
	if len(s.log) > 0 {
		vf.Cover("answered")
	}
}
