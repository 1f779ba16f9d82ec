package jwk

import (
	"errors"
	"net/http"
	"strings"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

var errVF = errors.New("connection refused")

// vfReply is what the server does with one request.
type vfReply struct {
	err    error
	status int
	body   string
	loc    string
	extra  [2]string
}

// vfServer answers JWK requests.
type vfServer struct {
	answer func(url string) *vfReply
	reqs   []string
}

func (s *vfServer) RoundTrip(req *http.Request) (*http.Response, error) {
	r := s.answer(req.URL.String())
	s.reqs = append(s.reqs, req.URL.String())
	if r.err != nil {
		return nil, r.err
	}
	h := http.Header{}
	if r.loc != "" {
		h.Set("Location", r.loc)
	}
	if r.extra[0] != "" {
		h.Set(r.extra[0], r.extra[1])
	}
	return &http.Response{StatusCode: r.status, Status: "status", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: &vfBody{strings.NewReader(r.body)}, ContentLength: -1, Request: req}, nil
}

type vfBody struct{ *strings.Reader }

func (b *vfBody) Close() error { return nil }

func vfNew(s *vfServer, opts ...Option) *jwkd {
	d, err := New(append([]Option{
		WithAthenzJwksURL("athenz.io/zts/v1"),
		WithHTTPClient(&http.Client{Transport: s}),
		WithRetryDelay("3s"),
		WithRefreshPeriod("10s"),
	}, opts...)...)
	if err != nil {
		vf.Assert(false, "the JWK daemon can be constructed")
		vf.Stop()
	}
	return d.(*jwkd)
}

const vfAthenz = "https://athenz.io/zts/v1/oauth2/keys?rfc=true"

// vfSet is a JWK set document; key 10 and above are symmetric keys.
func vfSet(keys map[string]int) string {
	s := ""
	for _, kid := range []string{"0", "1", "2"} {
		if k, ok := keys[kid]; ok {
			if s != "" {
				s += ","
			}
			s += vf.JWK(kid, k)
		}
	}
	return `{"keys":[` + s + `]}`
}

// vfServed tells which key is served: -1 none, -2 an unknown one.
func vfServed(d *jwkd, kid, url string) int {
	k := d.GetProvider()(kid, url)
	if k == nil {
		return -1
	}
	for i := 0; i < 3; i++ {
		if vf.SameKey(k, i) {
			return i
		}
	}
	return -2
}
