package jwk

import (
	"context"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// Updates answered by a hostile server, with lookups afterwards.
func VF_C10_JWK() {
	bodies := []string{
		"null", "{}", "[]", "\"x\"", "1", "", "{", "true",
		`{"keys":null}`, `{"keys":[null]}`, `{"keys":{}}`, `{"keys":[1]}`, `{"keys":[{}]}`, `{"keys":[{"kty":null}]}`,
		`{"keys":[{"kty":"RSA","kid":"0"}]}`, `{"keys":[{"kty":"RSA","kid":"0","n":"","e":""}]}`, `{"keys":[{"kty":"RSA","kid":null,"n":"!","e":"AQAB"}]}`,
		`{"keys":[{"kty":"EC","kid":"0","crv":"P-256","x":"AA","y":"AA"}]}`, `{"keys":[{"kty":"EC","kid":"0","crv":"x","x":"AA","y":"AA"}]}`,
		`{"keys":[{"kty":"oct","kid":"0","k":""}]}`, `{"keys":[{"kty":"OKP","kid":"0","crv":"Ed25519","x":"AA"}]}`,
		`{"kty":"RSA","kid":"0","n":"AQAB","e":"AQAB"}`,
		vfSet(map[string]int{"0": 0}),
	}
	s := &vfServer{}
	good := false
	s.answer = func(url string) *vfReply {
		st := int(vf.Int("status", 100, 999))
		vf.Assume(vf.Or(st < 300, st >= 400))
		i := 0
		good = false
		if st == 200 {
			i = vf.Choice("body", len(bodies))
			good = i == len(bodies)-1
		}
		return &vfReply{status: st, body: bodies[i]}
	}
	d := vfNew(s)
	for i := 0; i < vf.Q(2, 3); i++ {
		err := d.Update(context.Background())
		if err != nil {
			vf.Cover("failed")
		} else {
			vf.Cover("updated")
		}
		vf.Assert(err == nil || !good, "a usable answer is not an error")
		for _, kid := range []string{"0", "", "x"} {
			d.GetProvider()(kid, "")
			d.GetProvider()(kid, "https://a.example")
		}
	}
}

// Headers of any kind with short or odd values.
func VF_C10_JWKHeaders() {
	names := []string{"Content-Type", "ETag", "Date", "Expires", "Last-Modified", "Retry-After", "Cache-Control", "Content-Length", "Content-Encoding", "Warning"}
	values := []string{"", "x", "text", "W/", "\"", "-1", "a;b=c,d", "max-age="}
	name, value := names[vf.Choice("name", len(names))], values[vf.Choice("value", len(values))]
	s := &vfServer{}
	st := 0
	s.answer = func(url string) *vfReply {
		st = []int{200, 204, 429, 503}[vf.Choice("status", 4)]
		return &vfReply{status: st, body: vfSet(map[string]int{"0": 0}), extra: [2]string{name, value}}
	}
	d := vfNew(s)
	for i := 0; i < 2; i++ {
		err := d.Update(context.Background())
		vf.Assert((err == nil) == (st == 200), "a usable key set is loaded whatever the headers are")
		if err == nil {
			vf.Cover("updated")
			vf.Assert(d.GetProvider()("0", "") != nil, "loaded keys are served")
		} else {
			vf.Cover("failed")
		}
	}
}
