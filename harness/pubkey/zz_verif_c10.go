package pubkey

import (
	"context"
	"net/http"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// Updates answered by a hostile server.
func VF_C10_PubKey() {
	good := vfDoc([]vfKey{{"0", 0}})
	k := vf.YB64(vf.PubPEM(0))
	unusable := []string{
		"null", "[]", "\"x\"", "1", "", "{", "true",
		`{"publicKeys":[null]}`, `{"publicKeys":{}}`, `{"publicKeys":[1]}`, `{"publicKeys":"x"}`,
		`{"publicKeys":[{}]}`, `{"publicKeys":[{"id":null,"key":null}]}`, `{"publicKeys":[{"id":1,"key":"` + k + `"}]}`,
		`{"publicKeys":[{"id":"0","key":"` + k + `"},null]}`,
		`{"publicKeys":[{"id":"0","key":"` + k[1:] + `"}]}`,
		`{"publicKeys":[{"id":"0","key":"` + vf.YB64("-----BEGIN PUBLIC KEY-----\n-----END PUBLIC KEY-----\n") + `"}]}`,
	}
	bad := map[AthenzEnv]bool{}
	hostile := EnvZTS
	if vf.Choice("env", 2) == 1 {
		hostile = EnvZMS
	}
	answered := false
	s := &vfServer{}
	s.answer = func(req *http.Request) *vfReply {
		env := vfEnvOf(req)
		if env != hostile {
			return &vfReply{status: 200, body: good}
		}
		_, conditional := req.Header["If-None-Match"]
		st := int(vf.Int("status", 100, 999))
		vf.Assume(vf.Or(st < 300, st >= 400) || st == 304)
		if st != 200 {
			bad[env] = st != 304 || !conditional
			return &vfReply{status: st, etag: vf.StrOf("tag", "x", 0, 1)}
		}
		i := vf.Choice("body", len(unusable)+3)
		switch {
		case i < len(unusable):
			bad[env] = true
			return &vfReply{status: 200, body: unusable[i], etag: "t"}
		case i == len(unusable):
			bad[env] = false
			return &vfReply{status: 200, body: good, etag: "t"}
		case i == len(unusable)+1:
			bad[env] = true
			return &vfReply{status: 200, body: vf.StrOf("text", "[]nul\":", 0, vf.Q(3, 4)), etag: "t"}
		}
		answered = true // any outcome but a crash
		return &vfReply{status: 200, body: []string{`{}`, `{"publicKeys":null}`}[vf.Choice("empty", 2)], etag: "t"}
	}
	p := vfNew(s)
	for i := 0; i < vf.Q(2, 3); i++ {
		answered = false
		err := p.Update(context.Background())
		if err != nil {
			vf.Cover("failed")
		} else {
			vf.Cover("updated")
		}
		if !answered {
			vf.Assert((err != nil) == bad[hostile], "an update fails exactly when an answer is unusable")
		}
	}
}

// Headers of any kind with short or odd values.
func VF_C10_PubKeyHeaders() {
	names := []string{"Content-Type", "ETag", "Date", "Expires", "Last-Modified", "Retry-After", "Cache-Control", "Content-Length", "Content-Encoding", "Warning"}
	values := []string{"", "x", "text", "W/", "\"", "-1", "a;b=c,d", "max-age="}
	name, value := names[vf.Choice("name", len(names))], values[vf.Choice("value", len(values))]
	s := &vfServer{}
	st := 0
	s.answer = func(req *http.Request) *vfReply {
		if vfEnvOf(req) != EnvZTS {
			return &vfReply{status: 200, body: vfDoc([]vfKey{{"0", 0}})}
		}
		st = []int{200, 304, 429, 503}[vf.Choice("status", 4)]
		body := vfDoc([]vfKey{{"0", 0}})
		if st == 304 {
			body = ""
		}
		return &vfReply{status: st, body: body, extra: [2]string{name, value}}
	}
	p := vfNew(s)
	for i := 0; i < 2; i++ {
		err := p.Update(context.Background())
		vf.Assert(err == nil || st != 200, "usable keys are loaded whatever the headers are")
		if err == nil {
			vf.Cover("updated")
			vf.Assert(p.GetProvider()(EnvZTS, "0") != nil, "loaded keys are served")
		} else {
			vf.Cover("failed")
		}
	}
}
