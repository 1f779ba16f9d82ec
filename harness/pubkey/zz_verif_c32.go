package pubkey

import (
	"context"
	"net/http"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// Bodies of every kind of answer, with reads failing anywhere.
func VF_C32_PubKey() {
	bodies := []string{vfDoc([]vfKey{{"0", 0}}), "{", "", "null", `{"publicKeys":[null]}`, `{"publicKeys":[{"key":"!"}]} trailing`}
	s := &vfServer{}
	s.answer = func(req *http.Request) *vfReply {
		if vfEnvOf(req) == EnvZMS {
			return &vfReply{status: 200, body: bodies[0]}
		}
		st := int(vf.Int("status", 200, 599))
		vf.Assume(vf.Or(st < 300, st >= 400) || st == 304)
		r := &vfReply{status: st, body: bodies[vf.Choice("body", len(bodies))], etag: vf.StrOf("tag", "x", 0, 1)}
		r.sized = len(r.body) < 5 && vf.Choice("sized", 2) == 1
		r.failAt = []int{0, 1, 2, 20}[vf.Choice("failAt", 4)]
		return r
	}
	p := vfNew(s)
	for i := 0; i < vf.Q(2, 2); i++ {
		p.Update(context.Background())
		vf.Assert(len(s.log) == 2*(i+1), "one request per environment")
		for _, r := range s.log {
			vf.Assert(r.closed > 0, "the body of every response is closed after the update")
			vf.Assert(!r.afterClose, "no body is used after it was closed")
		}
	}
	vf.Cover("done")
}
