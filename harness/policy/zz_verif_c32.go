package policy

//vf:use http

import (
	"context"
	"net/http"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// Bodies of every kind of answer, with reads failing anywhere.
func VF_C32_Policy() {
	good := vfJSON(vfDoc("d", time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC), []*util.Assertion{vfAss("d:role.r", "a", "d:x", "ALLOW")}))
	bodies := []string{good, "{", "", "null", `{"signedPolicyData":null}`, good + " trailing"}
	s := &vfServer{}
	s.answer = func(req *http.Request) *vfReply {
		st := int(vf.Int("status", 200, 599))
		vf.Assume(vf.Or(st < 300, st >= 400) || st == 304)
		r := &vfReply{status: st, body: bodies[vf.Choice("body", len(bodies))], etag: vf.StrOf("tag", "x", 0, 1)}
		r.sized = len(r.body) < 5 && vf.Choice("sized", 2) == 1
		r.failAt = []int{0, 1, 20, len(good) + 3}[vf.Choice("failAt", 4)]
		return r
	}
	p := vfClientDaemon(s, WithRetryAttempts(1))
	if vf.Choice("retry", 2) == 1 {
		p.Update(context.Background())
	} else {
		p.fetchers["d"].Fetch(context.Background())
		p.fetchers["d"].Fetch(context.Background())
	}
	for _, r := range s.log {
		vf.Assert(r.closed > 0, "the body of every response is closed after the fetch")
		vf.Assert(!r.afterClose, "no body is used after it was closed")
	}
	vf.Cover("done")
}
