package policy

//vf:use http

import (
	"context"
	"net/http"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// One fetched document, then rounds of waiting and refreshing against a server
// that fails, answers not-modified, sends the document again or a new one.
func VF_C05_Refresh() {
	start := time.Now()
	exp := start.Add(time.Duration(vf.Int("expiry", 1, 1800)) * time.Second)
	mode := 2
	shape := vf.Choice("shape", 4)
	doc := func(exp time.Time) *SignedPolicy {
		allow := vfAss("d:role.r", "a", "d:x", "ALLOW")
		switch shape {
		case 1: // several assertions of the role
			return vfDoc("d", exp, []*util.Assertion{allow, vfAss("d:role.r", "b", "d:x", "ALLOW")})
		case 2:
			return vfDoc("d", exp, []*util.Assertion{allow}, []*util.Assertion{vfAss("d:role.r", "b", "d:x", "deny")})
		case 3: // other roles
			return vfDoc("d", exp, []*util.Assertion{allow}, []*util.Assertion{vfAss("d:role.q", "a", "d:x", "deny")})
		}
		return vfAllowDoc(exp, "r")
	}
	s := &vfServer{}
	s.answer = func(req *http.Request) *vfReply {
		switch mode {
		case 1:
			return &vfReply{status: 304}
		case 2:
			return &vfReply{status: 200, etag: "e", body: vfJSON(doc(exp))}
		case 3:
			return &vfReply{err: errVF}
		}
		return &vfReply{status: 500}
	}
	p := vfClientDaemon(s)
	ctx := context.Background()
	if p.Update(ctx) != nil {
		vf.Assert(false, "a valid document is accepted")
	}
	inForce := exp
	rounds := vf.Q(2, 3)
	if shape > 1 {
		rounds = 1
	}
	for i := 0; i < rounds; i++ {
		time.Sleep(time.Duration(1+6*vf.Choice("wait", 2)) * time.Minute)
		mode = vf.Choice("mode", 5)
		if mode == 4 {
			mode = 2
			exp = time.Now().Add(time.Duration(vf.Int("renew", 1, 1800)) * time.Second)
		}
		err := p.Update(ctx)
		if mode == 2 && exp.After(time.Now()) {
			vf.Assert(err == nil, "a valid document is accepted")
			inForce = exp
		}
		time.Sleep(time.Duration(1+4*vf.Choice("use", 2)) * time.Minute)
		now := time.Now()
		granted := vfGranted(p, "r")
		vf.Observe("granted", granted)
		if granted {
			vf.Cover("granted")
		} else {
			vf.Cover("expired")
		}
		vf.Assert(!granted || !now.After(inForce), "nothing is granted on an expired document")
		vf.Assert(granted || !now.Before(inForce), "a document stays in force until it expires")
	}
}
