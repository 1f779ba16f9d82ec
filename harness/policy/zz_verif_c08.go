package policy

//vf:use http

import (
	"context"
	"errors"
	"net/http"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// Every sequence of attempt outcomes, with or without an earlier document.
func VF_C08_Retry() {
	n := vf.Choice("retries", vf.Q(4, 5))
	delay := time.Duration(1+vf.Choice("delay", 2)) * time.Second
	exp := time.Now().Add(time.Hour)
	bad := false
	outcome := -1
	var times []time.Time
	s := &vfServer{}
	s.answer = func(*http.Request) *vfReply {
		times = append(times, time.Now())
		bad = false
		switch outcome {
		case 0:
			return &vfReply{status: 200, body: vfJSON(vfAllowDoc(exp, "new"))}
		case 1:
			return &vfReply{err: errVF}
		case 2:
			st := int(vf.Int("status", 100, 599))
			vf.Assume(st != 200 && st != 304)
			return &vfReply{status: st}
		case 3:
			return &vfReply{status: 200, body: "{"}
		case 4:
			bad = true
			return &vfReply{status: 200, body: vfJSON(vfAllowDoc(exp, "bad"))}
		}
		return &vfReply{status: 200, body: vfJSON(vfAllowDoc(exp, "old"))}
	}
	f := &fetcher{
		domain: "d", athenzURL: "athenz.io", retryAttempts: n, retryDelay: delay, expiryMargin: time.Minute,
		client: &http.Client{Transport: s},
		spVerifier: func(sp *SignedPolicy) error {
			if bad {
				return errors.New("invalid")
			}
			return nil
		},
	}
	roleOf := func(sp *SignedPolicy) string { return sp.SignedPolicyData.PolicyData.Policies[0].Assertions[0].Role }
	ctx := context.Background()
	had := vf.Choice("had", 2) == 1
	if had {
		sp, err := f.Fetch(ctx)
		vf.Assert(err == nil && sp != nil, "a valid document is fetched")
		times = nil
	}
	orig := s.answer
	ok := false
	fails := 0
	s.answer = func(r *http.Request) *vfReply {
		outcome = vf.Choice("outcome", 5)
		if outcome == 0 {
			ok = true
		} else {
			fails++
		}
		return orig(r)
	}
	sp, err := f.FetchWithRetry(ctx)
	vf.Assert(len(times) <= n+1, "at most one initial attempt and the configured retries")
	for i := 1; i < len(times); i++ {
		vf.Assert(!times[i].Before(times[i-1].Add(delay)), "the retry delay passes before the next attempt")
	}
	if ok {
		vf.Cover("success")
		vf.Assert(err == nil && sp != nil && roleOf(sp) == "d:role.new", "the first document fetched successfully is returned")
		vf.Assert(len(times) == fails+1, "no attempt follows a success")
		return
	}
	vf.Cover("exhausted")
	vf.Assert(len(times) == n+1, "every configured retry is used")
	vf.Assert(err != nil, "an error is returned when every attempt fails")
	if had {
		vf.Assert(sp != nil && roleOf(sp) == "d:role.old", "the last good document is returned with the error")
	} else {
		vf.Assert(sp == nil, "there is no document to fall back to")
	}
}

// Another fetch of the same domain succeeds while this one is failing: the newest verified document is the fallback.
func VF_C08_Concurrent() {
	n := 1 + vf.Choice("retries", vf.Q(2, 3))
	exp := time.Now().Add(time.Hour)
	s := &vfServer{}
	sick := true
	ver := "old"
	s.answer = func(*http.Request) *vfReply {
		if sick {
			return &vfReply{err: errVF}
		}
		return &vfReply{status: 200, body: vfJSON(vfAllowDoc(exp, ver))}
	}
	f := &fetcher{
		domain: "d", athenzURL: "athenz.io", retryAttempts: n, retryDelay: 2 * time.Second, expiryMargin: time.Minute,
		client:     &http.Client{Transport: s},
		spVerifier: func(sp *SignedPolicy) error { return nil },
	}
	roleOf := func(sp *SignedPolicy) string { return sp.SignedPolicyData.PolicyData.Policies[0].Assertions[0].Role }
	ctx := context.Background()
	had := vf.Choice("had", 2) == 1
	if had {
		sick = false
		_, err := f.Fetch(ctx)
		vf.Assert(err == nil, "a valid document is fetched")
		sick = true
	}
	type result struct {
		sp  *SignedPolicy
		err error
	}
	done := make(chan result, 1)
	go func() {
		sp, err := f.FetchWithRetry(ctx)
		done <- result{sp, err}
	}()
	at := vf.Choice("at", 2*(n+1)) // seconds: all while the attempts go on
	wait := 500 * time.Millisecond
	for i := 0; i < at; i++ {
		wait += time.Second
	}
	time.Sleep(wait)
	sick, ver = false, "new"
	sp, err := f.Fetch(ctx)
	sick = true
	vf.Assert(err == nil && roleOf(sp) == "d:role.new", "a valid document is fetched")
	r := <-done
	vf.Assert(r.err != nil, "an error is returned when every attempt fails")
	vf.Assert(r.sp != nil && roleOf(r.sp) == "d:role.new", "the last good document is returned with the error")
	vf.Cover("done")
}
