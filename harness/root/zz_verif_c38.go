package authorizerd

//vf:use net

import (
	"context"
	"errors"
	"net/http"
	"strings"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// vfStuck is a server that may never answer.
type vfStuck struct {
	mode func(req *http.Request) int
	body func(req *http.Request) string
}

func (s *vfStuck) RoundTrip(req *http.Request) (*http.Response, error) {
	m := s.mode(req)
	switch m {
	case 1:
		return nil, errors.New("connection refused")
	case 2: // no answer
		<-req.Context().Done()
		return nil, req.Context().Err()
	}
	return &http.Response{StatusCode: 200, Status: "status", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: &vfStuckBody{strings.NewReader(s.body(req)), req.Context(), m == 3}, ContentLength: -1, Request: req}, nil
}

// vfStuckBody may stop before its end.
type vfStuckBody struct {
	rd    *strings.Reader
	ctx   context.Context
	stuck bool
}

func (b *vfStuckBody) Read(p []byte) (int, error) {
	if b.stuck {
		<-b.ctx.Done()
		return 0, b.ctx.Err()
	}
	return b.rd.Read(p)
}

func (b *vfStuckBody) Close() error { return nil }

// vfWound checks that everything that was started ends.
func vfWound(base int, ech <-chan error) {
	if ech != nil {
		closed := make(chan struct{})
		go func() {
			for range ech {
			}
			close(closed)
		}()
		time.Sleep(2 * time.Hour)
		select {
		case <-closed:
		default:
			vf.Assert(false, "the error channel is closed after the cancellation")
			vf.Stop()
		}
	} else {
		time.Sleep(2 * time.Hour)
	}
	vf.Assert(vf.Goroutines() <= base, "every goroutine has ended")
	vf.Cover("done")
}

// Everything the authorizer started ends with its context, whatever the servers do.
func VF_C38_Authorizer() {
	base := vf.Goroutines()
	kinds := []string{"/service/", "/oauth2/keys", "/signed_policy_data"}
	var modes [3][2]int
	for i := range kinds {
		modes[i][0] = vf.Choice("first", 4)
		modes[i][1] = vf.Choice("later", vf.Q(2, 4))
		if modes[i][1] == 1 {
			modes[i][1] = 2
		}
	}
	pub, keys, dom := vfPubDoc(), vfJwkDoc(), vfPolicyDoc("dom", "a", time.Now().Add(100*time.Hour))
	docs := []string{pub, keys, dom}
	of := func(r *http.Request) int {
		for i, k := range kinds {
			if strings.Contains(r.URL.Path, k) {
				return i
			}
		}
		return 0
	}
	begin := time.Now()
	s := &vfStuck{mode: func(r *http.Request) int {
		if time.Now().Sub(begin) < time.Second {
			return modes[of(r)][0]
		}
		return modes[of(r)][1]
	}, body: func(r *http.Request) string { return docs[of(r)] }}
	a, err := New(WithHTTPClient(&http.Client{Transport: s}), WithAthenzDomains("dom"), WithAccessTokenParam(NewAccessTokenParam(true, false, "", "", false, nil)),
		WithPolicyRefreshPeriod("10s"), WithPubkeyRefreshPeriod("10s"), WithJwkRefreshPeriod("10s"),
		WithPolicyRetryDelay("3s"), WithPubkeyRetryDelay("3s"), WithJwkRetryDelay("3s"), WithPolicyRetryAttempts(1))
	vf.Assert(err == nil, "the authorizer can be constructed")
	ctx, cancel := context.WithCancel(context.Background())
	initialized := make(chan error, 1)
	go func() { initialized <- a.Init(ctx) }()
	time.Sleep(8 * time.Second)
	var ech <-chan error
	if vf.Choice("start", 2) == 1 {
		ech = a.Start(ctx)
	}
	at := []time.Duration{0, 11 * time.Second, 25 * time.Second}
	time.Sleep(at[vf.Choice("at", vf.Q(2, 3))])
	cancel()
	vfWound(base, ech)
	select {
	case <-initialized:
	default:
		vf.Assert(false, "the initialization ends")
	}
}

// Authorizations leave nothing running.
func VF_C38_Authorize() {
	pub, keys, dom := vfPubDoc(), vfJwkDoc(), vfPolicyDoc("dom", "a", time.Now().Add(100*time.Hour))
	s := &vfStuck{mode: func(r *http.Request) int { return 0 }, body: func(r *http.Request) string {
		switch {
		case strings.Contains(r.URL.Path, "/service/"):
			return pub
		case strings.Contains(r.URL.Path, "/oauth2/keys"):
			return keys
		}
		return dom
	}}
	a, err := New(WithHTTPClient(&http.Client{Transport: s}), WithAthenzDomains("dom"))
	vf.Assert(err == nil, "the authorizer can be constructed")
	ictx, icancel := context.WithCancel(context.Background())
	vf.Assert(a.Init(ictx) == nil, "the authorizer initializes")
	icancel()
	time.Sleep(time.Second)
	base := vf.Goroutines()
	head := "d=dom;r=" + []string{"a", "b", "b,a"}[vf.Choice("roles", 3)] + ";p=prin;e=9999999999;t=7;k=0"
	tok := head + ";s=" + vf.ZMSSign(head, vf.Choice("key", 2))
	ctx, cancel := context.WithCancel(context.Background())
	if vf.Choice("cancelled", 2) == 1 {
		cancel()
	}
	vf.Delays(1)
	for i := 0; i < 2; i++ {
		a.AuthorizeRoleToken(ctx, tok, "act", []string{"res", "other"}[vf.Choice("res", 2)])
	}
	vf.Sequential()
	cancel()
	vfWound(base, nil)
}
