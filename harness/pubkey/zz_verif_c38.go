package pubkey

import (
	"context"
	"errors"
	"net/http"
	"strings"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// vfStuck is a server that may never answer.
type vfStuck struct {
	mode func(req *http.Request) int
	body func(req *http.Request) string
}

func (s *vfStuck) RoundTrip(req *http.Request) (*http.Response, error) {
	m := s.mode(req)
	switch m {
	case 1:
		return nil, errors.New("connection refused")
	case 2: // no answer
		<-req.Context().Done()
		return nil, req.Context().Err()
	}
	return &http.Response{StatusCode: 200, Status: "status", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: &vfStuckBody{strings.NewReader(s.body(req)), req.Context(), m == 3}, ContentLength: -1, Request: req}, nil
}

// vfStuckBody may stop before its end.
type vfStuckBody struct {
	rd    *strings.Reader
	ctx   context.Context
	stuck bool
}

func (b *vfStuckBody) Read(p []byte) (int, error) {
	if b.stuck {
		<-b.ctx.Done()
		return 0, b.ctx.Err()
	}
	return b.rd.Read(p)
}

func (b *vfStuckBody) Close() error { return nil }

// vfWound checks that everything that was started ends.
func vfWound(base int, ech <-chan error) {
	if ech != nil {
		closed := make(chan struct{})
		go func() {
			for range ech {
			}
			close(closed)
		}()
		time.Sleep(2 * time.Hour)
		select {
		case <-closed:
		default:
			vf.Assert(false, "the error channel is closed after the cancellation")
			vf.Stop()
		}
	} else {
		time.Sleep(2 * time.Hour)
	}
	vf.Assert(vf.Goroutines() <= base, "every goroutine has ended")
	vf.Cover("done")
}

// The refresher ends with its context, whatever the server does.
func VF_C38_Refresher() {
	base := vf.Goroutines()
	modes := map[AthenzEnv]*[2]int{EnvZTS: {}, EnvZMS: {}}
	for _, e := range []AthenzEnv{EnvZTS, EnvZMS} {
		for i := range modes[e] {
			modes[e][i] = vf.Choice("answer", 4)
		}
	}
	doc := vfDoc([]vfKey{{"0", 0}})
	k := map[AthenzEnv]int{}
	s := &vfStuck{mode: func(r *http.Request) int {
		e := vfEnvOf(r)
		k[e]++
		if k[e] <= 2 {
			return modes[e][k[e]-1]
		}
		return 0
	}, body: func(*http.Request) string { return doc }}
	d, err := New(WithAthenzURL("athenz.io/zts/v1"), WithHTTPClient(&http.Client{Transport: s}),
		WithRefreshPeriod("10s"), WithRetryDelay("3s"), WithETagExpiry("100s"), WithETagPurgePeriod("100s"))
	vf.Assert(err == nil, "the public key daemon can be constructed")
	ctx, cancel := context.WithCancel(context.Background())
	var ech <-chan error
	if vf.Choice("start", 2) == 1 {
		ech = d.Start(ctx)
	} else {
		go d.Update(ctx)
	}
	at := []time.Duration{0, 10 * time.Second, 11 * time.Second, 14 * time.Second, 24 * time.Second}
	time.Sleep(at[vf.Choice("at", vf.Q(4, 5))])
	cancel()
	vfWound(base, ech)
}
