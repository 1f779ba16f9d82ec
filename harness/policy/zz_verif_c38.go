package policy

//vf:use http

import (
	"context"
	"errors"
	"net/http"
	"strings"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// vfStuck is a server that may never answer.
type vfStuck struct {
	mode func(req *http.Request) int
	body func(req *http.Request) string
}

func (s *vfStuck) RoundTrip(req *http.Request) (*http.Response, error) {
	m := s.mode(req)
	switch m {
	case 1:
		return nil, errors.New("connection refused")
	case 2: // no answer
		<-req.Context().Done()
		return nil, req.Context().Err()
	}
	return &http.Response{StatusCode: 200, Status: "status", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: &vfStuckBody{strings.NewReader(s.body(req)), req.Context(), m == 3}, ContentLength: -1, Request: req}, nil
}

// vfStuckBody may stop before its end.
type vfStuckBody struct {
	rd    *strings.Reader
	ctx   context.Context
	stuck bool
}

func (b *vfStuckBody) Read(p []byte) (int, error) {
	if b.stuck {
		<-b.ctx.Done()
		return 0, b.ctx.Err()
	}
	return b.rd.Read(p)
}

func (b *vfStuckBody) Close() error { return nil }

// vfWound checks that everything that was started ends.
func vfWound(base int, ech <-chan error) {
	if ech != nil {
		closed := make(chan struct{})
		go func() {
			for range ech {
			}
			close(closed)
		}()
		time.Sleep(2 * time.Hour)
		select {
		case <-closed:
		default:
			vf.Assert(false, "the error channel is closed after the cancellation")
			vf.Stop()
		}
	} else {
		time.Sleep(2 * time.Hour)
	}
	vf.Assert(vf.Goroutines() <= base, "every goroutine has ended")
	vf.Cover("done")
}

// Checks with any mix of roles, whether or not their context ends.
func VF_C38_Checks() {
	n := vf.Choice("roles", vf.Q(4, 5))
	names := []string{"r0", "r1", "r2", "r3"}
	as := []*util.Assertion{vfAss("d:role.other", "a", "d:x", "allow")}
	for i := 0; i < n; i++ {
		switch vf.Choice("kind", 4) {
		case 1:
			as = append(as, vfAss("d:role."+names[i], "a", "d:x", "allow"))
		case 2:
			as = append(as, vfAss("d:role."+names[i], "a", "d:x", "deny"))
		case 3:
			as = append(as, vfAss("d:role."+names[i], "b", "d:x", "deny"), vfAss("d:role."+names[i], "b", "d:x", "allow"))
		}
	}
	p := vfDaemon(vfFixed("d", vfDoc("d", time.Now().Add(100*time.Hour), as)))
	uctx, ucancel := context.WithCancel(context.Background())
	vf.Assert(p.Update(uctx) == nil, "the document loads")
	ucancel()
	time.Sleep(2 * time.Hour)
	base := vf.Goroutines()
	ctx, cancel := context.WithCancel(context.Background())
	cancelled := vf.Choice("cancelled", 2) == 1
	if cancelled {
		cancel()
	}
	vf.Delays(vf.Q(1, 2))
	p.CheckPolicyRoles(ctx, "d", names[:n], "a", "x")
	vf.Sequential()
	cancel()
	vfWound(base, nil)
}

// Checks with many roles that all have something to say.
func VF_C38_ManyRoles() {
	n := []int{10, 17, 33, 40}[vf.Choice("roles", vf.Q(3, 4))]
	denied := vf.Choice("denied", 3)
	var as []*util.Assertion
	var names []string
	for i := 0; i < n; i++ {
		name := "r" + string([]byte{byte('a' + i/8), byte('0' + i%8)})
		effect := "allow"
		if denied == 1 || denied == 2 && i == n/2 {
			effect = "deny"
		}
		names = append(names, name)
		as = append(as, vfAss("d:role."+name, "a", "d:x", effect))
	}
	p := vfDaemon(vfFixed("d", vfDoc("d", time.Now().Add(100*time.Hour), as)))
	uctx, ucancel := context.WithCancel(context.Background())
	vf.Assert(p.Update(uctx) == nil, "the document loads")
	ucancel()
	time.Sleep(time.Second)
	base := vf.Goroutines()
	err := p.CheckPolicy(context.Background(), "d", names, "a", "x")
	vf.Assert((err == nil) == (denied == 0), "the check is decided")
	vfWound(base, nil)
}

// Updates do not add goroutines, and the last ones end with the context.
func VF_C38_Updates() {
	base := vf.Goroutines()
	bad := false
	ok := vfDoc("d", time.Now().Add(100*time.Hour), []*util.Assertion{vfAss("d:role.r", "a", "d:x", "allow")})
	none, empty := vfDoc("d", time.Now().Add(100*time.Hour)), false
	f := &vfFetcher{"d", func(ctx context.Context) (*SignedPolicy, error) {
		if bad {
			return nil, errors.New("unavailable")
		}
		if empty {
			return none, nil
		}
		return ok, nil
	}}
	p := vfDaemon(f)
	if vf.Choice("domains", 2) == 1 {
		p = vfDaemon(f, vfFixed("e", vfDoc("e", time.Now().Add(100*time.Hour), []*util.Assertion{vfAss("e:role.r", "a", "e:x", "allow")})))
	}
	ctx, cancel := context.WithCancel(context.Background())
	n := 2 + vf.Choice("updates", vf.Q(2, 3))
	for i := 0; i < n; i++ {
		c := vf.Choice("answer", 3)
		bad, empty = c == 1, c == 2
		err := p.Update(ctx)
		vf.Assert((err != nil) == bad, "an update fails exactly when a domain does")
		time.Sleep(time.Second)
		vf.Assert(vf.Goroutines() <= base+1, "at most the purge of the policies in force goes on after an update")
	}
	cancel()
	vfWound(base, nil)
}

// The refresher ends with its context, whatever the server does.
func VF_C38_Refresher() {
	base := vf.Goroutines()
	var modes [3]int
	for i := range modes {
		modes[i] = vf.Choice("answer", 4)
	}
	doc := vfJSON(vfAllowDoc(time.Now().Add(100*time.Hour), "r"))
	k := 0
	s := &vfStuck{mode: func(*http.Request) int {
		k++
		if k <= len(modes) {
			return modes[k-1]
		}
		return 0
	}, body: func(*http.Request) string { return doc }}
	d, err := New(WithAthenzURL("athenz.io/zts/v1"), WithAthenzDomains("d"), WithHTTPClient(&http.Client{Transport: s}), WithPubKeyProvider(vfAcceptAll),
		WithRefreshPeriod("10s"), WithRetryDelay("3s"), WithRetryAttempts(1), WithPurgePeriod("1h"), WithExpiryMargin("1m"))
	vf.Assert(err == nil, "the policy daemon can be constructed")
	ctx, cancel := context.WithCancel(context.Background())
	var ech <-chan error
	if vf.Choice("start", 2) == 1 {
		ech = d.Start(ctx)
	} else {
		go d.Update(ctx)
	}
	at := []time.Duration{0, 10 * time.Second, 11 * time.Second, 14 * time.Second, 24 * time.Second}
	time.Sleep(at[vf.Choice("at", vf.Q(4, 5))])
	cancel()
	vfWound(base, ech)
}

// The refresh on the expiry of a policy ends with the context of the update, too.
func VF_C38_Expiry() {
	base := vf.Goroutines()
	k, mode := 0, vf.Choice("answer", 4)
	exp := time.Now().Add(30 * time.Minute)
	s := &vfStuck{mode: func(*http.Request) int {
		k++
		if k == 1 {
			return 0
		}
		return mode
	}, body: func(*http.Request) string { return vfJSON(vfAllowDoc(exp, "r")) }}
	d, err := New(WithAthenzURL("athenz.io/zts/v1"), WithAthenzDomains("d"), WithHTTPClient(&http.Client{Transport: s}), WithPubKeyProvider(vfAcceptAll),
		WithRefreshPeriod("100h"), WithRetryDelay("3s"), WithRetryAttempts(1), WithPurgePeriod("20m"), WithExpiryMargin("1m"))
	vf.Assert(err == nil, "the policy daemon can be constructed")
	ctx, cancel := context.WithCancel(context.Background())
	vf.Assert(d.Update(ctx) == nil, "the document loads")
	exp = time.Now().Add(100 * time.Hour)
	at := []time.Duration{10 * time.Minute, 40 * time.Minute, 40*time.Minute + 2*time.Second, time.Hour}
	time.Sleep(at[vf.Choice("at", len(at))])
	if k > 1 {
		vf.Cover("refreshed on expiry")
	}
	cancel()
	vfWound(base, nil)
}
