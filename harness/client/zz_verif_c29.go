package client

import (
	"context"
	"errors"
	"net/http"
	"strings"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

type vfNetErr struct{ temporary bool }

func (e *vfNetErr) Error() string   { return "net" }
func (e *vfNetErr) Temporary() bool { return e.temporary }
func (e *vfNetErr) Timeout() bool   { return true }

var errVF = errors.New("refused")

type vfBody struct {
	rd     *strings.Reader
	read   int
	closed int
}

func (b *vfBody) Read(p []byte) (int, error) {
	if b.closed > 0 {
		return 0, errors.New("read after close")
	}
	n, err := b.rd.Read(p)
	b.read += n
	return n, err
}

func (b *vfBody) Close() error { b.closed++; return nil }

type vfAttempt struct {
	at      int64
	resp    *http.Response
	body    *vfBody
	err     error
	retried bool // the outcome may be retried
}

type vfTransport struct {
	t    []*vfAttempt
	reqs []*http.Request
}

func (t *vfTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	a := &vfAttempt{at: time.Now().UnixNano()}
	t.t = append(t.t, a)
	t.reqs = append(t.reqs, req)
	if vf.Choice("takes", 2) == 1 {
		time.Sleep(300 * time.Millisecond)
	}
	switch vf.Choice("outcome", 4) {
	case 0:
		st := vf.Int("status", 100, 599)
		a.body = &vfBody{rd: strings.NewReader("body")}
		a.resp = &http.Response{StatusCode: int(st), Body: a.body, Request: req, Header: http.Header{}}
		a.retried = vf.Or(vf.Or(st == 429, st == 500), vf.Or(st == 503, st == 504))
	case 1:
		a.err, a.retried = &vfNetErr{true}, true
	case 2:
		a.err = &vfNetErr{false}
	case 3:
		a.err = errVF
	}
	return a.resp, a.err
}

// Every sequence of outcomes of the wrapped transport.
func VF_C29_Outcomes() {
	max := vf.Choice("max", vf.Q(5, 6)) - 1
	factors := []float64{1, 2, 5, 0.5}
	dts := []int64{1_000_000_000, 250_000_000, 40_000_000, 4_000_000_000}
	fi := vf.Choice("factor", vf.Q(3, 4))
	limits := []time.Duration{-time.Second, 0, 900 * time.Millisecond, 4500 * time.Millisecond, time.Hour}
	limit := limits[vf.Choice("limit", len(limits))]
	t := &vfTransport{}
	p, err := NewExponentialRoundTripper(t, factors[fi], max, limit)
	if err != nil {
		vf.Assert(false, "the transport can be constructed")
		vf.Stop()
	}
	req, err := http.NewRequest("GET", "https://h/x", nil)
	if err != nil {
		vf.Stop()
	}
	begin := time.Now().UnixNano()
	resp, err := p.RoundTrip(req)
	end := time.Now().UnixNano()
	n := len(t.t)
	vf.Assert(n >= 1, "the request is sent")
	vf.Assert(n <= 1 || n <= max, "the request is sent at most the configured number of times")
	for _, r := range t.reqs {
		vf.Assert(r == req, "it is the request that is sent")
	}
	for i, a := range t.t[:n-1] {
		vf.Assert(a.retried, "only temporary errors and retryable statuses are retried")
		if a.body != nil {
			vf.Assert(a.body.closed >= 1, "the body of a response that is not returned is closed")
		}
		wait := dts[fi] * int64(2*i+1)
		vf.Assert(t.t[i+1].at >= a.at+wait, "a retry waits")
		vf.Assert(t.t[i+1].at <= begin+int64(limit), "there is no retry after the time limit")
		vf.Assert(t.t[i+1].at <= a.at+300_000_000+wait, "a retry waits no longer than the backoff")
	}
	last := t.t[n-1]
	vf.Assert((resp != nil) != (err != nil), "there is either a response or an error")
	vf.Assert(resp == last.resp && err == last.err, "the last outcome is the one returned")
	if resp != nil {
		vf.Cover("response")
		vf.Assert(last.body.closed == 0 && last.body.read == 0 && resp.Body != nil, "the body of the returned response is open and unread")
	} else {
		vf.Cover("error")
	}
	wait := dts[fi] * int64(2*n-1)
	more := n < max && end+wait < begin+int64(limit)
	if more {
		vf.Assert(vf.Not(last.retried), "a retryable outcome is retried while count and time allow")
		vf.Cover("final outcome")
	}
	if n > 1 {
		vf.Cover("retried")
	}
	vf.Assert(end-last.at <= 300_000_000, "there is no waiting after the last attempt")
}

// A request whose context ends while it is retried.
func VF_C29_Cancelled() {
	t := &vfTransport{}
	p, err := NewExponentialRoundTripper(t, 1, 1+vf.Choice("max", vf.Q(3, 4)), time.Hour)
	if err != nil {
		vf.Assert(false, "the transport can be constructed")
		vf.Stop()
	}
	ctx, cancel := context.WithCancel(context.Background())
	req, err := http.NewRequest("GET", "https://h/x", nil)
	if err != nil {
		vf.Stop()
	}
	after := []time.Duration{0, 100 * time.Millisecond, 500 * time.Millisecond, 2 * time.Second}[vf.Choice("after", 4)]
	if after == 0 {
		cancel()
	} else {
		go func() {
			time.Sleep(after)
			cancel()
		}()
	}
	resp, rerr := p.RoundTrip(req.WithContext(ctx))
	vf.Assert((resp != nil) != (rerr != nil), "there is either a response or an error")
	for _, a := range t.t {
		if a.body != nil && a.resp != resp {
			vf.Assert(a.body.closed >= 1, "the body of a response that is not returned is closed")
		}
	}
	if resp != nil {
		last := t.t[len(t.t)-1]
		vf.Assert(resp == last.resp && last.body.closed == 0 && last.body.read == 0, "the body of the returned response is open and unread")
	}
	vf.Cover("done")
}

// A second request through the same round tripper, later: its own budget.
func VF_C29_Again() {
	t := &vfTransport{}
	p, err := NewExponentialRoundTripper(t, 1, 2, 4*time.Second)
	if err != nil {
		vf.Assert(false, "the transport can be constructed")
		vf.Stop()
	}
	for i := 0; i < 2; i++ {
		req, err := http.NewRequest("GET", "https://h/x", nil)
		if err != nil {
			vf.Stop()
		}
		from := len(t.t)
		resp, rerr := p.RoundTrip(req)
		mine := t.t[from:]
		vf.Assert(len(mine) == 1 || len(mine) == 2, "the request is sent at most the configured number of times")
		last := mine[len(mine)-1]
		vf.Assert(resp == last.resp && rerr == last.err, "the last outcome is the one returned")
		vf.Assert(vf.Iff(len(mine) == 2, mine[0].retried), "every request is retried as configured, whatever came before")
		time.Sleep([]time.Duration{0, time.Hour}[vf.Choice("pause", 2)])
	}
	vf.Cover("two requests")
}
