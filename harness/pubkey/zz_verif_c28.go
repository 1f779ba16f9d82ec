package pubkey

import (
	"context"
	"net/http"
	"strings"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// The refresher over a sequence of failing and succeeding updates.
func VF_C28_PubKey() {
	refresh := []string{"10s", "2s"}[vf.Choice("refresh", 2)]
	period, _ := time.ParseDuration(refresh)
	delay := 3 * time.Second
	failing := false
	updates, fails := 0, 0
	pending := false // a failed update has to be followed by another one
	var last time.Time
	start := time.Now()
	env := EnvZTS
	if vf.Choice("env", 2) == 1 {
		env = EnvZMS
	}
	s := &vfServer{}
	s.answer = func(req *http.Request) *vfReply {
		if vfEnvOf(req) == env {
			updates++
			if updates > 1 {
				vf.Assert(time.Now().Sub(last) <= period || pending, "each tick triggers an update")
				if pending {
					vf.Assert(time.Now().Sub(last) <= delay, "a failed update is retried after the retry delay")
				}
			} else {
				vf.Assert(time.Now().Sub(start) <= period, "the first tick triggers an update")
			}
			last = time.Now()
			pending = false
			if updates <= vf.Q(6, 9) && vf.Choice("fails", 2) == 1 {
				failing = true
			}
			if failing {
				failing = false
				pending = true
				fails++
				st := int(vf.Int("status", 400, 599))
				return &vfReply{status: st}
			}
		}
		return &vfReply{status: 200, body: vfDoc([]vfKey{{"0", 0}})}
	}
	p := vfNew(s, WithRefreshPeriod(refresh))
	ctx, cancel := context.WithCancel(context.Background())
	ech := p.Start(ctx)
	reported := 0
	var lastErr error
	closed := make(chan struct{})
	go func() {
		for err := range ech {
			lastErr = err
			if !strings.Contains(err.Error(), context.Canceled.Error()) {
				reported++
			}
		}
		close(closed)
	}()
	run := period*time.Duration(vf.Q(2, 4)) + time.Duration(vf.Q(3, 5))*time.Second + 500*time.Millisecond
	time.Sleep(run)
	vf.Assert(updates >= int(run/(period+delay)), "updates go on")
	vf.Assert(reported == fails, "each failed update is reported on the error channel")
	vf.Assert(!pending || time.Now().Sub(last) <= delay, "a failed update is retried after the retry delay")
	vf.Assert(pending || time.Now().Sub(last) <= period, "each tick triggers an update")
	if fails > 0 {
		vf.Cover("failures")
	}
	cancel()
	time.Sleep(time.Minute)
	n := updates
	select {
	case <-closed:
	default:
		vf.Assert(false, "the error channel is closed after the cancellation")
	}
	vf.Assert(lastErr != nil && lastErr.Error() == context.Canceled.Error(), "the cancellation is reported last")
	time.Sleep(time.Minute)
	vf.Assert(updates == n, "no update after the refresher stopped")
}

// A long run of failures: every one of them is retried after the delay.
func VF_C28_Long() {
	n := vf.Choice("failures", vf.Q(10, 16))
	var at []time.Duration
	start := time.Now()
	s := &vfServer{}
	s.answer = func(req *http.Request) *vfReply {
		if vfEnvOf(req) == EnvZTS {
			at = append(at, time.Now().Sub(start))
			if len(at) <= n {
				return &vfReply{status: 503}
			}
		}
		return &vfReply{status: 200, body: vfDoc([]vfKey{{"0", 0}})}
	}
	p := vfNew(s, WithRefreshPeriod("100s"))
	ctx, cancel := context.WithCancel(context.Background())
	ech := p.Start(ctx)
	reported := 0
	go func() {
		for range ech {
			reported++
		}
	}()
	time.Sleep(150 * time.Second)
	vf.Assert(len(at) == n+1 && reported == n, "every failed update is reported and retried until one succeeds")
	for i, t := range at {
		if i == 0 {
			vf.Assert(t == 100*time.Second, "the first tick triggers an update")
		} else {
			vf.Assert(t-at[i-1] <= 3*time.Second, "a failed update is retried after the retry delay")
		}
	}
	vf.Cover("recovered")
	cancel()
}
