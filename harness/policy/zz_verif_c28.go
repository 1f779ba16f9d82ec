package policy

import (
	"context"
	"errors"
	"strings"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// The refresher over a sequence of failing and succeeding updates.
func VF_C28_Policy() {
	period := []time.Duration{10 * time.Second, 2 * time.Second}[vf.Choice("refresh", 2)]
	delay := 3 * time.Second
	updates, fails := 0, 0
	pending := false // a failed update has to be followed by another one
	start := time.Now()
	var last time.Time
	f := &vfFetcher{"d", func(context.Context) (*SignedPolicy, error) {
		updates++
		now := time.Now()
		if updates > 1 {
			vf.Assert(now.Sub(last) <= period || pending, "each tick triggers an update")
			vf.Assert(now.Sub(last) <= delay || !pending, "a failed update is retried after the retry delay")
		} else {
			vf.Assert(now.Sub(start) <= period, "the first tick triggers an update")
		}
		last = now
		pending = false
		doc := vfDoc("d", now.Add(time.Hour), []*util.Assertion{vfAss("d:role.r", "a", "d:x", "allow")})
		if updates > vf.Q(6, 9) {
			return doc, nil
		}
		switch vf.Choice("fails", 3) {
		case 1:
			fails++
			pending = true
			return nil, errors.New("unavailable")
		case 2:
			fails++
			pending = true
			return vfDoc("d", now.Add(time.Duration(-1000*vf.Choice("age", 2))*time.Second), []*util.Assertion{vfAss("d:role.r", "a", "d:x", "allow")}), errors.New("unavailable")
		}
		return doc, nil
	}}
	p := vfDaemon(f)
	p.refreshPeriod, p.retryDelay, p.purgePeriod = period, delay, time.Hour
	ctx, cancel := context.WithCancel(context.Background())
	ech := p.Start(ctx)
	reported := 0
	var lastErr error
	closed := make(chan struct{})
	go func() {
		for err := range ech {
			lastErr = err
			if !strings.Contains(err.Error(), context.Canceled.Error()) {
				reported++
			}
		}
		close(closed)
	}()
	run := period*time.Duration(vf.Q(2, 4)) + time.Duration(vf.Q(3, 5))*time.Second + 500*time.Millisecond
	time.Sleep(run)
	vf.Assert(updates >= int(run/(period+delay)), "updates go on")
	vf.Assert(reported == fails, "each failed update is reported on the error channel")
	vf.Assert(!pending || time.Now().Sub(last) <= delay, "a failed update is retried after the retry delay")
	vf.Assert(pending || time.Now().Sub(last) <= period, "each tick triggers an update")
	if fails > 0 {
		vf.Cover("failures")
	}
	cancel()
	time.Sleep(time.Minute)
	n := updates
	select {
	case <-closed:
	default:
		vf.Assert(false, "the error channel is closed after the cancellation")
	}
	vf.Assert(lastErr != nil && lastErr.Error() == context.Canceled.Error(), "the cancellation is reported last")
	time.Sleep(time.Minute)
	vf.Assert(updates == n, "no update after the refresher stopped")
}

// A long run of failures: every one of them is retried after the delay.
func VF_C28_Long() {
	n := vf.Choice("failures", vf.Q(10, 16))
	var at []time.Duration
	start := time.Now()
	f := &vfFetcher{"d", func(context.Context) (*SignedPolicy, error) {
		at = append(at, time.Now().Sub(start))
		if len(at) <= n {
			return nil, errors.New("unavailable")
		}
		return vfDoc("d", time.Now().Add(time.Hour), []*util.Assertion{vfAss("d:role.r", "a", "d:x", "allow")}), nil
	}}
	p := vfDaemon(f)
	p.refreshPeriod, p.retryDelay, p.purgePeriod = 100*time.Second, 3*time.Second, time.Hour
	ctx, cancel := context.WithCancel(context.Background())
	ech := p.Start(ctx)
	reported := 0
	go func() {
		for range ech {
			reported++
		}
	}()
	time.Sleep(150 * time.Second)
	vf.Assert(len(at) == n+1 && reported == n, "every failed update is reported and retried until one succeeds")
	for i, t := range at {
		if i == 0 {
			vf.Assert(t == 100*time.Second, "the first tick triggers an update")
		} else {
			vf.Assert(t-at[i-1] <= 3*time.Second, "a failed update is retried after the retry delay")
		}
	}
	vf.Cover("recovered")
	cancel()
}
