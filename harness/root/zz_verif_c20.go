package authorizerd

import (
	"context"
	"crypto/x509"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
	"github.com/yahoojapan/athenz-authorizer/v5/role"
)

// Histories of identical requests with changing outcomes and a moving clock.
func VF_C20_History() {
	exp := vf.Int("cacheExp", -5_000_000_000, 400_000_000_000)
	policyOn := vf.Choice("policy", 2) == 1
	opts := []Option{WithCacheExp(time.Duration(exp))}
	if !policyOn {
		opts = append(opts, WithDisablePolicyd())
	}
	a := vfAuthority(opts...)
	okTok, okPolicy := true, true
	// what the token says of its own times does not lengthen its stay in the cache
	life, age := vf.Int("life", -100, 1_000_000), vf.Int("age", -100, 1_000_000)
	begin := time.Now().Unix()
	roles := [][]string{{"r"}, {"r", "s", "t"}}[vf.Choice("roles", 2)]
	rp := &vfRole{f: func(string) (*role.Token, error) {
		if !okTok {
			return nil, errVF
		}
		return &role.Token{Domain: "d", Roles: roles, Principal: "p", ExpiryTime: time.Unix(begin+life, 0), TimeStamp: time.Unix(begin-age, 0)}, nil
	}}
	ap := &vfAccess{f: func(string, *x509.Certificate) (*access.OAuth2AccessTokenClaim, error) {
		if !okTok {
			return nil, errVF
		}
		return vfClaim("p", "d", roles, begin-age, begin+life, "c"), nil
	}}
	pd := &vfPolicy{f: func(domain string, roles []string, act, res string) ([]string, error) {
		if !okPolicy {
			return nil, errVF
		}
		return roles, nil
	}}
	a.roleProcessor, a.accessProcessor, a.policyd = rp, ap, pd
	kind := vf.Choice("kind", 2)
	ctx, cancel := context.WithCancel(context.Background())
	if vf.Choice("started", 2) == 1 {
		// the expiry daemon runs as well
		a.pubkeyd, a.jwkd = &vfPubkeyd{}, &vfJwkd{}
		vf.Assume(exp > 0)
		a.cache.StartExpired(ctx, 20*time.Second)
	}
	gaps := []time.Duration{0, time.Nanosecond, time.Second, 59 * time.Second, time.Minute, 150 * time.Second}
	var evaluated int64 // time of the success that may be reused
	usable := false
	for i := 0; i < vf.Q(3, 4); i++ {
		if i > 0 {
			time.Sleep(gaps[vf.Choice("gap", len(gaps))])
		}
		okTok, okPolicy = true, true
		switch vf.Choice("outcome", 3) {
		case 1:
			okTok = false
		case 2:
			okPolicy = !policyOn
		}
		before := rp.calls + ap.calls
		now := time.Now().UnixNano()
		var p Principal
		var err error
		if kind == 0 {
			p, err = a.AuthorizeAccessToken(ctx, "tok", "act", "res", nil)
		} else {
			p, err = a.AuthorizeRoleToken(ctx, "tok", "act", "res")
		}
		fresh := okTok && okPolicy
		if rp.calls+ap.calls > before {
			vf.Assert((err == nil) == fresh, "an evaluated request has its own outcome")
			usable = err == nil
			evaluated = now
			vf.Cover("evaluated")
			continue
		}
		vf.Cover("cached")
		vf.Assert(err == nil && p != nil, "only a success is served from the cache")
		vf.Assert(usable, "a result served from the cache was a success of the same request")
		vf.Assert(exp > 0, "nothing is served from the cache with a cache expiry that is not positive")
		vf.Assert(now-evaluated <= exp, "a result is served from the cache for at most the cache expiry")
	}
	cancel()
}

// Any cache expiry can be configured: the daemon starts, runs and stops.
func VF_C20_Start() {
	vf.Delays(vf.Q(1, 1))
	exps := []time.Duration{time.Minute, 2, 1, 0, -1, -time.Minute}
	exp := exps[vf.Choice("cacheExp", len(exps))]
	a := vfAuthority(WithCacheExp(exp), WithDisablePubkeyd(), WithDisablePolicyd(), WithDisableJwkd())
	rp := &vfRole{f: func(string) (*role.Token, error) {
		return &role.Token{Domain: "d", Roles: []string{"r"}, Principal: "p"}, nil
	}}
	a.roleProcessor = rp
	ctx, cancel := context.WithCancel(context.Background())
	ech := a.Start(ctx)
	vf.Settle()
	for i := 1; i < 3; i++ {
		_, err := a.AuthorizeRoleToken(ctx, "tok", "", "")
		vf.Assert(err == nil, "a valid token is authorized")
		vf.Assert(exp > 0 || rp.calls == i, "nothing is served from the cache with a cache expiry that is not positive")
	}
	cancel()
	n := 0
	for range ech {
		n++
	}
	vf.Assert(n == 1, "the cancellation is reported and the channel closed")
	vf.Cover("stopped")
}
