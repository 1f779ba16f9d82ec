package authorizerd

//vf:use net

import (
	"context"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

type vfSetting struct {
	name string
	opt  func(string) Option
}

var vfSettings = []vfSetting{
	{"pubkey refresh period", WithPubkeyRefreshPeriod},
	{"pubkey retry delay", WithPubkeyRetryDelay},
	{"pubkey ETag expiry", WithPubkeyETagExpiry},
	{"pubkey ETag purge period", WithPubkeyETagPurgePeriod},
	{"policy expiry margin", WithPolicyExpiryMargin},
	{"policy refresh period", WithPolicyRefreshPeriod},
	{"policy purge period", WithPolicyPurgePeriod},
	{"policy retry delay", WithPolicyRetryDelay},
	{"jwk refresh period", WithJwkRefreshPeriod},
	{"jwk retry delay", WithJwkRetryDelay},
	{"certificate backdate", func(s string) Option {
		return WithAccessTokenParam(NewAccessTokenParam(true, true, s, "1h", false, nil))
	}},
	{"certificate offset", func(s string) Option {
		return WithAccessTokenParam(NewAccessTokenParam(true, true, "1h", s, false, nil))
	}},
}

// Every setting refuses what is not a duration and nothing else.
func VF_C33_Invalid() {
	i := vf.Choice("setting", len(vfSettings))
	s := vf.StrOf("duration", "12.-hmsu", 0, vf.Q(4, 5))
	d, perr := time.ParseDuration(s)
	bad := s != "" && perr != nil
	// what a refresher cannot run with is not decided here
	vf.Assume(s == "" || bad || d > 0)
	_, err := New(WithHTTPClient(vfSlowTrans), vfSettings[i].opt(s))
	vf.Assert((err != nil) == bad, "construction fails exactly for an invalid duration")
	if bad {
		vf.Cover("refused")
	} else {
		vf.Cover("taken")
	}
}

func vfDurations(values ...string) (string, time.Duration) {
	i := vf.Choice("value", len(values)+1)
	if i == 0 {
		return "", 0
	}
	d, err := time.ParseDuration(values[i-1])
	if err != nil {
		vf.Stop()
	}
	return values[i-1], d
}

func vfFails(vfRequest) (int, string, string, error) { return 0, "", "", errVF }

// vfTimes checks that requests happen at from, from+step, from+2*step, ... and nowhere else.
func vfTimes(reqs []vfRequest, from, step time.Duration, n int) {
	vf.Assert(len(reqs) > 0, "the refresher sends requests")
	seen := map[time.Duration]bool{}
	for _, r := range reqs {
		vf.Assert(r.at >= from, "nothing is requested before the refresh period has passed")
		vf.Assert(step == 0 || (r.at-from)%step == 0, "attempts are made at multiples of the retry delay")
		seen[r.at] = true
	}
	vf.Assert(seen[from], "the first refresh happens after the refresh period")
	if n > 0 {
		vf.Assert(seen[from+step], "the next attempt happens after the retry delay")
	}
}

// Which refresh period and retry delay each refresher lives by.
func VF_C33_Refreshers() {
	kind := vf.Choice("kind", 3)
	net := vfNewNet(vfFails)
	opts := []Option{WithHTTPClient(net.client()), WithAthenzDomains("dom"), WithDisableRoleCert(), WithCacheExp(1000 * time.Hour)}
	// everything that is not under test lives by other periods
	for i, s := range vfSettings[:10] {
		if vf.Q(0, 1) == 0 || vf.Choice("others", 2) == 0 {
			opts = append(opts, s.opt(fmt.Sprintf("%dm", 400+7*i)))
		}
	}
	rs, refresh := vfDurations("20m", "1h30m", "90s", "45s")
	ds, delay := vfDurations("10s", "4m", "1500ms")
	part := ""
	switch kind {
	case 0:
		opts = append(opts, WithPubkeyRefreshPeriod(rs), WithPubkeyRetryDelay(ds), WithDisablePolicyd(), WithDisableJwkd())
		part = "/service/"
		if rs == "" {
			refresh = 24 * time.Hour
		}
	case 1:
		opts = append(opts, WithPolicyRefreshPeriod(rs), WithPolicyRetryDelay(ds), WithPolicyRetryAttempts(1), WithDisablePubkeyd(), WithDisableJwkd())
		part = "/signed_policy_data"
		if rs == "" {
			refresh = 30 * time.Minute
		}
	case 2:
		opts = append(opts, WithJwkRefreshPeriod(rs), WithJwkRetryDelay(ds), WithDisablePubkeyd(), WithDisablePolicyd())
		part = "/oauth2/keys"
		if rs == "" {
			refresh = 24 * time.Hour
		}
	}
	if ds == "" {
		delay = time.Minute
	}
	a, err := New(opts...)
	if err != nil {
		vf.Assert(false, "valid settings are accepted")
		vf.Stop()
	}
	ctx, cancel := context.WithCancel(context.Background())
	ech := a.Start(ctx)
	go func() {
		for range ech {
		}
	}()
	time.Sleep(refresh + 3*delay + delay/2)
	n := len(net.reqs)
	cancel()
	vf.Assert(n == len(net.to(part)), "only the enabled refresher sends requests")
	vfTimes(net.reqs, refresh, delay, 1)
	time.Sleep(3 * delay)
}

// How often and at which pace a failing policy request is repeated.
func VF_C33_Attempts() {
	net := vfNewNet(vfFails)
	ds, delay := vfDurations("10s", "4m")
	if ds == "" {
		delay = time.Minute
	}
	attempts := vf.Choice("attempts", vf.Q(5, 7)) // 0: default
	a, err := New(WithHTTPClient(net.client()), WithAthenzDomains("dom"), WithDisableRoleCert(), WithDisablePubkeyd(), WithDisableJwkd(),
		WithPolicyRetryDelay(ds), WithPolicyRetryAttempts(attempts))
	if err != nil {
		vf.Assert(false, "valid settings are accepted")
		vf.Stop()
	}
	if attempts == 0 {
		attempts = 2
	}
	vf.Assert(a.Init(context.Background()) != nil, "a failing refresh is reported")
	vf.Assert(len(net.reqs) == attempts+1, "a failing request is repeated as often as configured")
	for i, r := range net.reqs {
		vf.Assert(r.at == time.Duration(i)*delay, "repetitions are the retry delay apart")
	}
}

// How long the ETag of public keys is used.
func VF_C33_ETag() {
	es, exp := vfDurations("20m", "200h")
	if es == "" {
		exp = 168 * time.Hour
	}
	net := vfNewNet(func(r vfRequest) (int, string, string, error) { return 200, `"tag"`, vfPubDoc(), nil })
	a, err := New(WithHTTPClient(net.client()), WithAthenzDomains("dom"), WithDisableRoleCert(), WithDisablePolicyd(), WithDisableJwkd(),
		WithPubkeyETagExpiry(es))
	if err != nil {
		vf.Assert(false, "valid settings are accepted")
		vf.Stop()
	}
	ctx := context.Background()
	vf.Assert(a.Init(ctx) == nil, "the keys are fetched")
	wait := exp - time.Second
	late := vf.Choice("late", 2) == 1
	if late {
		wait = exp + time.Second
	}
	time.Sleep(wait)
	n := len(net.reqs)
	vf.Assert(a.Init(ctx) == nil, "the keys are fetched again")
	for _, r := range net.reqs[n:] {
		vf.Assert((r.ifNoneMatch == `"tag"`) == !late, "the ETag is used until its expiry")
	}
	for _, r := range net.reqs[:n] {
		vf.Assert(r.ifNoneMatch == "", "the first request is unconditional")
	}
}

// Margin before the expiry of a policy from which on it is fetched anew, and
// the period at which expired policies are noticed.
func VF_C33_Policy() {
	ms, margin := vfDurations("10m", "4h", "1s")
	if ms == "" {
		margin = 3 * time.Hour
	}
	ps, purge := vfDurations("7m", "2h", "50s")
	if ps == "" {
		purge = time.Hour
	}
	const life = 7*time.Hour + 30*time.Second
	begin := time.Now()
	net := vfNewNet(func(r vfRequest) (int, string, string, error) {
		if r.ifNoneMatch != "" {
			return 304, "", "", nil
		}
		switch {
		case r.url == "https://athenz.io/zts/v1/domain/dom/signed_policy_data":
			return 200, `"tag"`, vfPolicyDoc("dom", "r", begin.Add(life)), nil
		}
		return 200, "", vfPubDoc(), nil
	})
	a, err := New(WithHTTPClient(net.client()), WithAthenzDomains("dom"), WithDisableRoleCert(), WithDisableJwkd(),
		WithPolicyExpiryMargin(ms), WithPolicyPurgePeriod(ps), WithPolicyRetryAttempts(1), WithPolicyRefreshPeriod("5h"), WithPubkeyRefreshPeriod("900h"))
	if err != nil {
		vf.Assert(false, "valid settings are accepted")
		vf.Stop()
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if err := a.Init(ctx); err != nil {
		vf.Assert(false, "policies are fetched")
		vf.Stop()
	}
	if vf.Choice("watch", 2) == 0 {
		late := vf.Choice("late", 2) == 1
		wait := life - margin - time.Second
		if late {
			wait = life - margin + time.Second
		}
		time.Sleep(wait)
		n := len(net.reqs)
		err := a.Init(ctx)
		vf.Assert(err == nil || margin <= time.Second, "policies are fetched again")
		for _, r := range net.reqs[n:] {
			if r.url == "https://athenz.io/zts/v1/domain/dom/signed_policy_data" {
				vf.Assert((r.ifNoneMatch == `"tag"`) == !late, "the ETag is used until the margin before the expiry")
			}
		}
		return
	}
	loaded := time.Duration(0)
	if vf.Choice("loaded", 2) == 1 { // by a later refresh
		loaded = 5 * time.Hour
		ech := a.Start(ctx)
		go func() {
			for range ech {
			}
		}()
		time.Sleep(loaded + time.Second)
	}
	n := len(net.reqs)
	tick := loaded + ((life-loaded)/purge+1)*purge
	time.Sleep(tick - time.Second - time.Now().Sub(begin))
	vf.Assert(len(net.reqs) == n, "an expired policy is noticed at the purge period")
	time.Sleep(2 * time.Second)
	vf.Assert(len(net.reqs) > n, "an expired policy is fetched anew at the purge period")
	vf.Cover("purged")
}

// The durations of the certificate check reach the access token processor.
func VF_C33_Certificate() {
	bs, back := vfDurations("1m", "1h30m20s", "0s")
	os, off := vfDurations("1m", "1h30m20s", "0s")
	net := vfNewNet(func(r vfRequest) (int, string, string, error) { return 200, "", vfJwkDoc(), nil })
	opts := []Option{WithHTTPClient(net.client()), WithAthenzDomains("dom"), WithDisableRoleCert(), WithDisablePubkeyd(), WithDisablePolicyd()}
	if vf.Choice("default", 2) == 1 {
		vf.Assume(bs == "" && os == "")
		back, off = time.Hour, time.Hour
	} else {
		opts = append(opts, WithAccessTokenParam(NewAccessTokenParam(true, true, bs, os, false, nil)))
		// without a value there is no backdate and no offset
	}
	a, err := New(opts...)
	if err != nil {
		vf.Assert(false, "valid settings are accepted")
		vf.Stop()
	}
	ctx := context.Background()
	if a.Init(ctx) != nil {
		vf.Stop()
	}
	now := time.Now().Unix()
	iat := vf.Int("iat", 1, now)
	nb := vf.Int("notBefore", 0, 2*now)
	tok := vf.JWT(`{"alg":"RS256","kid":"0"}`, fmt.Sprintf(`{"client_id":"c","cnf":{"x5t#S256":"other"},"exp":9999999999,"iat":%d}`, iat), "RS256", 0)
	cert := &x509.Certificate{Raw: []byte("cert"), Subject: pkix.Name{CommonName: "c"}, NotBefore: time.Unix(nb, 0)}
	_, err = a.AuthorizeAccessToken(ctx, tok, "", "", cert)
	b, o := int64(back/time.Second), int64(off/time.Second)
	want := vf.And(o != 0, vf.And(nb+b >= iat, nb+b <= iat+o))
	vf.Assert(vf.Iff(err == nil, want), "backdate and offset take effect as configured")
	if err == nil {
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
}
