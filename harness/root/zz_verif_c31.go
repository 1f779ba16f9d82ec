package authorizerd

import (
	"context"
	"errors"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

var errPub, errPol, errJwk = errors.New("pubkey"), errors.New("policy"), errors.New("jwk")

// Every configuration, outcome and interleaving of the initial updates.
func vfInit(steps int) {
	offPub, offPol, offJwk := vf.Choice("pubkey", 2) == 1, vf.Choice("policy", 2) == 1, vf.Choice("jwk", 2) == 1
	var opts []Option
	if offPub {
		opts = append(opts, WithDisablePubkeyd())
	}
	if offPol {
		opts = append(opts, WithDisablePolicyd())
	}
	if offJwk {
		opts = append(opts, WithDisableJwkd())
	}
	opts = append(opts, WithAccessTokenParam(NewAccessTokenParam(vf.Choice("accessToken", 2) == 1, false, "", "", false, nil)))
	a := vfAuthority(opts...)
	okPub, okPol, okJwk := vf.Bool("pubkeyOK"), vf.Bool("policyOK"), vf.Bool("jwkOK")
	vf.Assume(!offPub || okPub)
	vf.Assume(!offPol || okPol)
	vf.Assume(!offJwk || okJwk)
	jd, kd := &vfPubkeyd{}, &vfJwkd{}
	pd := &vfPolicy{}
	pubDone, stopped := false, false
	// an update takes a while, and another goroutine may run meanwhile
	work := func(ctx context.Context, ok bool, e error) error {
		step := make(chan struct{})
		for i := 0; i < steps; i++ {
			go func() { step <- struct{}{} }()
			<-step
		}
		if stopped {
			vf.Assert(false, "Init waits for all updates it started")
		}
		if ctx.Err() != nil && !ok {
			return ctx.Err()
		}
		if !ok {
			return e
		}
		return nil
	}
	jd.update = func(ctx context.Context) error {
		vf.Assert(pd.updates == 0, "public keys are updated before policies")
		err := work(ctx, okPub, errPub)
		pubDone = err == nil
		return err
	}
	pd.update = func(ctx context.Context) error {
		vf.Assert(offPub || pubDone, "policies are fetched only after the public-key update succeeded")
		return work(ctx, okPol, errPol)
	}
	kd.update = func(ctx context.Context) error { return work(ctx, okJwk, errJwk) }
	a.pubkeyd, a.policyd, a.jwkd = jd, pd, kd
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	before := vf.Choice("cancelled", 2) == 1
	if before {
		cancel()
	}
	err := a.Init(ctx)
	stopped = true
	vf.Settle()
	vf.Assert(!offPub || jd.updates == 0, "a disabled public-key refresher is not touched")
	vf.Assert(!offPol || pd.updates == 0, "a disabled policy refresher is not touched")
	vf.Assert(!offJwk || kd.updates == 0, "a disabled JWK refresher is not touched")
	vf.Assert(jd.updates <= 1 && pd.updates <= 1 && kd.updates <= 1, "no refresher is updated twice")
	if before {
		vf.Cover("cancelled")
		vf.Assert(err != nil, "a cancelled initialization fails")
		return
	}
	ok := okPub && okPol && okJwk
	vf.Assert((err == nil) == ok, "initialization succeeds exactly when every update does")
	if err == nil {
		vf.Cover("initialized")
		vf.Assert(offPub || jd.updates == 1, "public keys were updated once")
		vf.Assert(offPol || pd.updates == 1, "policies were updated once")
		vf.Assert(offJwk || kd.updates == 1, "JWKs were updated once")
		return
	}
	vf.Cover("failed")
	vf.Assert(errors.Is(err, errPub) && !okPub || errors.Is(err, errPol) && !okPol || errors.Is(err, errJwk) && !okJwk, "the failure of an update is reported")
	vf.Assert(okPub || pd.updates == 0, "policies are not fetched when the public-key update failed")
}

func VF_C31_Init() {
	vf.Delays(vf.Q(4, 8))
	vfInit(1)
}

func VF_C31_Preempt() {
	vf.Preempt(vf.Q(2, 4))
	vfInit(1)
}
