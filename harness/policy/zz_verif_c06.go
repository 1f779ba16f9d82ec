package policy

import (
	"context"
	"errors"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// vfSwitch is a fetcher whose behaviour the harness changes.
type vfSwitch struct {
	sp  *SignedPolicy
	err error
}

func vfSwitched(domain string, s *vfSwitch) *vfFetcher {
	return &vfFetcher{domain, func(context.Context) (*SignedPolicy, error) { return s.sp, s.err }}
}

func vfSimple(domain, action, effect string) *SignedPolicy {
	return vfDoc(domain, time.Now().Add(time.Hour), []*util.Assertion{vfAss(domain+":role.r", action, domain+":x", effect)})
}

// Two domains; the second update may fail in one of several ways for either.
func VF_C06_AllOrNothing() {
	a, b := &vfSwitch{}, &vfSwitch{}
	p := vfDaemon(vfSwitched("d", a), vfSwitched("e", b))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	a.sp, b.sp = vfSimple("d", "old", "allow"), vfSimple("e", "old", "allow")
	vf.MapOrder(2)
	vf.Assert(p.Update(ctx) == nil, "an update with every document available succeeds")
	check := func(dom, act string) bool {
		return p.CheckPolicy(context.Background(), dom, []string{"r"}, act, "x") == nil
	}
	fails := false
	empty := map[string]bool{}
	step := func(s *vfSwitch, dom string) {
		s.sp, s.err = vfSimple(dom, "new", "allow"), nil
		switch vf.Choice("mode", 7) {
		case 1: // nothing fetched
			s.sp, s.err = nil, errors.New("fetch failed")
			fails = true
		case 2: // malformed assertion
			s.sp.SignedPolicyData.PolicyData.Policies[0].Assertions = append(s.sp.SignedPolicyData.PolicyData.Policies[0].Assertions, vfAss(dom+":role.r", "a", "nocolon", "allow"))
			fails = true
		case 3: // the fallback document with the error
			s.err = errors.New("fetch failed")
		case 4: // malformed assertion first
			s.sp.SignedPolicyData.PolicyData.Policies[0].Assertions = append([]*util.Assertion{vfAss(dom+":role.q", "a", "", "deny")}, s.sp.SignedPolicyData.PolicyData.Policies[0].Assertions...)
			fails = true
		case 5: // no assertion at all
			s.sp.SignedPolicyData.PolicyData.Policies = nil
			empty[dom] = true
		case 6: // a policy without assertions
			s.sp.SignedPolicyData.PolicyData.Policies[0].Assertions = nil
			empty[dom] = true
		}
	}
	step(a, "d")
	step(b, "e")
	cancelled := vf.Choice("cancelled", 2) == 1
	if cancelled {
		cancel()
	}
	err := p.Update(ctx)
	if cancelled {
		vf.Assert(err != nil, "an interrupted update reports an error")
	} else {
		vf.Assert((err != nil) == fails, "an update fails exactly when a domain cannot be loaded")
	}
	for _, dom := range []string{"d", "e"} {
		if err != nil {
			vf.Cover("failed update")
			vf.Assert(check(dom, "old"), "a failed update leaves the old policies in force")
			vf.Assert(!check(dom, "new"), "a failed update brings no new policy")
		} else {
			vf.Cover("successful update")
			vf.Assert(!check(dom, "old"), "a successful update removes the old policies")
			vf.Assert(check(dom, "new") == !empty[dom], "a successful update puts the new policies in force")
		}
	}
}

// A check while an update runs: role r1 allows only in the old set, r2 only in the
// new one, and each set denies the other role.
func VF_C06_Concurrent() {
	old := vfDoc("d", time.Now().Add(time.Hour), []*util.Assertion{vfAss("d:role.r1", "a", "d:x", "allow"), vfAss("d:role.r2", "a", "d:x", "deny")})
	neu := vfDoc("d", time.Now().Add(time.Hour), []*util.Assertion{vfAss("d:role.r1", "a", "d:x", "deny"), vfAss("d:role.r2", "a", "d:x", "allow"), vfAss("d:role.r3", "b", "d:x", "allow")})
	s := &vfSwitch{sp: old}
	p := vfDaemon(vfSwitched("d", s))
	ctx := context.Background()
	vf.Assert(p.Update(ctx) == nil, "documents load")
	s.sp = neu
	if vf.Choice("fail", 2) == 1 {
		s.sp, s.err = nil, errors.New("x")
	}
	done := make(chan error, 1)
	vf.Delays(vf.Q(2, 3))
	go func() { done <- p.Update(ctx) }()
	err := p.CheckPolicy(ctx, "d", []string{"r1", "r2"}, "a", "x")
	vf.Assert(err != nil, "a check never mixes the old and the new policies")
	uerr := <-done
	vf.Sequential()
	vf.Assert((uerr != nil) == (s.err != nil), "the update reports its own outcome")
	err = p.CheckPolicy(ctx, "d", []string{"r3"}, "b", "x")
	vf.Assert((err == nil) == (s.err == nil), "after the update the new policies are in force")
}

// The allowed role set stays complete while an update swaps the policies.
func VF_C06_NoGap() {
	doc := func() *SignedPolicy {
		return vfDoc("d", time.Now().Add(time.Hour), []*util.Assertion{vfAss("d:role.r1", "a", "d:x", "allow"), vfAss("d:role.r2", "a", "d:x", "allow")})
	}
	s := &vfSwitch{sp: doc()}
	p := vfDaemon(vfSwitched("d", s))
	ctx := context.Background()
	vf.Assert(p.Update(ctx) == nil, "documents load")
	s.sp = doc()
	done := make(chan error, 1)
	vf.Delays(vf.Q(2, 3))
	go func() { done <- p.Update(ctx) }()
	rs, err := p.CheckPolicyRoles(ctx, "d", []string{"r1", "r2"}, "a", "x")
	vf.Assert(err == nil && len(rs) == 2, "access allowed by both the old and the new policies is granted throughout")
	<-done
	vf.Sequential()
}

// Policies that expire are refreshed in the background; a check meanwhile must
// see the refreshed document completely or not at all.
func VF_C06_ExpiryRefresh() {
	s := &vfSwitch{sp: vfDoc("d", time.Now().Add(time.Minute), []*util.Assertion{vfAss("d:role.r1", "a", "d:x", "allow"), vfAss("d:role.r1", "a", "d:*", "deny"), vfAss("d:role.r2", "a", "d:x", "deny")})}
	p := vfDaemon(vfSwitched("d", s))
	ctx := context.Background()
	vf.Assert(p.Update(ctx) == nil, "documents load")
	time.Sleep(2 * time.Minute)
	s.sp = vfDoc("d", time.Now().Add(time.Hour), s.sp.SignedPolicyData.PolicyData.Policies[0].Assertions)
	vf.MapOrder(3)
	vf.Delays(vf.Q(1, 2))
	p.CheckPolicy(ctx, "d", []string{"r2"}, "a", "x") // notices the expiry
	err := p.CheckPolicy(ctx, "d", []string{"r1", "r2"}, "a", "x")
	vf.Sequential()
	vf.Assert(err != nil, "a background refresh is never visible in part")
	vf.Settle()
	err = p.CheckPolicy(ctx, "d", []string{"r2"}, "a", "x")
	vf.Assert(err != nil, "denied")
}
