package policy

//vf:use decide

import (
	"context"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// Symbolic policies, roles and request; one fair schedule.
func VF_C01_Decision() {
	all, doc := vfPolicySet(vf.Q(3, 4))
	p := vfDaemon(vfFixed("d", doc))
	ctx := context.Background()
	if p.Update(ctx) != nil {
		vf.Assert(false, "well-formed policies load")
	}
	n := vf.Choice("nroles", vf.Q(3, 4))
	var roles []string
	for i := 0; i < n; i++ {
		roles = append(roles, vf.StrOf("presented", "1aA", 1, 1))
	}
	act := vf.StrOf("action", "abc", 1, 1)
	want, _ := vfEval(all, "d", roles, act, "x")
	err := p.CheckPolicy(ctx, "d", roles, act, "x")
	if err == nil {
		vf.Cover("granted")
	} else {
		vf.Cover("denied")
	}
	vf.Observe("granted", err == nil)
	vf.Assert((err == nil) == want, "granted exactly when a presented role allows and none denies")
}

// What each of the presented roles has: nothing, allow, deny, allow and deny, no match.
func vfRoleKinds(n int) ([]string, *policyd, bool) {
	names := []string{"r0", "r1", "r2", "r3"}
	var as []*util.Assertion
	var roles []string
	allow, deny := false, false
	for i := 0; i < n; i++ {
		role := "d:role." + names[i]
		roles = append(roles, names[i])
		switch vf.Choice("kind", 4) {
		case 1:
			as = append(as, vfAss(role, "a", "d:x", "allow"))
			allow = true
		case 2:
			as = append(as, vfAss(role, "a", "d:x", "deny"))
			deny = true
		case 3:
			as = append(as, vfAss(role, "a", "d:*", "allow"), vfAss(role, "*", "d:x", "Deny"), vfAss(role, "b", "d:x", "allow"))
			allow, deny = true, true
		}
	}
	p := vfDaemon(vfFixed("d", vfDoc("d", time.Now().Add(time.Hour), as)))
	if p.Update(context.Background()) != nil {
		vf.Assert(false, "well-formed policies load")
	}
	return roles, p, allow && !deny
}

// All orders of the per-role goroutines, with preemptions.
func VF_C01_Schedules() {
	roles, p, want := vfRoleKinds(2)
	vf.Preempt(vf.Q(1, 2))
	err := p.CheckPolicy(context.Background(), "d", roles, "a", "x")
	vf.Sequential()
	if err == nil {
		vf.Cover("granted")
	}
	vf.Assert((err == nil) == want, "the decision does not depend on the schedule")
}

// Three roles, goroutines run in any order.
func VF_C01_Orders() {
	roles, p, want := vfRoleKinds(3)
	vf.Preempt(vf.Q(0, 1))
	err := p.CheckPolicy(context.Background(), "d", roles, "a", "x")
	vf.Sequential()
	vf.Assert((err == nil) == want, "the decision does not depend on the order of the roles")
}

// A cancelled context never grants.
func VF_C01_Cancelled() {
	roles, p, _ := vfRoleKinds(2)
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	vf.Preempt(vf.Q(1, 2))
	err := p.CheckPolicy(ctx, "d", roles, "a", "x")
	vf.Sequential()
	vf.Assert(err != nil, "a cancelled check is not granted")
}

// Cancellation during the check: a grant is still a correct grant.
func VF_C01_CancelDuring() {
	roles, p, want := vfRoleKinds(2)
	ctx, cancel := context.WithCancel(context.Background())
	vf.Preempt(vf.Q(1, 2))
	go cancel()
	err := p.CheckPolicy(ctx, "d", roles, "a", "x")
	vf.Sequential()
	if err == nil {
		vf.Cover("granted")
	}
	vf.Assert(err != nil || want, "cancelling a check never turns it into a grant")
}

// Role names that only look alike: spaces, wildcards, empty names. A presented name is compared as it is.
func VF_C01_Names() {
	have := vf.StrOf("role", "a *.", 1, 2)
	pres := vf.StrOf("presented", "a *.", 0, 2)
	switch vf.Choice("full", 4) { // names that look like full names of roles
	case 1:
		pres = "d:role." + pres
	case 2:
		pres = "e:role." + pres
	case 3:
		pres = ":role." + pres
	}
	roles := []string{pres}
	if vf.Choice("more", 2) == 1 {
		roles = []string{"b", pres}
	}
	p := vfDaemon(vfFixed("d", vfDoc("d", time.Now().Add(time.Hour), []*util.Assertion{
		vfAss("d:role."+have, "a", "d:x", "allow"), vfAss("d:role.z", "*", "d:*", "allow"),
		vfAss("e:role.a", "a", "d:x", "allow"), vfAss("e:role.aa", "a", "e:x", "allow")})))
	if p.Update(context.Background()) != nil {
		vf.Assert(false, "well-formed policies load")
	}
	err := p.CheckPolicy(context.Background(), "d", roles, "a", "x")
	if err == nil {
		vf.Cover("granted")
	} else {
		vf.Cover("denied")
	}
	vf.Assert((err == nil) == (pres == have), "a role is granted only under exactly its own name")
}
