package policy

//vf:use decide

import (
	"context"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// Symbolic policies, roles and request; one fair schedule.
func VF_C02_Roles() {
	all, doc := vfPolicySet(vf.Q(3, 4))
	p := vfDaemon(vfFixed("d", doc))
	ctx := context.Background()
	if p.Update(ctx) != nil {
		vf.Assert(false, "well-formed policies load")
	}
	n := 1 + vf.Choice("nroles", vf.Q(2, 3))
	var roles []string
	for i := 0; i < n; i++ {
		roles = append(roles, vf.StrOf("presented", "1aA", 1, 1))
	}
	act := vf.StrOf("action", "abc", 1, 1)
	_, allowed := vfEval(all, "d", roles, act, "x")
	got, err := p.CheckPolicyRoles(ctx, "d", roles, act, "x")
	if err != nil {
		vf.Assert(len(got) == 0, "a denied check returns no role")
		return
	}
	vf.Cover("granted")
	vf.Observe("n", len(got))
	for i, r := range roles {
		in := false
		for _, g := range got {
			in = vf.Or(in, g == r)
		}
		vf.Assert(vf.Implies(allowed[i], in), "every presented role with a matching allow is returned")
	}
	for _, g := range got {
		ok := false
		for i, r := range roles {
			ok = vf.Or(ok, vf.And(g == r, allowed[i]))
		}
		vf.Assert(ok, "only presented roles with a matching allow are returned")
	}
}

// All schedules of the per-role goroutines.
func VF_C02_Schedules() {
	names := []string{"r0", "r1", "r2"}
	n := vf.Q(2, 3)
	var as []*util.Assertion
	var roles []string
	want := map[string]bool{}
	allow, deny := false, false
	for i := 0; i < n; i++ {
		roles = append(roles, names[i])
		switch vf.Choice("kind", 4) {
		case 1:
			as = append(as, vfAss("d:role."+names[i], "a", "d:x", "allow"))
			want[names[i]] = true
			allow = true
		case 2:
			as = append(as, vfAss("d:role."+names[i], "a", "d:x", "deny"))
			deny = true
		case 3:
			as = append(as, vfAss("d:role."+names[i], "b", "d:x", "deny"), vfAss("d:role."+names[i], "b", "d:x", "allow"))
		}
	}
	p := vfDaemon(vfFixed("d", vfDoc("d", time.Now().Add(time.Hour), as)))
	ctx := context.Background()
	if p.Update(ctx) != nil {
		vf.Assert(false, "well-formed policies load")
	}
	vf.Preempt(vf.Q(1, 2))
	got, err := p.CheckPolicyRoles(ctx, "d", roles, "a", "x")
	vf.Sequential()
	vf.Assert((err == nil) == (allow && !deny), "granted exactly when allowed")
	if err != nil {
		vf.Assert(len(got) == 0, "a denied check returns no role")
		return
	}
	vf.Cover("granted")
	seen := map[string]bool{}
	for _, g := range got {
		vf.Assert(want[g], "only allowed roles are returned")
		vf.Assert(!seen[g], "no role is returned twice for one presentation")
		seen[g] = true
	}
	vf.Assert(len(seen) == len(want), "every allowed role is returned")
}

// Role names that only look alike, presented together: exactly the allowed one comes back, as it was presented.
func VF_C02_Names() {
	have := vf.StrOf("role", "aA *.", 1, 2)
	roles := []string{vf.StrOf("presented", "aA *.", 0, 2), "b"}
	switch vf.Choice("full", 3) { // names that look like full names of roles
	case 1:
		roles[0] = "d:role." + roles[0]
	case 2:
		roles[0] = "e:role." + roles[0]
	}
	if vf.Choice("swap", 2) == 1 {
		roles[0], roles[1] = roles[1], roles[0]
	}
	p := vfDaemon(vfFixed("d", vfDoc("d", time.Now().Add(time.Hour), []*util.Assertion{
		vfAss("d:role."+have, "a", "d:x", "allow"), vfAss("d:role.b", "a", "d:x", "allow"),
		vfAss("e:role.a", "a", "d:x", "allow"), vfAss("e:role.aa", "a", "e:x", "allow")})))
	if p.Update(context.Background()) != nil {
		vf.Assert(false, "well-formed policies load")
	}
	got, err := p.CheckPolicyRoles(context.Background(), "d", roles, "a", "x")
	vf.Assert(err == nil, "the check is granted")
	for _, r := range roles {
		n := 0
		for _, g := range got {
			if g == r {
				n++
			}
		}
		if r == "b" || r == have {
			vf.Assert(n == 1, "every allowed role is returned as presented")
		} else {
			vf.Assert(n == 0, "a role that is not allowed is not returned")
		}
	}
	vf.Cover("granted")
	vf.Assert(len(got) <= 2, "nothing else is returned")
}
