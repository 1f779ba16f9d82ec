package policy

import (
	"context"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// A check changes neither the list of roles it is given nor what lies behind it, nor an earlier result.
func VF_C42_Check() {
	var as []*util.Assertion
	for _, r := range []string{"r0", "r1", "r2"} {
		switch vf.Choice("kind", 3) {
		case 1:
			as = append(as, vfAss("d:role."+r, "a", "d:x", "allow"), vfAss("d:role."+r, "b", "d:x", "allow"))
		case 2:
			as = append(as, vfAss("d:role."+r, "a", "d:x", "deny"), vfAss("d:role."+r, "b", "d:x", "allow"))
		}
	}
	as = append(as, vfAss("d:role.z", "a", "d:x", "allow"))
	p := vfDaemon(vfFixed("d", vfDoc("d", time.Now().Add(time.Hour), as)))
	ctx := context.Background()
	vf.Assert(p.Update(ctx) == nil, "the document loads")
	given := [5]string{"r0", "r1", "r2", "spare", "more"}
	n := vf.Choice("roles", 4)
	roles := given[:n:len(given)]
	vf.Delays(vf.Q(1, 2))
	act := vf.StrOf("action", "aAc", 0, 1)
	first, err := p.CheckPolicyRoles(ctx, "d", roles, act, "x")
	vf.Sequential()
	intact := func() bool {
		return given[0] == "r0" && given[1] == "r1" && given[2] == "r2" && given[3] == "spare" && given[4] == "more"
	}
	vf.Assert(intact(), "a check does not change the roles it is given")
	if err != nil {
		vf.Cover("refused")
		return
	}
	vf.Cover("allowed")
	kept := append([]string(nil), first...)
	vf.Assert(vf.Or(act == "a", act == "A"), "only the permitted action is allowed")
	second, err := p.CheckPolicyRoles(ctx, "d", given[:3:5], "b", "x")
	vf.Assert(err == nil, "the second check is allowed")
	third, _ := p.CheckPolicyRoles(ctx, "d", []string{"z"}, "a", "x")
	vf.Assert(len(third) == 1 && third[0] == "z", "the third check is allowed")
	vf.Assert(len(first) == len(kept), "a later check does not change an earlier result")
	for i := range kept {
		vf.Assert(first[i] == kept[i], "a later check does not change an earlier result")
	}
	for i := range second {
		second[i] = "?"
	}
	_ = append(second, "?", "?")
	vf.Assert(intact(), "the result is the caller's own")
	for i := range kept {
		vf.Assert(first[i] == kept[i], "the result is the caller's own")
	}
	again, err := p.CheckPolicyRoles(ctx, "d", roles, act, "x")
	vf.Assert(err == nil && len(again) == len(kept), "the same check gives the same answer")
}
