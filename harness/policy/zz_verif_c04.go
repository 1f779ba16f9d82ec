package policy

//vf:use decide

import (
	"context"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

func vfLoad(doc *SignedPolicy) *policyd {
	p := vfDaemon(vfFixed("d", doc))
	if p.Update(context.Background()) != nil {
		vf.Assert(false, "well-formed policies load")
	}
	return p
}

func vfEffect() string {
	if vf.Choice("deny", 2) == 1 {
		return "DENY"
	}
	return "ALLOW"
}

// Two assertions whose texts may contain the separators the loader uses, asked for literally.
func VF_C04_Texts() {
	var as []*util.Assertion
	n := vf.Q(1, 2)
	tails := []string{"", ",d:a"}
	for i := 0; i < 2; i++ {
		as = append(as, vfAss("d:role.r", vf.StrOf("action", "aA,d:", 1, n)+tails[vf.Choice("at", 2)],
			"d:"+vf.StrOf("resource", "aA,d:", 1, n)+tails[vf.Choice("rt", 2)], vfEffect()))
	}
	p := vfLoad(vfDoc("d", time.Now().Add(time.Hour), as))
	for _, a := range as {
		act, res := a.Action, a.Resource[2:]
		want, _ := vfEval(as, "d", []string{"r"}, act, res)
		got := p.CheckPolicy(context.Background(), "d", []string{"r"}, act, res) == nil
		if got {
			vf.Cover("granted")
		}
		vf.Observe("granted", got)
		vf.Assert(got == want, "the loaded assertions decide as the document does")
	}
}

// Role names with separators too.
func VF_C04_RoleTexts() {
	var as []*util.Assertion
	roles := []string{"r", "r,a", "R"}
	for i := 0; i < 2; i++ {
		as = append(as, vfAss("d:role."+roles[vf.Choice("role", 3)], vf.StrOf("action", "aA, ", 1, vf.Q(2, 3)), "d:x", vfEffect()))
	}
	p := vfLoad(vfDoc("d", time.Now().Add(time.Hour), as))
	for _, a := range as {
		for _, r := range roles {
			want, _ := vfEval(as, "d", []string{r}, a.Action, "x")
			got := p.CheckPolicy(context.Background(), "d", []string{r}, a.Action, "x") == nil
			vf.Assert(got == want, "the loaded assertions decide as the document does")
		}
	}
}

// The effect text.
func VF_C04_Effect() {
	eff := vf.ASCII("effect", 0, 5)
	p := vfLoad(vfDoc("d", time.Now().Add(time.Hour), []*util.Assertion{vfAss("d:role.r", "a", "d:x", eff)}))
	err := p.CheckPolicy(context.Background(), "d", []string{"r"}, "a", "x")
	if err != nil {
		vf.Cover("deny")
	}
	vf.Observe("granted", err == nil)
	vf.Assert((err != nil) == specFold(eff, "deny"), "the effect is deny exactly when it reads deny in any case")
}

// The same key with different effects: the deny must survive, in every order of
// sequence, grouping into policies and iteration.
func VF_C04_Order() {
	n := vf.Q(3, 4)
	pols := make([][]*util.Assertion, 2)
	var all []*util.Assertion
	for i := 0; i < n; i++ {
		effs := []string{"allow", "deny", "DENY", "Allow"}
		act := "a"
		if vf.Choice("act", 2) == 1 {
			act = "?"
		}
		a := vfAss("d:role.r", act, "d:x", effs[vf.Choice("eff", vf.Q(2, 4))])
		k := vf.Choice("pol", 2)
		pols[k] = append(pols[k], a)
		all = append(all, a)
	}
	vf.MapOrder(4)
	p := vfLoad(vfDoc("d", time.Now().Add(time.Hour), pols...))
	for _, q := range []string{"a", "z"} {
		want, _ := vfEval(all, "d", []string{"r"}, q, "x")
		got := p.CheckPolicy(context.Background(), "d", []string{"r"}, q, "x") == nil
		if got {
			vf.Cover("granted")
		}
		vf.Assert(got == want, "order, grouping and duplication do not change the decision")
	}
}

// Interleavings of the loader's goroutines, one per policy.
func VF_C04_Schedules() {
	var pols [][]*util.Assertion
	var all []*util.Assertion
	for i := 0; i < 2; i++ {
		var as []*util.Assertion
		for j := 0; j < vf.Q(1, 2); j++ {
			as = append(as, vfAss("d:role.r", "a", "d:x", vfEffect()))
		}
		pols = append(pols, as)
		all = append(all, as...)
	}
	want, _ := vfEval(all, "d", []string{"r"}, "a", "x")
	vf.Preempt(vf.Q(2, 3))
	p := vfLoad(vfDoc("d", time.Now().Add(time.Hour), pols...))
	vf.Sequential()
	got := p.CheckPolicy(context.Background(), "d", []string{"r"}, "a", "x") == nil
	if got {
		vf.Cover("granted")
	}
	vf.Assert(got == want, "no interleaving of the loader loses a deny")
}

// Assertions whose patterns or effects are nearly the same, asked in every way.
func VF_C04_Near() {
	patterns := []string{"a", "a*", "*a", "A", "a?", "*", "a ", "aa"}
	effects := []string{"", "deny", "allow", "DENY ", "denied", "aLLOW"}
	roles := []string{"d:role.r", "d:role.r*", "d:role.rr"}
	var as []*util.Assertion
	kind := vf.Choice("kind", 4)
	for i := 0; i < 2; i++ {
		role, act, res, eff := "d:role.r", "a", "d:a", "allow"
		if i == 0 || kind != 0 {
			eff = vfEffect()
		}
		switch kind {
		case 0:
			eff = effects[vf.Choice("effect", len(effects))]
		case 1:
			act = patterns[vf.Choice("action", len(patterns))]
		case 2:
			res = []string{"d:", "D:"}[vf.Choice("case", 2)] + patterns[vf.Choice("resource", len(patterns))]
		case 3:
			role, act = roles[vf.Choice("role", len(roles))], patterns[vf.Choice("action", 3)]
		}
		as = append(as, vfAss(role, act, res, eff))
	}
	pols := [][]*util.Assertion{as}
	if vf.Choice("apart", 2) == 1 {
		pols = [][]*util.Assertion{as[:1], as[1:]}
	}
	vf.MapOrder(2)
	p := vfLoad(vfDoc("d", time.Now().Add(time.Hour), pols...))
	for _, q := range []string{"a", "aa", "ba", "a ", "z"} {
		for _, role := range []string{"r", "rr"} {
			act, res := q, "a"
			if kind == 2 {
				act, res = "a", q
			}
			want, _ := vfEval(as, "d", []string{role}, act, res)
			got := p.CheckPolicy(context.Background(), "d", []string{role}, act, res) == nil
			if got {
				vf.Cover("granted")
			}
			vf.Assert(got == want, "nearly the same assertions decide as the document does")
		}
	}
}
