package policy

import (
	"strings"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// vfPolicySet is a symbolic set of assertions in one or two policies.
func vfPolicySet(n int) ([]*util.Assertion, *SignedPolicy) {
	var all []*util.Assertion
	split := 0
	if n > 1 {
		split = 1
	}
	for i := 0; i < n; i++ {
		role := vf.StrOf("role", "1A", 1, 1)
		act := vf.StrOf("act", "ab*", 1, 1)
		dom := vf.StrOf("dom", "de", 1, 1)
		eff := "ALLOW"
		if vf.Choice("deny", 2) == 1 {
			eff = "DENY"
		}
		all = append(all, vfAss("d:role."+role, act, dom+":x", eff))
	}
	return all, vfDoc("d", time.Now().Add(time.Hour), all[:split], all[split:])
}

func vfMatches(a *util.Assertion, domain, role, action, resource string) bool {
	c := strings.IndexByte(a.Resource, ':')
	return vf.And(vf.And(a.Role == domain+":role."+role, specFold(a.Resource[:c], domain)),
		vf.And(specGlob(a.Action, action), specGlob(a.Resource[c+1:], resource)))
}

// vfEval evaluates the assertions directly.
func vfEval(as []*util.Assertion, domain string, roles []string, action, resource string) (granted bool, allowed []bool) {
	anyAllow, anyDeny := false, false
	allowed = make([]bool, len(roles))
	for i, r := range roles {
		for _, a := range as {
			m := vfMatches(a, domain, r, action, resource)
			if specFold(a.Effect, "deny") {
				anyDeny = vf.Or(anyDeny, m)
			} else {
				anyAllow = vf.Or(anyAllow, m)
				allowed[i] = vf.Or(allowed[i], m)
			}
		}
	}
	return vf.And(anyAllow, vf.Not(anyDeny)), allowed
}
