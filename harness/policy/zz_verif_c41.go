package policy

//vf:use decide

import (
	"context"
	"errors"
	"strings"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// vfReported decides a request from what GetPolicyCache reported.
func vfReported(m map[string]interface{}, domain, role, act, res string) (allow, deny bool) {
	v, ok := m[domain+":role."+role]
	if !ok {
		return false, false
	}
	for _, a := range v.([]*Assertion) {
		if specFold(a.ResourceDomain, domain) && specGlob(a.Action, act) && specGlob(a.Resource, res) {
			if a.Effect != nil {
				deny = true
			} else {
				allow = true
			}
		}
	}
	return allow, deny
}

// The report decides like the check.
func VF_C41_Decides() {
	n := vf.Choice("assertions", vf.Q(4, 5))
	var as []*util.Assertion
	roles := map[string]bool{}
	for i := 0; i < n; i++ {
		r := []string{"r", "s"}[vf.Choice("role", 2)]
		act := []string{"a", "A*", "b"}[vf.Choice("action", vf.Q(2, 3))]
		eff := []string{"allow", "DENY"}[vf.Choice("effect", 2)]
		as = append(as, vfAss("d:role."+r, act, "d:x", eff))
		roles["d:role."+r] = true
	}
	other := vfFixed("e", vfDoc("e", time.Now().Add(time.Hour), []*util.Assertion{vfAss("e:role.r", "a", "e:x", "allow")}))
	p := vfDaemon(vfFixed("d", vfDoc("d", time.Now().Add(time.Hour), as)), other)
	ctx := context.Background()
	if vf.Choice("loaded", 2) == 0 {
		vf.Assert(len(p.GetPolicyCache(ctx)) == 0, "nothing is reported before policies are loaded")
	}
	vf.Assert(p.Update(ctx) == nil, "the documents load")
	m := p.GetPolicyCache(ctx)
	vf.Assert(len(m) == len(roles)+1, "exactly the roles with assertions are reported")
	for _, r := range []string{"r", "s"} {
		list, ok := m["d:role."+r]
		vf.Assert(ok == roles["d:role."+r], "exactly the roles with assertions are reported")
		if ok {
			allowed := false
			for _, a := range list.([]*Assertion) {
				if a.Effect == nil {
					allowed = true
				}
				vf.Assert(!(allowed && a.Effect != nil), "denying assertions are reported before allowing ones")
			}
		}
		for _, act := range []string{"a", "ab", "b"} {
			allow, deny := vfReported(m, "d", r, act, "x")
			err := p.CheckPolicy(ctx, "d", []string{r}, act, "x")
			vf.Assert((err == nil) == (allow && !deny), "the report decides like the check")
		}
	}
	// the caller owns the map
	for k := range m {
		delete(m, k)
	}
	m["d:role.r"] = []*Assertion{}
	m2 := p.GetPolicyCache(ctx)
	vf.Assert(len(m2) == len(roles)+1, "changing a report changes neither later reports nor the policies")
	for _, r := range []string{"r", "s"} {
		allow, deny := vfReported(m2, "d", r, "a", "x")
		err := p.CheckPolicy(ctx, "d", []string{r}, "a", "x")
		vf.Assert((err == nil) == (allow && !deny), "the report decides like the check")
	}
	vf.Cover("done")
}

// The report follows updates and expiries, an earlier report stays as it was.
func VF_C41_Follows() {
	life := time.Duration(1+vf.Choice("life", 3)) * 10 * time.Minute
	second := vf.Choice("second", 3)
	k := 0
	f := &vfFetcher{"d", func(context.Context) (*SignedPolicy, error) {
		k++
		switch {
		case k == 1:
			return vfDoc("d", time.Now().Add(life), []*util.Assertion{vfAss("d:role.old", "a", "d:x", "allow"), vfAss("d:role.both", "a", "d:x", "allow")}), nil
		case second == 0:
			return nil, errors.New("unavailable")
		}
		return vfDoc("d", time.Now().Add(time.Hour*10), []*util.Assertion{vfAss("d:role.new", "a", "d:x", "allow"), vfAss("d:role.both", "a", "d:x", "deny")}), nil
	}}
	p := vfDaemon(f)
	p.purgePeriod = 1000 * time.Hour
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	vf.Assert(p.Update(ctx) == nil, "the document loads")
	first := p.GetPolicyCache(ctx)
	names := func(m map[string]interface{}) string {
		out := ""
		for _, n := range []string{"old", "both", "new"} {
			if v, ok := m["d:role."+n]; ok {
				out += n
				if v.([]*Assertion)[0].Effect != nil {
					out += "!"
				}
				out += " "
			}
		}
		return strings.TrimSpace(out)
	}
	vf.Assert(names(first) == "old both" && len(first) == 2, "the loaded policies are reported")
	at := time.Duration(1+vf.Choice("at", 3))*10*time.Minute - 5*time.Minute
	time.Sleep(at)
	if second == 2 {
		p.Update(ctx)
		vf.Assert(names(p.GetPolicyCache(ctx)) == "both! new", "the policies in force are reported")
	} else if second == 0 {
		vf.Assert(p.Update(ctx) != nil, "an update without a document fails")
		want := "old both"
		if at >= life {
			want = ""
		}
		vf.Assert(names(p.GetPolicyCache(ctx)) == want, "the policies in force are reported")
		vf.Assert((p.CheckPolicy(ctx, "d", []string{"old"}, "a", "x") == nil) == (want != ""), "the report decides like the check")
	}
	vf.Assert(names(first) == "old both", "an earlier report stays as it was")
	vf.Cover("done")
}

// Every report made during an update is of one set of policies.
func VF_C41_Snapshot() {
	k := 0
	doc := func(d string, v string) *SignedPolicy {
		return vfDoc(d, time.Now().Add(time.Hour), []*util.Assertion{vfAss(d+":role."+v, "a", d+":x", "allow")})
	}
	mk := func(d string) *vfFetcher {
		n := 0
		return &vfFetcher{d, func(context.Context) (*SignedPolicy, error) {
			n++
			return doc(d, []string{"v1", "v2"}[n-1]), nil
		}}
	}
	p := vfDaemon(mk("d"), mk("e"))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	vf.Assert(p.Update(ctx) == nil, "the documents load")
	done := make(chan error, 1)
	vf.Delays(vf.Q(2, 3))
	go func() { done <- p.Update(ctx) }()
	m := p.GetPolicyCache(ctx)
	err := <-done
	vf.Sequential()
	vf.Assert(err == nil, "the documents load")
	_, d1 := m["d:role.v1"]
	_, e1 := m["e:role.v1"]
	_, d2 := m["d:role.v2"]
	_, e2 := m["e:role.v2"]
	vf.Assert(len(m) == 2 && (d1 && e1 || d2 && e2), "a report is of one set of policies")
	vf.Assert(len(p.GetPolicyCache(ctx)) == 2, "the policies in force are reported")
	_ = k
	vf.Cover("done")
}
