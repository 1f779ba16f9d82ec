package policy

import (
	"context"
	"strings"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

func vfOne(role, action, resource string) (*policyd, error) {
	p := vfDaemon(vfFixed("d", vfDoc("d", time.Now().Add(time.Hour), []*util.Assertion{vfAss(role, action, resource, "ALLOW")})))
	return p, p.Update(context.Background())
}

// One allow assertion with a symbolic action pattern, asked with a symbolic action.
func VF_C03_Action() {
	n := vf.Q(3, 4)
	pat := vf.ASCII("pattern", 0, n)
	act := vf.ASCII("action", 0, n)
	p, err := vfOne("d:role.r", pat, "d:res")
	vf.Assert(err == nil, "every action pattern loads")
	got := p.CheckPolicy(context.Background(), "d", []string{"r"}, act, "res") == nil
	if got {
		vf.Cover("granted")
	} else {
		vf.Cover("denied")
	}
	vf.Observe("granted", got)
	vf.Assert(got == specGlob(pat, act), "action is matched as a case-insensitive glob")
}

func VF_C03_Resource() {
	n := vf.Q(3, 4)
	pat := vf.ASCII("pattern", 0, n)
	res := vf.ASCII("resource", 0, n)
	p, err := vfOne("d:role.r", "act", "d:"+pat)
	vf.Assert(err == nil, "every resource pattern loads")
	got := p.CheckPolicy(context.Background(), "d", []string{"r"}, "ACT", res) == nil
	if got {
		vf.Cover("granted")
	} else {
		vf.Cover("denied")
	}
	vf.Observe("granted", got)
	vf.Assert(got == specGlob(pat, res), "resource is matched as a case-insensitive glob")
}

// Repetition and class syntax of regular expressions means nothing.
func VF_C03_Syntax() {
	pats := []string{"a{2}", "a{1,}b", "[ab]", "[^a]", "(a|b)", "a+?", "\\d", "\\.", "^a$", "(?i)a", "a{,2}", "\\Qa\\E", "[[:alpha:]]", "\\x41", "(?:a)*"}
	pat := pats[vf.Choice("pattern", len(pats))]
	k := vf.Choice("change", 2)
	if k == 1 {
		pat += vf.StrOf("more", "a*?", 1, 1)
	}
	txt := vf.ASCII("text", 0, 2)
	if vf.Choice("literal", 2) == 1 {
		txt = pat[:len(pat)-k] + vf.StrOf("rest", "a*?", 0, 1)
	}
	p, err := vfOne("d:role.r", "act", "d:"+pat)
	vf.Assert(err == nil, "every resource pattern loads")
	q, err := vfOne("d:role.r", pat, "d:*")
	vf.Assert(err == nil, "every action pattern loads")
	want := specGlob(pat, txt)
	vf.Assert((p.CheckPolicy(context.Background(), "d", []string{"r"}, "act", txt) == nil) == want, "resource is matched as a case-insensitive glob")
	vf.Assert((q.CheckPolicy(context.Background(), "d", []string{"r"}, txt, "x") == nil) == want, "action is matched as a case-insensitive glob")
	if want {
		vf.Cover("matched")
	} else {
		vf.Cover("not matched")
	}
}

// The text before the first colon is the domain; without a colon the assertion is rejected.
func VF_C03_Domain() {
	n := vf.Q(3, 4)
	full := vf.StrOf("full", "dDe*?:. ", 0, n)
	dom := vf.StrOf("domain", "dDe*? ", 1, 2)
	p, err := vfOne(dom+":role.r", "act", full)
	cut := strings.IndexByte(full, ':')
	if cut < 0 {
		vf.Cover("no colon")
		vf.Assert(err != nil, "an assertion whose resource has no colon is rejected")
		return
	}
	vf.Assert(err == nil, "an assertion with a colon loads")
	res := vf.StrOf("resource", "dDe:*.", 0, 2)
	got := p.CheckPolicy(context.Background(), dom, []string{"r"}, "act", res) == nil
	want := vf.And(specFold(full[:cut], dom), specGlob(full[cut+1:], res))
	if got {
		vf.Cover("granted")
	} else {
		vf.Cover("denied")
	}
	vf.Observe("granted", got)
	vf.Assert(got == want, "the domain part is compared ignoring case and the rest is the pattern")
}

// A domain's parent, child, prefix and suffix are other domains.
func VF_C03_Related() {
	d := vf.StrOf("base", "dD.-", 1, 2)
	near := d
	switch vf.Choice("side", 4) {
	case 1:
		near = vf.StrOf("front", "dx.-_*", 1, 2) + d
	case 2:
		near = d + vf.StrOf("back", "dx.-_*", 1, 2)
	case 3:
		near = vf.StrOf("front1", "x.", 1, 1) + d + vf.StrOf("back1", "x.", 1, 1)
	}
	dom, full := d, near
	if vf.Choice("checked", 2) == 1 {
		dom, full = near, d
	}
	p, err := vfOne(dom+":role.r", "act", full+":x")
	vf.Assert(err == nil, "an assertion with a colon loads")
	got := p.CheckPolicy(context.Background(), dom, []string{"r"}, "act", "x") == nil
	if got {
		vf.Cover("granted")
	} else {
		vf.Cover("denied")
	}
	vf.Assert(got == specFold(full, dom), "a related domain is another domain")
}

// Patterns and texts with characters of more than one byte.
func VF_C03_Wide() {
	parts := []string{"é", "日", "*", "?", "a", "(", "É"}
	pat := vf.StrOf("p0", "a*?[", 0, 1) + parts[vf.Choice("p1", len(parts))] + vf.StrOf("p2", "a*?.", 0, 1)
	texts := []string{"é", "日", "a", "éé", "日a", "(", "aé", "É"}
	txt := texts[vf.Choice("t1", len(texts))] + vf.StrOf("t2", "a.[", 0, 1)
	p, err := vfOne("d:role.r", pat, "d:*")
	vf.Assert(err == nil, "every pattern loads")
	got := p.CheckPolicy(context.Background(), "d", []string{"r"}, txt, "x") == nil
	vf.Observe("granted", got)
	if got {
		vf.Cover("granted")
	}
	vf.Assert(got == specWide([]rune(strings.ToLower(pat)), []rune(strings.ToLower(txt))), "'?' matches one whole character")
}

func specWide(p, t []rune) bool {
	row := make([]bool, len(t)+1)
	row[0] = true
	for i := 0; i < len(p); i++ {
		next := make([]bool, len(t)+1)
		star := p[i] == '*'
		next[0] = row[0] && star
		for j := 1; j <= len(t); j++ {
			next[j] = star && (row[j] || next[j-1]) || !star && row[j-1] && (p[i] == '?' || p[i] == t[j-1])
		}
		row = next
	}
	return row[len(t)]
}
