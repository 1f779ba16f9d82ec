package policy

import (
	"context"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/ardielle/ardielle-go/rdl"
	"github.com/kpango/gache"
)

// vfFetcher hands out prepared documents.
type vfFetcher struct {
	domain string
	f      func(context.Context) (*SignedPolicy, error)
}

func (f *vfFetcher) Domain() string { return f.domain }
func (f *vfFetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
	return f.f(ctx)
}
func (f *vfFetcher) FetchWithRetry(ctx context.Context) (*SignedPolicy, error) {
	return f.f(ctx)
}

// vfDaemon is a policy daemon with prepared fetchers.
func vfDaemon(fs ...*vfFetcher) *policyd {
	g := gache.New()
	p := &policyd{
		rolePolicies:  &g,
		purgePeriod:   time.Hour,
		refreshPeriod: time.Hour,
		fetchers:      map[string]Fetcher{},
	}
	for _, f := range fs {
		p.fetchers[f.domain] = f
	}
	return p
}

func vfFixed(domain string, sp *SignedPolicy) *vfFetcher {
	return &vfFetcher{domain, func(context.Context) (*SignedPolicy, error) { return sp, nil }}
}

// vfDoc wraps assertions (one policy each list) into a document.
func vfDoc(domain string, exp time.Time, pols ...[]*util.Assertion) *SignedPolicy {
	pd := &util.PolicyData{Domain: domain}
	for _, as := range pols {
		pd.Policies = append(pd.Policies, &util.Policy{Name: "p", Assertions: as})
	}
	return &SignedPolicy{util.DomainSignedPolicyData{
		KeyId:     "k",
		Signature: "s",
		SignedPolicyData: &util.SignedPolicyData{
			Expires:      &rdl.Timestamp{Time: exp},
			PolicyData:   pd,
			ZmsKeyId:     "zk",
			ZmsSignature: "zs",
		},
	}}
}

func vfAss(role, action, resource, effect string) *util.Assertion {
	return &util.Assertion{Role: role, Action: action, Resource: resource, Effect: effect}
}

func specLower(b byte) byte {
	if b >= 'A' && b <= 'Z' {
		return b + 32
	}
	return b
}

// specGlob is glob matching written directly over bytes: t is cut at every position.
func specGlob(p, t string) bool {
	// row[j]: pattern prefix matches t[:j]
	row := make([]bool, len(t)+1)
	row[0] = true
	for i := 0; i < len(p); i++ {
		next := make([]bool, len(t)+1)
		star := p[i] == '*'
		any := p[i] == '?'
		next[0] = row[0] && star
		for j := 1; j <= len(t); j++ {
			nl := t[j-1] == '\n'
			s := star && (row[j] || (next[j-1] && !nl))
			q := !star && row[j-1] && ((any && !nl) || (!any && specLower(p[i]) == specLower(t[j-1])))
			next[j] = s || q
		}
		row = next
	}
	return row[len(t)]
}

func specFold(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := 0; i < len(a); i++ {
		ok = ok && specLower(a[i]) == specLower(b[i])
	}
	return ok
}
