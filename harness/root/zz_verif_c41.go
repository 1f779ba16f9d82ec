package authorizerd

//vf:use net

import (
	"context"
	"strings"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// The authorizer reports the policies of its domains, or none without policy checking.
func VF_C41_Authorizer() {
	pub, keys, dom := vfPubDoc(), vfJwkDoc(), vfPolicyDoc("dom", "a", time.Now().Add(time.Hour))
	net := vfNewNet(func(r vfRequest) (int, string, string, error) {
		switch {
		case strings.Contains(r.url, "/service/"):
			return 200, "", pub, nil
		case strings.Contains(r.url, "/oauth2/keys"):
			return 200, "", keys, nil
		}
		return 200, "", dom, nil
	})
	on := vf.Choice("policies", 2) == 1
	opts := []Option{WithHTTPClient(net.client()), WithAthenzDomains("dom")}
	if !on {
		opts = append(opts, WithDisablePolicyd())
	}
	a, err := New(opts...)
	vf.Assert(err == nil, "the authorizer can be constructed")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	m := a.GetPolicyCache(ctx)
	vf.Assert(m != nil && len(m) == 0, "nothing is reported before policies are loaded")
	m["x"] = 1
	vf.Assert(a.Init(ctx) == nil, "the authorizer initializes")
	m = a.GetPolicyCache(ctx)
	_, ok := m["dom:role.a"]
	if on {
		vf.Cover("reported")
		vf.Assert(len(m) == 1 && ok, "the policies in force are reported")
	} else {
		vf.Cover("disabled")
		vf.Assert(m != nil && len(m) == 0, "nothing is reported without policy checking")
	}
}
