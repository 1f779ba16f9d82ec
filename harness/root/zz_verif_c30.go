package authorizerd

//vf:use net

import (
	"context"
	"strings"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// specSchemeEnd is the length of a leading "scheme://", 0 without one.
func specSchemeEnd(s string) int {
	for i := 0; i < len(s); i++ {
		c := s[i]
		alpha := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		rest := c >= '0' && c <= '9' || c == '+' || c == '-' || c == '.'
		if c == ':' {
			if i > 0 && i+2 < len(s) && s[i+1] == '/' && s[i+2] == '/' {
				return i + 3
			}
			return 0
		}
		if !alpha && (i == 0 || !rest) {
			return 0
		}
	}
	return 0
}

// vfConfigured is what an Athenz URL refers to; false when it must be refused.
func vfConfigured(s string) (string, bool) {
	t := s
	if strings.HasPrefix(s, "http://") {
		t = s[7:]
	} else if strings.HasPrefix(s, "https://") {
		t = s[8:]
	}
	return t, specSchemeEnd(t) == 0
}

func vfAthenzURL() string {
	prefixes := []string{"", "http://", "https://", "HTTP://", "ftp://", "x+y-1.z://", "http:/", "https//", "://", "1a://", "httpss://", "http://http://", "unix:"}
	return prefixes[vf.Choice("prefix", len(prefixes))] + vf.StrOf("rest", "ahH.:/1-", 0, vf.Q(5, 7))
}

// Which Athenz URLs are accepted.
func VF_C30_Accepted() {
	s := vfAthenzURL()
	t, ok := vfConfigured(s)
	vf.Assume(t != "")
	_, err := New(WithHTTPClient(vfSlowTrans), WithAthenzURL(s), WithAthenzDomains("dom"))
	vf.Assert(vf.Iff(err == nil, ok), "an Athenz URL is refused exactly when it has another scheme")
	if err == nil {
		vf.Cover("accepted")
	} else {
		vf.Cover("refused")
	}
}

func vfInitNet(net *vfNet, opts ...Option) error {
	a, err := New(append([]Option{WithHTTPClient(net.client()), WithDisableRoleCert(), WithPolicyRetryAttempts(-1)}, opts...)...)
	if err != nil {
		return err
	}
	a.Init(context.Background())
	return nil
}

// Where the requests go to.
func VF_C30_Requests() {
	hosts := []string{"h", "athenz.io", "h:4443", "127.0.0.1:8443", "h/zts/v1", "h/a.b/", "h//x", "H"}
	host := hosts[vf.Choice("host", len(hosts))]
	tail := vf.StrOf("tail", "aA/-", 0, vf.Q(3, 4))
	if !strings.Contains(host, "/") && tail != "" {
		vf.Assume(tail[0] == '/')
	}
	t := host + tail
	s := []string{"", "http://", "https://"}[vf.Choice("scheme", 3)] + t
	dom := vf.StrOf("domain", "d.-", 1, vf.Q(3, 4))
	sys := vf.StrOf("sysAuth", "s.", 0, vf.Q(2, 3))
	sysName := sys
	if sys == "" {
		sysName = "sys.auth"
	}
	kind := vf.Choice("kind", 3)
	net := vfNewNet(func(r vfRequest) (int, string, string, error) { return 200, "", vfPubDoc(), nil })
	opts := []Option{WithAthenzURL(s), WithAthenzDomains(dom), WithPubkeySysAuthDomain(sys)}
	var want []string
	switch kind {
	case 0:
		opts = append(opts, WithDisablePolicyd(), WithDisableJwkd())
		want = []string{"/domain/" + sysName + "/service/zts", "/domain/" + sysName + "/service/zms"}
	case 1:
		opts = append(opts, WithDisablePubkeyd(), WithDisableJwkd(), WithPolicyRetryAttempts(1), WithPolicyRetryDelay("1ms"))
		want = []string{"/domain/" + dom + "/signed_policy_data"}
	case 2:
		opts = append(opts, WithDisablePubkeyd(), WithDisablePolicyd())
		want = []string{"/oauth2/keys?rfc=true"}
	}
	if vfInitNet(net, opts...) != nil {
		vf.Assert(false, "an Athenz URL without another scheme is accepted")
		return
	}
	vf.Assert(len(net.reqs) >= len(want), "every endpoint is asked")
	for _, w := range want {
		in := false
		for _, r := range net.reqs {
			in = vf.Or(in, r.url == "https://"+t+w)
		}
		vf.Assert(in, "the documented endpoint is asked over https")
	}
	for _, r := range net.reqs {
		in := false
		for _, w := range want {
			in = vf.Or(in, r.url == "https://"+t+w)
		}
		vf.Assert(in, "nothing else is asked")
		vf.Assert(r.method == "GET", "data is only read")
	}
}

// Additional JWK URLs.
func VF_C30_JwkURLs() {
	prefixes := []string{"", "http://", "https://", "HTTPS://", "ftp://", "/", "//", "http:/", "http:", "h", "httpx://", "https+x://"}
	s := prefixes[vf.Choice("prefix", len(prefixes))] + vf.StrOf("rest", "ah.:/", 0, vf.Q(3, 4))
	net := vfNewNet(func(r vfRequest) (int, string, string, error) { return 200, "", vfJwkDoc(), nil })
	var urls []string
	switch vf.Choice("position", 3) {
	case 0:
		urls = []string{s}
	case 1:
		urls = []string{"https://first/x", s}
	case 2:
		urls = []string{s, "http://second/x"}
	}
	err := vfInitNet(net, WithAthenzURL("h"), WithAthenzDomains("dom"), WithDisablePubkeyd(), WithDisablePolicyd(), WithJwkURLs(urls))
	low := strings.ToLower(s)
	if err == nil {
		vf.Assert(vf.Or(strings.HasPrefix(low, "http:"), strings.HasPrefix(low, "https:")), "only absolute http and https URLs are accepted")
		vf.Cover("accepted")
		for _, u := range urls {
			if i := strings.Index(u, "://"); i < 0 || i+3 == len(u) || u[i+3] == '/' || strings.Count(u, ":") > 1 {
				continue // names no host, or an empty port
			}
			in := false
			for _, r := range net.reqs {
				// the scheme is compared without case
				in = vf.Or(in, strings.ToLower(r.url) == strings.ToLower(u))
			}
			vf.Assert(in, "an accepted URL is the one asked")
		}
		in := false
		for _, r := range net.reqs {
			in = vf.Or(in, r.url == "https://h/oauth2/keys?rfc=true")
		}
		vf.Assert(in, "Athenz is asked as well")
		return
	}
	vf.Cover("refused")
	simple := (strings.HasPrefix(s, "http://") || strings.HasPrefix(s, "https://")) && strings.Count(s, ":") == 1
	vf.Assert(vf.Not(simple), "a plain http or https URL is accepted")
}
