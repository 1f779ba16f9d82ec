package authorizerd

import (
	"context"
	"crypto/x509"
	"crypto/x509/pkix"
	"net/url"
	"strings"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// vfGrant is one role named by a certificate.
type vfGrant struct{ domain, role string }

// vfHas tells whether the roles are exactly those granted for the domain.
func vfHas(roles []string, grants []vfGrant, domain string) bool {
	eq := true
	for _, g := range grants {
		in := false
		for _, r := range roles {
			in = vf.Or(in, r == g.role)
		}
		eq = vf.And(eq, vf.Or(g.domain != domain, in))
	}
	for _, r := range roles {
		in := false
		for _, g := range grants {
			in = vf.Or(in, vf.And(g.domain == domain, g.role == r))
		}
		eq = vf.And(eq, in)
	}
	return eq
}

// vfRoleCerts builds peer certificates and the roles they name.
func vfRoleCerts(prefix string, n int, forms int) ([]*x509.Certificate, []vfGrant) {
	var grants []vfGrant
	var certs []*x509.Certificate
	for i := 0; i < n; i++ {
		c := &x509.Certificate{}
		d, r := vf.StrOf("domain", "aAb", 1, 2), vf.StrOf("role", "aAb", 1, 2)
		switch vf.Choice("cn", forms) {
		case 0:
			c.Subject = pkix.Name{CommonName: d + ":role." + r}
			grants = append(grants, vfGrant{d, r})
		case 1:
			c.Subject = pkix.Name{CommonName: d + ".role" + r}
		case 2:
			c.Subject = pkix.Name{CommonName: d + ":role." + r + ":role.x"}
			grants = append(grants, vfGrant{d, r + ":role.x"})
		case 3:
		}
		k := vf.Choice("uri", forms)
		if k > 0 {
			ud, ur := vf.StrOf("udomain", "aAb", 1, 2), vf.StrOf("urole", "aAb", 1, 2)
			var u *url.URL
			switch k {
			case 1:
				u = &url.URL{Scheme: "athenz", Host: "role", Path: "/" + ud + "/" + ur}
				if strings.HasPrefix("athenz://role/", prefix) {
					if prefix == "athenz://role/" {
						grants = append(grants, vfGrant{ud, ur})
					} else {
						grants = append(grants, vfGrant{"role", ud + "/" + ur})
					}
				}
			case 2:
				u = &url.URL{Scheme: "spiffe", Host: "role", Path: "/" + ud + "/" + ur}
			case 3:
				u = &url.URL{Scheme: "athenz", Host: "role", Path: "/" + ud}
				if prefix == "athenz://" {
					grants = append(grants, vfGrant{"role", ud})
				}
			}
			c.URIs = append(c.URIs, &url.URL{Scheme: "spiffe", Host: "x", Path: "/y"}, u)
		}
		certs = append(certs, c)
	}
	return certs, grants
}

// Which policy checks role certificates lead to.
func vfRoleCert(a *authority, certs []*x509.Certificate, grants []vfGrant) {
	granted := []string{"", "a", "ab", "ba"}[vf.Choice("granted", 4)] // the domain whose check succeeds
	refusal := vfRefusal()
	var asked []string
	pd := &vfPolicy{f: func(domain string, roles []string, act, res string) ([]string, error) {
		vf.Assert(act == "act" && res == "res", "the check is made for the requested action and resource")
		asked = append(asked, domain)
		vf.Assert(vfHas(roles, grants, domain), "a domain's check gets exactly the roles the certificates name for it")
		if domain == granted {
			return roles, nil
		}
		return nil, refusal
	}}
	a.policyd = pd
	err := a.VerifyRoleCert(context.Background(), certs, "act", "res")
	want := false
	for _, g := range grants {
		want = vf.Or(want, g.domain == granted)
	}
	vf.Assert(vf.Iff(err == nil, want), "certificates are accepted exactly when some domain's roles are authorized")
	if err == nil {
		vf.Cover("accepted")
		return
	}
	vf.Cover("rejected")
	for _, g := range grants {
		in := false
		for _, d := range asked {
			in = vf.Or(in, d == g.domain)
		}
		vf.Assert(in, "every named domain is checked before rejecting")
	}
	vf.Assert(len(grants) > 0 || len(asked) == 0, "nothing is checked for certificates naming no role")
}

// One certificate of every form.
func VF_C26_One() {
	vf.MapOrder(2)
	prefix := []string{"athenz://role/", "athenz://"}[vf.Choice("prefix", 2)]
	a := vfAuthority(WithRoleCertURIPrefix(prefix))
	certs, grants := vfRoleCerts(prefix, vf.Choice("certs", 2), 4)
	vfRoleCert(a, certs, grants)
}

// Several certificates: roles are neither mixed up nor dropped.
func VF_C26_Several() {
	vf.MapOrder(vf.Q(2, 3))
	a := vfAuthority()
	var grants []vfGrant
	var certs []*x509.Certificate
	n := vf.Q(2, 3)
	for i := 0; i < n; i++ {
		g := vfGrant{vf.StrOf("domain", "aAb", 1, 2), vf.StrOf("role", "aAb", 1, 2)}
		grants = append(grants, g)
		c := &x509.Certificate{}
		switch {
		case i == 0 || vf.Choice("where", 2) == 0: // a certificate of its own
			c.Subject = pkix.Name{CommonName: g.domain + ":role." + g.role}
			c.IsCA = vf.Bool("ca")
			certs = append(certs, c)
		case vf.Choice("own", 2) == 0:
			c.URIs = []*url.URL{{Scheme: "athenz", Host: "role", Path: "/" + g.domain + "/" + g.role}}
			certs = append(certs, c)
		default: // a further role of the previous certificate
			c = certs[len(certs)-1]
			c.URIs = append(c.URIs, &url.URL{Scheme: "athenz", Host: "role", Path: "/" + g.domain + "/" + g.role})
		}
	}
	vfRoleCert(a, certs, grants)
}

// URIs are compared and read as they are written.
func VF_C26_Texts() {
	prefix := []string{"athenz://role/", "athenz://role/a/", "athenz://role/A", "spiffe://x/ns/", "athenz://"}[vf.Choice("prefix", 5)]
	texts := []string{"athenz://role/a/b%2Fc", "athenz://role/a/b%61", "athenz://role/a/b?c", "athenz://role/a/b#c", "athenz://role/a%62/c", "athenz://role/a/b/c", "athenz://Role/a/b", "athenz://role/A/b",
		"athenz://role/ab/a:role.b", "athenz://user@role/a/b", "athenz://role:1/a/b", "athenz://role/a.b/c", "spiffe://x/ns/a/b", "athenz://role/a"}
	c := &x509.Certificate{}
	var grants []vfGrant
	n := vf.Q(1, 2)
	for i := 0; i < n; i++ {
		s := texts[vf.Choice("uri", len(texts))]
		u, err := url.Parse(s)
		if err != nil {
			continue
		}
		c.URIs = append(c.URIs, u)
		if !strings.HasPrefix(s, prefix) {
			continue
		}
		rest := s[len(prefix):]
		if k := strings.Index(rest, "/"); k >= 0 {
			grants = append(grants, vfGrant{rest[:k], rest[k+1:]})
		}
	}
	vfRoleCert(vfAuthority(WithRoleCertURIPrefix(prefix)), []*x509.Certificate{c}, grants)
}

// Without policy checking there is nothing to check.
func VF_C26_PolicyOff() {
	a := vfAuthority(WithDisablePolicyd())
	certs, _ := vfRoleCerts("athenz://role/", vf.Choice("certs", 2), 2)
	vf.Assert(a.VerifyRoleCert(context.Background(), certs, "act", "res") == nil, "role certificates are not checked with policy checking disabled")
}
