package authorizerd

import (
	"context"
	"crypto/x509"

	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
	"github.com/yahoojapan/athenz-authorizer/v5/role"
)

type vfReq struct {
	tok, act, res, query string
	cert                 int // 0 none, else certificate number
}

// Two requests that differ in any way never share a result.
func VF_C19_Pairs() {
	policyOn := vf.Choice("policy", 2) == 1
	translator := vf.Choice("translator", 2) == 1
	opts := []Option{}
	if !policyOn {
		opts = append(opts, WithDisablePolicyd())
	}
	if translator {
		opts = append(opts, WithTranslator(vfQuery{}))
	}
	a := vfAuthority(opts...)
	m := accessToken
	if vf.Choice("kind", 2) == 1 {
		m = roleToken
	}
	one, two := vfReq{tok: "t", act: "a", res: "r"}, vfReq{tok: "t", act: "a", res: "r"}
	// two of the fields vary in both requests; lengths up to n
	n := vf.Q(2, 3)
	const alpha = ":aA"
	pick := func(r *vfReq, field int) {
		switch field {
		case 0:
			r.tok = vf.StrOf("tok", alpha, 1, n)
		case 1:
			r.act = vf.StrOf("act", alpha, 1, n)
		case 2:
			r.res = vf.StrOf("res", alpha, 1, n)
		case 3:
			r.query = vf.StrOf("query", alpha, 0, n)
		}
	}
	pair := [][2]int{{0, 1}, {1, 2}, {2, 3}, {0, 2}, {1, 3}, {0, 3}}[vf.Choice("fields", 6)]
	for _, f := range pair {
		pick(&one, f)
		pick(&two, f)
	}
	vfPair(a, m, one, two, nil, nil, policyOn, translator)
}

// Text that imitates the delimiters of the cache key in any field.
func VF_C19_Delimiters() {
	a := vfAuthority(WithTranslator(vfQuery{}))
	const alpha = `:\`
	lens := [][]int{{1, 1, 3, 0}, {2, 2, 1, 0}, {1, 2, 2, 0}, {1, 1, 1, 1}, {1, 1, 2, 0}, {2, 1, 1, 0}, {3, 1, 1, 0}, {1, 3, 1, 0}}
	get := func() vfReq {
		l := lens[vf.Choice("shape", vf.Q(4, 8))]
		r := vfReq{tok: vf.StrOf("tok", alpha, l[0], l[0]), act: vf.StrOf("act", alpha, l[1], l[1]), res: vf.StrOf("res", alpha, l[2], l[2])}
		if l[3] > 0 {
			r.query = vf.StrOf("query", alpha, l[3], l[3])
		}
		return r
	}
	one := get()
	two := get()
	vfPair(a, accessToken, one, two, nil, nil, true, true)
}

// Queries that mean the same or that cannot be parsed are different queries.
func VF_C19_Queries() {
	a := vfAuthority(WithTranslator(vfQuery{}))
	one, two := vfReq{tok: "t", act: "a", res: "r"}, vfReq{tok: "t", act: "a", res: "r"}
	n := vf.Q(3, 4)
	one.query, two.query = vf.StrOf("query", "a=&%;+2", 0, n), vf.StrOf("query", "a=&%;+2", 0, n)
	vfPair(a, accessToken, one, two, nil, nil, true, true)
}

// A text in one of the fields that differs from the first one only by what is around it.
func VF_C19_Around() {
	m := accessToken
	if vf.Choice("kind", 2) == 1 {
		m = roleToken
	}
	a := vfAuthority(WithTranslator(vfQuery{}))
	one := vfReq{tok: "a.b.c", act: "a", res: "r", query: "q"}
	two := one
	f := []*string{&two.tok, &two.act, &two.res, &two.query}[vf.Choice("field", 4)]
	if vf.Choice("where", 2) == 1 {
		*f = vf.ASCII("extra", 1, 2) + *f
	} else {
		*f += vf.ASCII("extra", 1, 2)
	}
	vfPair(a, m, one, two, nil, nil, true, true)
}

// vfPair authorizes one and then two where exactly requests equal to one are allowed.
func vfPair(a *authority, m mode, one, two vfReq, cert1, cert2 *x509.Certificate, policyOn, translator bool) {
	goodTok := func(tok string, c *x509.Certificate) bool {
		sameCert := (c == nil) == (cert1 == nil)
		if c != nil && cert1 != nil {
			sameCert = string(c.Raw) == string(cert1.Raw)
		}
		return vf.And(tok == one.tok, sameCert)
	}
	rp := &vfRole{f: func(tok string) (*role.Token, error) {
		if !goodTok(tok, nil) {
			return nil, errVF
		}
		return &role.Token{Domain: "d", Roles: []string{"r"}, Principal: "p"}, nil
	}}
	ap := &vfAccess{f: func(tok string, c *x509.Certificate) (*access.OAuth2AccessTokenClaim, error) {
		if !goodTok(tok, c) {
			return nil, errVF
		}
		return vfClaim("p", "d", []string{"r"}, 1, 2, "c"), nil
	}}
	allowed := one.res
	if translator {
		allowed += "?" + one.query
	}
	pd := &vfPolicy{f: func(domain string, roles []string, act, res string) ([]string, error) {
		if !vf.And(act == one.act, res == allowed) {
			return nil, errVF
		}
		return roles, nil
	}}
	a.roleProcessor, a.accessProcessor, a.policyd = rp, ap, pd
	ctx := context.Background()
	p1, err := a.authorize(ctx, m, one.tok, one.act, one.res, one.query, cert1)
	vf.Assert(err == nil && p1 != nil, "the permitted request is authorized")
	p2, err := a.authorize(ctx, m, two.tok, two.act, two.res, two.query, cert2)
	// what a fresh evaluation of the second request gives
	same := goodTok(two.tok, cert2)
	if policyOn {
		same = vf.And(same, vf.And(two.act == one.act, two.res == one.res))
		if translator {
			same = vf.And(same, two.query == one.query)
		}
	}
	vf.Assert(vf.Iff(err == nil, same), "a cached success is reused only for the identical request")
	vf.Assert((err == nil) == (p2 != nil), "a principal exactly with a success")
	if err == nil {
		vf.Cover("reused")
	} else {
		vf.Cover("not reused")
	}
}

// Client certificates: same names, other certificate; names with delimiters.
func VF_C19_Certs() {
	policyOn := vf.Choice("policy", 2) == 1
	opts := []Option{}
	if !policyOn {
		opts = append(opts, WithDisablePolicyd())
	}
	a := vfAuthority(opts...)
	const alpha = `:\aA`
	n := vf.Q(1, 2)
	c1 := vfCert(vf.Choice("cert", 2), vf.StrOf("issuer", alpha, 0, n), vf.StrOf("subject", alpha, 0, n))
	c2 := vfCert(vf.Choice("cert", 3), vf.StrOf("issuer", alpha, 0, n), vf.StrOf("subject", alpha, 0, n))
	if c1 != nil && c2 != nil && c1.Raw[3] == c2.Raw[3] {
		c2 = c1 // the content determines the names
	}
	one := vfReq{tok: vf.StrOf("tok", alpha, 1, 1), act: "a", res: "a"}
	two := vfReq{tok: vf.StrOf("tok", alpha, 1, 1), act: "a", res: "a"}
	if policyOn {
		two.tok, two.act, two.res = one.tok, vf.StrOf("act", alpha, 1, 1), vf.StrOf("res", alpha, 1, vf.Q(1, 2))
	}
	vfPair(a, accessToken, one, two, c1, c2, policyOn, false)
}

// The same text presented as the other kind of credential.
func VF_C19_Kinds() {
	a := vfAuthority()
	first, second := accessToken, roleToken
	if vf.Choice("order", 2) == 1 {
		first, second = roleToken, accessToken
	}
	tok := vf.StrOf("tok", `.;as=`, 1, 2)
	rp := &vfRole{f: func(string) (*role.Token, error) {
		if first != roleToken {
			return nil, errVF
		}
		return &role.Token{Domain: "d", Roles: []string{"r"}, Principal: "p"}, nil
	}}
	ap := &vfAccess{f: func(string, *x509.Certificate) (*access.OAuth2AccessTokenClaim, error) {
		if first != accessToken {
			return nil, errVF
		}
		return vfClaim("p", "d", []string{"r"}, 1, 2, "c"), nil
	}}
	pd := &vfPolicy{f: func(domain string, roles []string, act, res string) ([]string, error) { return roles, nil }}
	a.roleProcessor, a.accessProcessor, a.policyd = rp, ap, pd
	ctx := context.Background()
	_, err := a.authorize(ctx, first, tok, "act", "res", "", nil)
	vf.Assert(err == nil, "the permitted request is authorized")
	p, err := a.authorize(ctx, second, tok, "act", "res", "", nil)
	vf.Assert(err != nil && p == nil, "a success is not reused for another kind of credential")
	_, err = a.authorize(ctx, first, tok, "act", "res", "", nil)
	vf.Assert(err == nil, "the permitted request is still authorized")
}

// Tokens of several parts that differ in one of them only.
func VF_C19_Tokens() {
	a := vfAuthority()
	m := accessToken
	get := func() string {
		h, p, s := vf.StrOf("header", "aA", 1, 1), vf.StrOf("payload", "aA", 1, 1), vf.StrOf("signature", "aA", 1, 1)
		if m == roleToken {
			return "d=" + h + ";k=" + p + ";s=" + s
		}
		return h + "." + p + "." + s
	}
	if vf.Choice("kind", 2) == 1 {
		m = roleToken
	}
	one, two := vfReq{tok: get(), act: "a", res: "r"}, vfReq{tok: get(), act: "a", res: "r"}
	vfPair(a, m, one, two, nil, nil, true, false)
}
