package authorizerd

import (
	"context"
	"crypto/x509"
	"errors"
	"net/http"
	"net/url"

	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
	"github.com/yahoojapan/athenz-authorizer/v5/role"
)

// Empty action or resource, after any history that may have filled the cache.
func VF_C22_Empty() {
	policyOn := vf.Choice("policy", 2) == 1
	opts := []Option{}
	if !policyOn {
		opts = append(opts, WithDisablePolicyd())
	}
	if vf.Choice("translator", 2) == 1 {
		opts = append(opts, WithTranslator(vfQuery{}))
	}
	if vf.Choice("prefix", 2) == 1 {
		opts = append(opts, WithResourcePrefix("p:"))
	}
	a := vfAuthority(opts...)
	good := vf.StrOf("good", "aAb: ", 0, 1)
	rp := &vfRole{f: func(tok string) (*role.Token, error) {
		if tok != good {
			return nil, errVF
		}
		return &role.Token{Domain: "d", Roles: []string{"r"}, Principal: "p"}, nil
	}}
	ap := &vfAccess{f: func(tok string, _ *x509.Certificate) (*access.OAuth2AccessTokenClaim, error) {
		if tok != good {
			return nil, errVF
		}
		return vfClaim("p", "d", []string{"r"}, 1, 2, "c"), nil
	}}
	pd := &vfPolicy{f: func(domain string, roles []string, act, res string) ([]string, error) { return roles, nil }}
	a.roleProcessor, a.accessProcessor, a.policyd = rp, ap, pd
	m := accessToken
	if vf.Choice("kind", 2) == 1 {
		m = roleToken
	}
	ctx := context.Background()
	do := func(i int) {
		tok := vf.StrOf("tok", "aAb: ", 0, 1)
		act := vf.StrOf("act", "a: ", 0, 1)
		res := vf.StrOf("res", "a: ", 0, 1)
		before := rp.calls + ap.calls
		var p Principal
		var err error
		switch {
		case m == accessToken && i == 0:
			p, err = a.AuthorizeAccessToken(ctx, tok, act, res, nil)
		case m == accessToken:
			err = a.VerifyAccessToken(ctx, tok, act, res, nil)
		case i == 0:
			p, err = a.AuthorizeRoleToken(ctx, tok, act, res)
		default:
			err = a.VerifyRoleToken(ctx, tok, act, res)
		}
		if policyOn && (act == "" || res == "") {
			vf.Cover("empty")
			vf.Assert(err != nil && p == nil, "an empty action or resource is never authorized")
			vf.Assert(errors.Is(err, ErrInvalidParameters), "an empty action or resource is reported as invalid parameters")
			vf.Assert(rp.calls+ap.calls == before, "such a request is not evaluated")
			return
		}
		vf.Assert(vf.Iff(err == nil, tok == good), "otherwise the token decides")
		if err == nil {
			vf.Cover("authorized")
		}
	}
	do(0)
	do(1)
}

// Requests with a query, whatever the translator would make of them.
func VF_C22_Requests() {
	policyOn := vf.Choice("policy", 2) == 1
	var opts []Option
	if !policyOn {
		opts = append(opts, WithDisablePolicyd())
	}
	switch vf.Choice("translator", 3) {
	case 1:
		opts = append(opts, WithTranslator(vfQuery{}))
	case 2:
		mr, err := NewMappingRules(map[string][]Rule{"d": {{Method: "get", Path: "/{x}?p={y}", Action: "act", Resource: "res"}, {Method: "get", Path: "", Action: "act", Resource: "res"}}})
		if err != nil {
			vf.Assert(false, "well-formed rules are accepted")
			return
		}
		opts = append(opts, WithTranslator(mr))
	}
	if vf.Choice("prefix", 2) == 1 {
		opts = append(opts, WithResourcePrefix("p:"))
	}
	opts = append(opts, WithAccessTokenParam(NewAccessTokenParam(true, false, "", "", false, nil)))
	a := vfAuthority(opts...)
	good := vf.Bool("good")
	a.roleProcessor = &vfRole{f: func(string) (*role.Token, error) {
		if !good {
			return nil, errVF
		}
		return &role.Token{Domain: "d", Roles: []string{"r"}, Principal: "p"}, nil
	}}
	a.accessProcessor = &vfAccess{f: func(string, *x509.Certificate) (*access.OAuth2AccessTokenClaim, error) {
		if !good {
			return nil, errVF
		}
		return vfClaim("p", "d", []string{"r"}, 1, 2, "c"), nil
	}}
	a.policyd = &vfPolicy{f: func(domain string, roles []string, act, res string) ([]string, error) { return roles, nil }}
	for i := 0; i < 2; i++ {
		req := &http.Request{Method: "GET", Header: http.Header{}, URL: &url.URL{Path: "/", RawQuery: []string{"", "p=b", "p"}[vf.Choice("query", 3-i)]}}
		if vf.Choice("kind", 2) == 1 {
			req.Header.Set("Athenz-Role-Auth", "tok")
		} else {
			req.Header.Set("Authorization", "Bearer tok")
		}
		act := []string{"get", "", "act", " "}[vf.Choice("act", 4-2*i)]
		res := []string{"/a", "", "/", "res"}[vf.Choice("res", 4-2*i)]
		p, err := a.Authorize(req, act, res)
		if policyOn && (act == "" || res == "") {
			vf.Cover("empty")
			vf.Assert(err != nil && p == nil, "an empty action or resource is never authorized")
			continue
		}
		vf.Assert((err == nil) == good, "otherwise the token decides")
		if err == nil {
			vf.Cover("authorized")
		}
	}
}
