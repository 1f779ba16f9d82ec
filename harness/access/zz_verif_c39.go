package access

import (
	"crypto/x509"
	"fmt"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

const vfText39 = "aB .:,="

// Every identity claim present or absent, every value up to the bound, one claim at a time longer.
func VF_C39_Texts() {
	names := []string{"sub", "aud", "client_id", "uid", "proxy"}
	long := vf.Choice("long", len(names))
	absent := vf.Choice("absent", len(names)+1)
	var vals [5]string
	claims := `{"exp":9999999999,"iat":1`
	for i, n := range names {
		if i == absent {
			continue
		}
		if i == long {
			vals[i] = vf.StrOf(n, vfText39, 0, vf.Q(4, 6))
		} else {
			vals[i] = vf.StrOf(n, vfText39, 0, 1)
		}
		claims += `,"` + n + `":"` + vals[i] + `"`
	}
	c, err := vfProcessor().ParseAndValidateOAuth2AccessToken(vfToken(claims+"}"), nil)
	vf.Assert(err == nil && c != nil, "a valid token is accepted")
	vf.Assert(c.Subject == vals[0], "the subject is the signed one")
	vf.Assert(c.Audience == vals[1], "the audience is the signed one")
	vf.Assert(c.ClientID == vals[2], "the client id is the signed one")
	vf.Assert(c.UserID == vals[3], "the user id is the signed one")
	vf.Assert(c.ProxyPrincipal == vals[4], "the proxy principal is the signed one")
	vf.Assert(len(c.Scope) == 0 && len(c.Confirm) == 0 && c.Version == 0 && c.AuthTime == 0 && c.Issuer == "" && c.Id == "", "absent claims are empty")
	vf.Cover("accepted")
}

// The scopes, whatever else the processor is configured to check.
func VF_C39_Scopes() {
	n := vf.Choice("scopes", vf.Q(4, 5))
	scopes := make([]string, n)
	list := ""
	for i := range scopes {
		scopes[i] = vf.StrOf("scope", vfText39, 0, vf.Q(2, 3))
		if i > 0 {
			list += ","
		}
		list += `"` + scopes[i] + `"`
	}
	claims := `{"exp":9999999999,"iat":1,"client_id":"c","cnf":{"proxy-principals#spiffe":[]},"scp":[` + list + "]}"
	var opts []Option
	if vf.Choice("client", 2) == 1 {
		opts = append(opts, WithEnableVerifyClientID(true), WithAuthorizedClientIDs(map[string][]string{"": {"c"}}))
	}
	c, err := vfProcessor(opts...).ParseAndValidateOAuth2AccessToken(vfToken(claims), &x509.Certificate{})
	vf.Assert(err == nil && c != nil, "a valid token is accepted")
	vf.Assert(len(c.Scope) == n, "every scope is reported")
	for i := range scopes {
		vf.Assert(c.Scope[i] == scopes[i], "the scopes are the signed ones, in order")
	}
	vf.Cover("accepted")
}

// The numbers and the members that are not recognised.
func VF_C39_Numbers() {
	at := vf.Int("auth_time", -1<<63, 1<<63-1)
	ver := vf.Int("ver", -1<<31, 1<<31-1)
	exp := vf.Int("exp", 1<<40, 1<<63-1)
	iat := vf.Int("iat", -1<<63, 1)
	extra := []string{"", `"x":{"sub":"z","scp":["z"]},`, `"roles":["z"],"scope":"z","azp":"z",`, `"cnf":{"sub":"z"},`, `"domain":"z","name":"z",`}[vf.Choice("extra", 5)]
	claims := fmt.Sprintf(`{%s"exp":%d,"iat":%d,"ver":%d,"auth_time":%d,"iss":"i","jti":"j"}`, extra, exp, iat, ver, at)
	c, err := vfProcessor().ParseAndValidateOAuth2AccessToken(vfToken(claims), nil)
	vf.Assert(err == nil && c != nil, "a valid token is accepted")
	vf.Assert(vf.And(c.AuthTime == at, int64(c.Version) == ver), "authentication time and version are the signed ones")
	vf.Assert(vf.And(c.ExpiresAt == exp, vf.And(c.IssuedAt == iat, c.NotBefore == 0)), "the times are the signed ones")
	vf.Assert(c.Issuer == "i" && c.Id == "j", "issuer and id are the signed ones")
	vf.Assert(c.Subject == "" && c.Audience == "" && c.ClientID == "" && len(c.Scope) == 0, "members that are not recognised have no effect")
	vf.Cover("accepted")
}

// A claim of another type than the documented one.
func VF_C39_Types() {
	names := []string{"sub", "aud", "client_id", "uid", "proxy", "scp", "iss", "jti", "cnf"}
	forms := []string{"1", "true", `{"a":"b"}`, `["a"]`, `"a"`, "[1]", "[null]", "null"}
	n := vf.Choice("name", len(names))
	k := vf.Choice("form", len(forms))
	claims := fmt.Sprintf(`{"exp":9999999999,"iat":1,%q:%s}`, names[n], forms[k])
	c, err := vfProcessor().ParseAndValidateOAuth2AccessToken(vfToken(claims), nil)
	want := k == 7 // null is how an absent claim may be written
	switch n {
	case 5:
		want = want || k == 3 || k == 6
	case 8:
		want = want || k == 2
	default:
		want = want || k == 4
	}
	vf.Assert((err == nil) == want, "a token is accepted exactly when its claims have the documented types")
	if err != nil {
		vf.Cover("rejected")
		return
	}
	vf.Cover("accepted")
	if n == 5 && k == 3 {
		vf.Assert(len(c.Scope) == 1 && c.Scope[0] == "a", "the scopes are the signed ones, in order")
	}
}
