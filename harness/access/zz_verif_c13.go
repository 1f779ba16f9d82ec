package access

import (
	"fmt"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// Every combination of expiry, issue and not-before time.
func VF_C13_Times() {
	if vf.Choice("frac", 2) == 1 {
		time.Sleep(700 * time.Millisecond)
	}
	now := time.Now().Unix()
	const lo, hi = -1 << 63, 1<<63 - 1
	claims := `{"sub":"s","aud":"d","scp":["r"]`
	exp, iat, nbf := int64(0), int64(0), int64(0)
	if vf.Choice("exp", 2) == 1 {
		exp = vf.Int("exp", lo, hi)
		claims += fmt.Sprintf(`,"exp":%d`, exp)
	}
	if vf.Choice("iat", 2) == 1 {
		iat = vf.Int("iat", lo, hi)
		claims += fmt.Sprintf(`,"iat":%d`, iat)
	}
	if vf.Choice("nbf", 2) == 1 {
		nbf = vf.Int("nbf", lo, hi)
		claims += fmt.Sprintf(`,"nbf":%d`, nbf)
	}
	claims += "}"
	key := vf.Choice("key", 2)
	c, err := vfProcessor().ParseAndValidateOAuth2AccessToken(vf.JWT(vfHeader, claims, "RS256", key), nil)
	// time 0 is how the library reads an absent claim
	want := vf.And(vf.And(exp > now, vf.And(iat <= now, nbf <= now)), key == 0)
	vf.Assert(vf.Implies(err == nil, want), "only a token inside its validity period is accepted")
	vf.Assert(vf.Implies(want, err == nil), "a valid token is accepted")
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(vf.And(c.ExpiresAt == exp, vf.And(c.IssuedAt == iat, c.NotBefore == nbf)), "the times are reported as signed")
	} else {
		vf.Cover("rejected")
		vf.Assert(c == nil, "a rejected token yields no claims")
	}
}

// Times that are no plain integers.
func VF_C13_Forms() {
	forms := []string{"null", `"9999999999"`, "1e3", "1e10", "9999999999.5", "true", "[]", "{}", "99999999999999999999", "-1", "0"}
	field := []string{"exp", "iat", "nbf"}[vf.Choice("field", 3)]
	form := forms[vf.Choice("form", len(forms))]
	claims := `{"sub":"s","` + field + `":` + form
	if field != "exp" {
		claims += `,"exp":9999999999`
	}
	c, err := vfProcessor().ParseAndValidateOAuth2AccessToken(vfToken(claims+"}"), nil)
	if err == nil {
		vf.Cover("accepted")
		now := time.Now().Unix()
		vf.Assert(c.ExpiresAt > now && c.IssuedAt <= now && c.NotBefore <= now, "only a token inside its validity period is accepted")
		vf.Assert(field != "exp", "a token without a proper expiry is rejected")
		vf.Assert(form == "null" || form == "-1" || form == "0", "a time that is not understood does not count as absent")
	} else {
		vf.Cover("rejected")
	}
}

// Duplicated claims: the value that is validated is the value that is reported.
func VF_C13_Duplicates() {
	now := time.Now().Unix()
	a, b := vf.Int("first", 0, 1<<62), vf.Int("second", 0, 1<<62)
	claims := fmt.Sprintf(`{"exp":%d,"EXP":%d,"iat":1}`, a, b)
	c, err := vfProcessor().ParseAndValidateOAuth2AccessToken(vfToken(claims), nil)
	if err == nil {
		vf.Assert(c.ExpiresAt > now, "the reported expiry is in the future")
	}
}

// A token presented again, and one that resembles it, after time has passed.
func VF_C13_History() {
	p := vfProcessor()
	now := time.Now().Unix()
	exp, nbf := []int64{now + 3600, now + 60, now}[vf.Choice("exp", 3)], []int64{0, now + 60, now + 1800}[vf.Choice("nbf", 3)]
	doc := func(exp, nbf int64) string {
		return fmt.Sprintf(`{"sub":"s","aud":"d","scp":["r"],"iat":%d,"exp":%d,"nbf":%d}`, now, exp, nbf)
	}
	one := vfToken(doc(exp, nbf))
	_, err := p.ParseAndValidateOAuth2AccessToken(one, nil)
	vf.Assert((err == nil) == (exp > now && nbf <= now), "only a token inside its validity period is accepted")
	time.Sleep([]time.Duration{0, time.Minute, 30 * time.Minute, time.Hour, 2 * time.Hour}[vf.Choice("later", 5)])
	now2 := time.Now().Unix()
	exp2, nbf2, signed := exp, nbf, true
	switch vf.Choice("second", 3) {
	case 1: // another lifetime
		exp2, nbf2 = now+4000, now
	case 2: // another lifetime with the first token's signature
		exp2, nbf2, signed = now+4000, now, false
	}
	two := vfToken(doc(exp2, nbf2))
	if !signed {
		two = vf.JWTWithSig(vfHeader, doc(exp2, nbf2), vfHeader, doc(exp, nbf), "RS256", 0)
		signed = exp == exp2 && nbf == nbf2
	}
	c, err := p.ParseAndValidateOAuth2AccessToken(two, nil)
	vf.Assert((err == nil) == (signed && exp2 > now2 && nbf2 <= now2), "what was accepted or refused before does not matter for a token")
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(c.ExpiresAt == exp2 && c.NotBefore == nbf2, "the times are reported as signed")
	} else {
		vf.Cover("rejected")
	}
}
