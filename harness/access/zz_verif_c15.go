package access

import (
	"crypto/x509"
	"crypto/x509/pkix"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// Any common name and client id against a table of pairs.
func VF_C15_Pairs() {
	enabled := vf.Choice("enabled", 2) == 1
	k1, k2 := vf.StrOf("name", "aAb*", 0, vf.Q(1, 2)), vf.StrOf("name", "aAb*", 0, vf.Q(1, 2))
	v1, v2, v3 := vf.StrOf("id", "aAb*", 0, 1), vf.StrOf("id", "aAb*", 0, 1), vf.StrOf("id", "aAb*", 0, 1)
	var table map[string][]string
	names := vf.Choice("table", 4)
	switch names {
	case 1:
		table = map[string][]string{}
	case 2:
		table = map[string][]string{k1: {v1, v2, v3}}
	case 3:
		vf.Assume(k1 != k2)
		table = map[string][]string{k1: {v1}, k2: {v2, v3}}
	}
	bound := vf.Choice("bound", 2) == 1
	p := vfProcessor(WithEnableVerifyClientID(enabled), WithAuthorizedClientIDs(table), WithEnableMTLSCertificateBoundAccessToken(bound))
	cn := vf.StrOf("cn", "ab*A", 0, vf.Q(1, 2))
	cid := vf.StrOf("cid", "ab*A ", 0, 1)
	var cert *x509.Certificate
	if vf.Choice("cert", 2) == 1 {
		cert = &x509.Certificate{Raw: []byte("cert"), Subject: pkix.Name{CommonName: cn}}
		if vf.Choice("names", 2) == 1 { // no other name of the certificate counts
			cert.DNSNames, cert.EmailAddresses = []string{k1, "a", "b"}, []string{"a"}
			cert.Subject.Organization, cert.Subject.OrganizationalUnit = []string{"a"}, []string{k1}
			cert.Issuer.CommonName = k1
		}
	}
	claims := `,"sub":"a","client_id":"` + cid + `","cnf":{"x5t#S256":"` + vfThumb15 + `"}`
	_, err := p.ParseAndValidateOAuth2AccessToken(vfToken(vfTimed(1, claims)), cert)
	want := !bound || cert != nil
	if enabled {
		ok := false
		if cert != nil {
			switch names {
			case 2:
				ok = vf.And(cn == k1, vf.Or(vf.Or(cid == v1, cid == v2), cid == v3))
			case 3:
				ok = vf.Or(vf.And(cn == k1, cid == v1), vf.And(cn == k2, vf.Or(cid == v2, cid == v3)))
			}
		}
		want = vf.And(want, ok)
	}
	vf.Assert(vf.Implies(err == nil, want), "only a configured pair of certificate and client id is accepted")
	vf.Assert(vf.Implies(want, err == nil), "a configured pair is accepted")
	if err == nil {
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
}

// A decision never depends on the tokens checked before.
func VF_C15_History() {
	k1, k2 := vf.StrOf("name", "a/.", 1, 2), vf.StrOf("name", "a/.", 1, 2)
	v1, v2 := vf.StrOf("id", "a/.", 0, 1), vf.StrOf("id", "a/.", 0, 1)
	vf.Assume(k1 != k2)
	p := vfProcessor(WithEnableVerifyClientID(true), WithAuthorizedClientIDs(map[string][]string{k1: {v1}, k2: {v2}}), WithEnableMTLSCertificateBoundAccessToken(false))
	check := func(cn, cid string) error {
		_, err := p.ParseAndValidateOAuth2AccessToken(vfToken(vfTimed(1, `,"client_id":"`+cid+`"`)), &x509.Certificate{Raw: []byte("cert"), Subject: pkix.Name{CommonName: cn}})
		return err
	}
	if vf.Choice("first", 2) == 1 {
		vf.Assert(check(k1, v1) == nil, "a configured pair is accepted")
	} else {
		check(k2, v1)
	}
	cn, cid := vf.StrOf("cn", "a/.", 1, 2), vf.StrOf("cid", "a/.", 0, 2)
	want := vf.Or(vf.And(cn == k1, cid == v1), vf.And(cn == k2, cid == v2))
	err := check(cn, cid)
	vf.Assert(vf.Implies(err == nil, want), "only a configured pair is accepted whatever was accepted before")
	vf.Assert(vf.Implies(want, err == nil), "a configured pair is accepted whatever was checked before")
	if err == nil {
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
}

// the thumbprint of "cert"
const vfThumb15 = "BimEMugGayniIjvMI6qVBLVq5Qj6vzQ1UIhpucMZDiI"
