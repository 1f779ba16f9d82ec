package access

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// Access tokens are validated at the same time.
func VF_C37_AccessParse() {
	vf.Races()
	bound := vf.Choice("bound", 2) == 1
	opts := []Option{WithEnableVerifyClientID(true), WithAuthorizedClientIDs(map[string][]string{"c": {"cn", "dn"}})}
	if bound {
		opts = []Option{WithEnableMTLSCertificateBoundAccessToken(true), WithClientCertificateGoBackSeconds("1h"), WithClientCertificateOffsetSeconds("1h")}
	}
	p := vfProcessor(opts...)
	claims := []string{`{"exp":9999999999,"iat":1,"client_id":"c","cnf":{"x5t#S256":"x"}}`, `{"exp":1,"iat":1}`, `{"exp":9999999999,"iat":1,"scp":["a","b"],"cnf":{"x5t#S256":"y"}}`, `{`}
	x, y := vf.Choice("one", 4), vf.Choice("other", 4)
	cert := &x509.Certificate{Raw: []byte("raw"), Subject: pkix.Name{CommonName: "cn"}, NotBefore: time.Unix(1, 0)}
	done := make(chan bool)
	one := func(i int) {
		p.ParseAndValidateOAuth2AccessToken(vfToken(claims[i]), cert)
		done <- true
	}
	go one(x)
	go one(y)
	<-done
	<-done
	vf.Cover("done")
}
