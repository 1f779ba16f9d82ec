package access

import (
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"net/url"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

func vfThumb(raw string) string {
	sum := sha256.Sum256([]byte(raw))
	return base64.RawURLEncoding.EncodeToString(sum[:])
}

// Thumbprint, rotated certificate and proxy principals in one decision.
func VF_C14_Bound() {
	enabled := vf.Choice("enabled", 2) == 1
	backs := []string{"", "0s", "1h", "-30s", "1h30m"}
	offs := []string{"", "0s", "3600s", "1s", "2h"}
	bi, oi := vf.Choice("backdate", vf.Q(3, 5)), vf.Choice("offset", vf.Q(3, 5))
	back := []int64{0, 0, 3600, -30, 5400}[bi]
	off := []int64{0, 0, 3600, 1, 7200}[oi]
	p := vfProcessor(
		WithEnableMTLSCertificateBoundAccessToken(enabled),
		WithClientCertificateGoBackSeconds(backs[bi]),
		WithClientCertificateOffsetSeconds(offs[oi]),
	)
	now := time.Now().Unix()
	iat := vf.Int("iat", 1, now)
	cn := vf.StrOf("cn", "aA", 0, 2)
	cid := vf.StrOf("cid", "aA", 0, 2)
	nb := vf.Int("notBefore", 0, 2*now)
	uri := vf.StrOf("uri", "ab", 1, 1)
	proxy := vf.StrOf("proxy", "ab", 1, 1)
	thumb := 0
	proxies := false
	cnf := ""
	switch vf.Choice("cnf", 10) {
	case 0:
		cnf = `,"cnf":{"x5t#S256":"` + vfThumb("cert") + `"}`
		thumb = 1
	case 1:
		cnf = `,"cnf":{"x5t#S256":"` + vfThumb("other") + `"}`
		thumb = 2
	case 2:
		cnf = `,"cnf":{"x5t#S256":"` + vfThumb("other") + `","proxy-principals#spiffe":["spiffe://x/y","spiffe://h/` + proxy + `"]}`
		thumb, proxies = 2, true
	case 3:
		cnf = `,"cnf":{"proxy-principals#spiffe":["spiffe://h/` + proxy + `",1,null]}`
		proxies = true
	case 4:
		cnf = `,"cnf":{"x5t#S256":1,"proxy-principals#spiffe":"spiffe://h/` + proxy + `"}`
	case 5:
		cnf = `,"cnf":{}`
	case 6:
		cnf = `,"cnf":null`
	case 7:
	case 8:
		cnf = `,"cnf":{"x5t#S256":"","proxy-principals#spiffe":[]}`
		thumb = 2
	case 9:
		cnf = `,"cnf":{"proxy-principals#spiffe":["spiffe://h/` + proxy + `"]}`
		proxies = true
	}
	tok := vfToken(vfTimed(iat, `,"client_id":"`+cid+`","aud":"d","scp":["r"]`+cnf))
	var cert *x509.Certificate
	last := &url.URL{Scheme: "spiffe", Host: "h", Path: "/" + uri}
	switch vf.Choice("urlForm", 6) { // a URI that only resembles the one listed
	case 1:
		last.RawQuery, uri = "q", uri+"?q"
	case 2:
		last.Fragment, uri = "f", uri+"#f"
	case 3:
		last.Path, uri = last.Path+"/c", uri+"/c"
	case 4:
		last.Path, uri = "/A", "A"
	case 5:
		last.Host, uri = "H", "none"
	}
	if vf.Choice("cert", 2) == 1 {
		cert = &x509.Certificate{
			Raw:       []byte("cert"),
			Subject:   pkix.Name{CommonName: cn},
			NotBefore: time.Unix(nb, 0),
			URIs:      [][]*url.URL{{{Scheme: "https", Host: "other"}, last}, {last, {Scheme: "https", Host: "other"}}}[vf.Choice("order", 2)],
		}
	}
	_, err := p.ParseAndValidateOAuth2AccessToken(tok, cert)
	want := true
	if enabled {
		want = false
		if cert != nil {
			rotated := vf.And(vf.And(cn == cid, cn != ""), vf.And(nb+back >= iat, nb+back <= iat+off))
			want = thumb == 1 || vf.Or(vf.And(thumb == 2 && off != 0, rotated), vf.And(proxies, uri == proxy))
		}
	}
	vf.Assert(vf.Implies(err == nil, want), "a certificate-bound token is accepted only with a matching certificate")
	vf.Assert(vf.Implies(want, err == nil), "a matching certificate is accepted")
	if err == nil {
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
}

// Thumbprints that differ in one character or only share a prefix.
func VF_C14_Thumbprint() {
	want := vfThumb("cert")
	t := want
	same := true
	switch vf.Choice("form", 4) {
	case 1:
		n := vf.Choice("cut", len(want))
		t = want[:n]
		same = false
	case 2:
		i := vf.Choice("pos", len(want))
		c := vf.StrOf("char", "ABCxyz012-_", 1, 1)
		same = c == want[i:i+1]
		t = want[:i] + c + want[i+1:]
	case 3:
		t = want + vf.StrOf("tail", "A=", 1, 2)
		same = false
	}
	p := vfProcessor(WithEnableMTLSCertificateBoundAccessToken(true))
	cert := &x509.Certificate{Raw: []byte("cert"), Subject: pkix.Name{CommonName: "a"}, NotBefore: time.Unix(1, 0)}
	_, err := p.ParseAndValidateOAuth2AccessToken(vfToken(vfTimed(1, `,"client_id":"a","cnf":{"x5t#S256":"`+t+`"}`)), cert)
	vf.Assert((err == nil) == same, "the thumbprint must be the certificate's in full")
}

// Two presentations in a row: tokens and certificates that agree in all but one respect.
func VF_C14_History() {
	p := vfProcessor(WithEnableMTLSCertificateBoundAccessToken(true),
		WithClientCertificateGoBackSeconds("1h"), WithClientCertificateOffsetSeconds("1h"))
	now := time.Now().Unix()
	certs := []*x509.Certificate{nil}
	for i, raw := range []string{"cert", "other", "third", "cert"} {
		c := &x509.Certificate{Raw: []byte(raw), Subject: pkix.Name{CommonName: "a"}, NotBefore: time.Unix(now-10000, 0)}
		switch i {
		case 2: // issued around the same time: may replace the token's certificate
			c.NotBefore = time.Unix(now-3600, 0)
		case 3:
			c.URIs = []*url.URL{{Scheme: "spiffe", Host: "h", Path: "/p"}}
		}
		certs = append(certs, c)
	}
	cnfs := []string{`"x5t#S256":"` + vfThumb("cert") + `"`, `"x5t#S256":"` + vfThumb("other") + `"`, `"proxy-principals#spiffe":["spiffe://h/p"]`}
	want := [][]bool{{false, true, false, true, true}, {false, false, true, true, false}, {false, false, false, false, true}}
	for i := 0; i < 2; i++ {
		t, c := vf.Choice("token", len(cnfs)), vf.Choice("cert", len(certs))
		_, err := p.ParseAndValidateOAuth2AccessToken(vfToken(vfTimed(now, `,"client_id":"a","cnf":{`+cnfs[t]+`}`)), certs[c])
		vf.Assert((err == nil) == want[t][c], "every presentation is judged by its own token and certificate")
		if err == nil {
			vf.Cover("accepted")
		} else {
			vf.Cover("rejected")
		}
	}
}

// What binds is where it belongs: other members of the token and other names of
// the certificate bind nothing.
func VF_C14_Elsewhere() {
	p := vfProcessor(WithEnableMTLSCertificateBoundAccessToken(true), WithClientCertificateGoBackSeconds("1h"),
		WithClientCertificateOffsetSeconds([]string{"0s", "1h"}[vf.Choice("offset", 2)]))
	now := time.Now().Unix()
	right, uri := vfThumb("cert"), "spiffe://h/p"
	members := []string{
		`"cnf":{"x5t":"` + right + `"}`, `"cnf":{"x5t#s256":"` + right + `"}`, `"cnf":{"X5T#S256":"` + right + `"}`, `"cnf":{"jkt":"` + right + `"}`,
		`"cnf":{"kid":"` + right + `"}`, `"cnf":{"":"` + right + `"}`, `"x5t#S256":"` + right + `"`, `"cnf":{"x5t#S256":["` + right + `"]}`,
		`"cnf":{"x5t#S256":{"value":"` + right + `"}}`, `"cnf":{"cnf":{"x5t#S256":"` + right + `"}}`, `"cnf":{"proxy-principals#spiffe":["` + right + `"]}`,
		`"cnf":{"x5t#S256":"` + uri + `"}`, `"cnf":{"proxy-principals":["` + uri + `"]}`, `"proxy-principals#spiffe":["` + uri + `"]`, `"proxy":"` + uri + `"`,
		`"cnf":{"proxy-principals#spiffe":{"0":"` + uri + `"}}`, `"cnf":{"proxy-principals#spiffe":[["` + uri + `"]]}`, `"cnf":{"proxy-principals#spiffe":["h/p"," ` + uri + `","` + uri + `/","spiffe://h/*","*",""]}`,
		`"cnf":{"proxy-principals#spiffe":["a@h","h","other.h","10.0.0.1","iss","ser"]}`, `"client_id":"x","cnf":{"x5t#S256":"a"}`,
	}
	cert := &x509.Certificate{Raw: []byte("cert"), Subject: pkix.Name{CommonName: "a", SerialNumber: "ser", Organization: []string{"x"}}, NotBefore: time.Unix(now-100000, 0),
		Issuer: pkix.Name{CommonName: "iss"}, EmailAddresses: []string{"a@h", uri}, DNSNames: []string{"h", "other.h", uri}, Signature: []byte("cert"), RawSubject: []byte("cert")}
	if vf.Choice("uri", 2) == 1 {
		cert.URIs = []*url.URL{{Scheme: "spiffe", Host: "h", Path: "/p"}}
	}
	m := vf.Choice("member", len(members)+1)
	cnf := ""
	if m == len(members) { // listed, but among the certificate's other names
		cnf = `"cnf":{"proxy-principals#spiffe":["` + uri + `"]}`
	} else {
		cnf = members[m]
	}
	_, err := p.ParseAndValidateOAuth2AccessToken(vfToken(vfTimed(now, `,`+cnf)), cert)
	want := m == len(members) && len(cert.URIs) > 0
	vf.Assert((err == nil) == want, "only the thumbprint member and the listed URIs bind a token")
	if want {
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
}
