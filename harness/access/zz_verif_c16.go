package access

import (
	"context"
	"errors"
	"net/http"
	"strings"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
	"github.com/yahoojapan/athenz-authorizer/v5/jwk"
)

// vfKeyServer answers JWK requests with the documents of the moment.
type vfKeyServer struct {
	docs map[string]string // URL to document; none: the connection fails
}

func (s *vfKeyServer) RoundTrip(req *http.Request) (*http.Response, error) {
	doc, ok := s.docs[req.URL.String()]
	if !ok {
		return nil, errors.New("connection refused")
	}
	return &http.Response{StatusCode: 200, Status: "status", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: &vfKeyBody{strings.NewReader(doc)}, ContentLength: -1, Request: req}, nil
}

type vfKeyBody struct{ *strings.Reader }

func (b *vfKeyBody) Close() error { return nil }

const (
	vfAthenzURL = "https://athenz.io/zts/v1/oauth2/keys?rfc=true"
	vfOtherURL  = "https://keys.example/jwks"
	vfAlienURL  = "https://evil.example/jwks"
)

func vfStack(s *vfKeyServer, urls []string) (jwk.Daemon, Processor) {
	d, err := jwk.New(jwk.WithAthenzJwksURL("athenz.io/zts/v1"), jwk.WithURLs(urls), jwk.WithHTTPClient(&http.Client{Transport: s}))
	if err != nil {
		vf.Assert(false, "the JWK daemon can be constructed")
		vf.Stop()
	}
	p, err := New(WithJWKProvider(d.GetProvider()))
	if err != nil {
		vf.Assert(false, "the access token processor can be constructed")
		vf.Stop()
	}
	return d, p
}

// vfDoc is a JWK set document from pairs kid, key.
func vfDoc(keys ...interface{}) string {
	s := ""
	for i := 0; i < len(keys); i += 2 {
		if s != "" {
			s += ","
		}
		s += vf.JWK(keys[i].(string), keys[i+1].(int))
	}
	return `{"keys":[` + s + `]}`
}

// vfSets: the key each document has under a key id.
var vfSets = []struct {
	keys map[string]int
	doc  func() string
}{
	{map[string]int{"0": 0, "1": 1}, func() string { return vfDoc("0", 0, "1", 1) }},
	{map[string]int{"1": 0, "2": 1}, func() string { return vfDoc("2", 1, "1", 0) }},
	{map[string]int{}, func() string { return vfDoc() }},
	{map[string]int{"1": 0}, func() string { return vfDoc("1", 0) }},
	{map[string]int{"1": 10, "0": 1}, func() string { return vfDoc("1", 10, "0", 1) }},
}

func vfCheck16(p Processor, want map[string]map[string]int, configured map[string]bool) {
	kids := []string{`,"kid":"0"`, `,"kid":"1"`, `,"kid":"2"`, ``, `,"kid":""`, `,"kid":null`, `,"kid":1`, `,"kid":["1"]`, `,"kid":{"0":"1"}`, `,"kid":"9","kid":"1"`, `,"KID":"1"`, `,"kid":true`}
	kidText := []string{"0", "1", "2", "", "", "", "", "", "", "1", "", ""}
	jkus := []string{``, `,"jku":""`, `,"jku":"` + vfAthenzURL + `"`, `,"jku":"` + vfOtherURL + `"`, `,"jku":"` + vfAlienURL + `"`, `,"jku":null`, `,"jku":3`, `,"jku":["` + vfAthenzURL + `"]`, `,"jku":"` + vfOtherURL + `/"`, `,"jku":"HTTPS://athenz.io/zts/v1/oauth2/keys?rfc=true"`, `,"JKU":"` + vfAlienURL + `"`, `,"jku":false`}
	jkuText := []string{vfAthenzURL, vfAthenzURL, vfAthenzURL, vfOtherURL, vfAlienURL, "-", "-", "-", "-", "-", vfAthenzURL, "-"}
	k, j := vf.Choice("kid", len(kids)), vf.Choice("jku", len(jkus))
	algs := []string{"RS256", "HS256", "none", "RS384"}
	alg := algs[vf.Choice("alg", len(algs))]
	signAlg := []string{"RS256", "HS256"}[vf.Choice("signAlg", 2)]
	signKey := vf.Choice("signKey", 2)
	header := `{"alg":"` + alg + `"` + kids[k] + jkus[j] + `}`
	claims := `{"exp":9999999999,"iat":1,"client_id":"c"}`
	tok := vf.JWT(header, claims, signAlg, signKey)
	genuine := true
	switch vf.Choice("tamper", 3) {
	case 1:
		genuine = false
		tok = vf.JWTWithSig(header, claims, header, `{"exp":9999999999,"iat":1,"client_id":"d"}`, signAlg, signKey)
	case 2:
		genuine = false
		tok = vf.JWTWithSig(header, claims, `{"alg":"`+alg+`","kid":"other"}`, claims, signAlg, signKey)
	}
	c, err := p.ParseAndValidateOAuth2AccessToken(tok, nil)
	ok := false
	if set := want[jkuText[j]]; kidText[k] != "" && configured[jkuText[j]] {
		if key, found := set[kidText[k]]; found && genuine {
			if key >= 10 {
				ok = alg == "HS256" && signAlg == "HS256" && signKey == key-10
			} else {
				ok = alg == "RS256" && signAlg == "RS256" && signKey == key
			}
		}
	}
	if ok {
		vf.Cover("accepted")
		vf.Assert(err == nil && c != nil && c.ClientID == "c", "a token signed by the key its header selects is accepted")
	} else {
		vf.Cover("rejected")
		vf.Assert(err != nil && c == nil, "a token is only accepted with the signature of the key its header selects")
	}
}

// Every header shape against fixed sets.
func VF_C16_Headers() {
	s := &vfKeyServer{docs: map[string]string{vfAthenzURL: vfSets[0].doc(), vfOtherURL: vfSets[4].doc(), vfAlienURL: vfSets[0].doc()}}
	d, p := vfStack(s, []string{vfOtherURL})
	vf.Assert(d.Update(context.Background()) == nil, "the keys are fetched")
	want := map[string]map[string]int{vfAthenzURL: vfSets[0].keys, vfOtherURL: vfSets[4].keys}
	vfCheck16(p, want, map[string]bool{vfAthenzURL: true, vfOtherURL: true})
}

// Histories of key sets per URL, then a token.
func VF_C16_History() {
	s := &vfKeyServer{docs: map[string]string{}}
	var urls []string
	configured := map[string]bool{vfAthenzURL: true}
	switch vf.Choice("urls", 3) {
	case 1:
		urls = []string{vfOtherURL}
		configured[vfOtherURL] = true
	case 2:
		urls = []string{vfOtherURL, vfAthenzURL}
		configured[vfOtherURL] = true
	}
	d, p := vfStack(s, urls)
	want := map[string]map[string]int{}
	for i := 0; i < vf.Q(2, 3); i++ {
		for n, u := range []string{vfAthenzURL, vfOtherURL} {
			if n == 1 && !configured[vfOtherURL] {
				continue
			}
			// the answer: a set, or nothing at all
			c := (i + n + vf.Choice("set", 2)) % 5
			if vf.Choice("down", 2) == 1 {
				delete(s.docs, u)
				continue
			}
			s.docs[u] = vfSets[c].doc()
			want[u] = vfSets[c].keys
		}
		_ = d.Update(context.Background())
	}
	kid := vf.StrOf("kid", "012", 0, 1)
	j := vf.Choice("jku", 4)
	url := []string{vfAthenzURL, vfAthenzURL, vfOtherURL, vfAlienURL}[j]
	jku := []string{"", vfAthenzURL, vfOtherURL, vfAlienURL}[j]
	signKey := vf.Choice("signKey", 2)
	_, err := p.ParseAndValidateOAuth2AccessToken(vf.JWT(`{"alg":"RS256","kid":"`+kid+`","jku":"`+jku+`"}`, `{"exp":9999999999,"iat":1}`, "RS256", signKey), nil)
	ok := false
	if configured[url] {
		for _, id := range []string{"0", "1", "2"} {
			if key, found := want[url][id]; found && key == signKey {
				ok = vf.Or(ok, kid == id)
			}
		}
	}
	vf.Assert(vf.Iff(err == nil, ok), "a token is accepted exactly with the signature of the key its header selects in the sets last fetched")
	if err == nil {
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
}

// Any key id and any key set URL of the header as text.
func VF_C16_Text() {
	s := &vfKeyServer{docs: map[string]string{vfAthenzURL: vfSets[0].doc(), "http://u": vfSets[1].doc()}}
	d, p := vfStack(s, []string{"http://u"})
	_ = d.Update(context.Background())
	kid := vf.StrOf("kid", "012 .", 0, vf.Q(2, 3))
	jku := vf.StrOf("jku", "uU/ ht:p#?", 0, vf.Q(9, 9))
	signKey := vf.Choice("signKey", 2)
	tok := vf.JWT(`{"alg":"RS256","kid":"`+kid+`","jku":"`+jku+`"}`, `{"exp":9999999999,"iat":1}`, "RS256", signKey)
	_, err := p.ParseAndValidateOAuth2AccessToken(tok, nil)
	athenz := vf.Or(vf.And(kid == "0", signKey == 0), vf.And(kid == "1", signKey == 1))
	other := vf.Or(vf.And(kid == "1", signKey == 0), vf.And(kid == "2", signKey == 1))
	want := vf.Or(vf.And(jku == "", athenz), vf.And(jku == "http://u", other))
	vf.Assert(vf.Iff(err == nil, want), "a token is accepted exactly with the signature of the key its header selects")
	if err == nil {
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
}

// A token, an update of the key sets, then another token with the same or another selection.
func VF_C16_Rotate() {
	s := &vfKeyServer{docs: map[string]string{}}
	d, p := vfStack(s, []string{vfOtherURL})
	want := map[string]map[string]int{}
	urls := []string{vfAthenzURL, vfOtherURL}
	for i := 0; i < 2; i++ {
		c := vf.Choice("sets", vf.Q(3, 5))
		for n, u := range urls {
			set := (c + n + i) % 5
			s.docs[u], want[u] = vfSets[set].doc(), vfSets[set].keys
		}
		vf.Assert(d.Update(context.Background()) == nil, "the keys are fetched")
		kid, url := []string{"0", "1", "2"}[vf.Choice("kid", vf.Q(2, 3))], urls[vf.Choice("jku", 2)]
		signKey := vf.Choice("signKey", 2)
		_, err := p.ParseAndValidateOAuth2AccessToken(vf.JWT(`{"alg":"RS256","kid":"`+kid+`","jku":"`+url+`"}`, `{"exp":9999999999,"iat":1}`, "RS256", signKey), nil)
		key, found := want[url][kid]
		vf.Assert((err == nil) == (found && key == signKey), "a token is accepted exactly with the signature of the key its header selects in the sets last fetched")
		if err == nil {
			vf.Cover("accepted")
		} else {
			vf.Cover("rejected")
		}
	}
}
