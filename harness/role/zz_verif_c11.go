package role

import (
	"strconv"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

// Every text, completed by a signature over some text with some key.
func VF_C11_Free() {
	free := vf.StrOf("text", ";s=ek1d", 0, vf.Q(5, 7))
	text := free
	switch vf.Choice("rest", 4) {
	case 1:
		text = "e=9999999999;k=0;" + free
	case 2:
		text = free + ";e=9999999999;k=0"
	case 3:
		text = free + "k=0;e=9999999999;x=0"
	}
	key := vf.Choice("key", 2)
	signed := text
	sep := ";s="
	pad := 0
	switch s := vf.Choice("sig", 11); s {
	case 1:
		signed = text + ";r=admin"
	case 2:
		signed = "d=other;" + text
	case 3:
		sep = ";S="
	case 4:
		sep = ";s=;s="
	case 5:
		sep = ";s= "
	case 6, 7, 8, 9, 10:
		pad = s - 5
	}
	tok := text + sep + vf.ZMSSign(signed, key)
	switch pad {
	case 1:
		tok += " "
	case 2:
		tok += "\n "
	case 3:
		tok += ";r=admin"
	case 4:
		tok += ";"
	case 5:
		tok += ";s=" + vf.ZMSSign(signed, key)
	}
	t, err := vfProcessor().ParseAndValidateRoleToken(tok)
	want := false
	if sep == ";s=" && pad == 0 && signed == text && vfIndexSig(text) < 0 {
		f := vfParse(text)
		id := ""
		if key == 0 {
			id = "0"
		} else {
			id = "1"
		}
		want = f.ok && f.hasE && f.e >= time.Now().Unix() && f.k == id
	}
	if want {
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
	vf.Assert(err == nil || !want, "a valid token is accepted")
	vf.Assert(err != nil || want, "only a valid token is accepted")
	vf.Assert((t != nil) == (err == nil), "a rejected token yields no token data")
}

// Tokens without a signature of a server.
func VF_C11_Unsigned() {
	base := "d=a;e=9999999999;k=0;r=x"
	tok := base + vf.StrOf("sig", ";s=ekA.", 0, vf.Q(6, 8))
	if vf.Choice("front", 2) == 1 {
		tok = "s=" + vf.ZMSSign(base, 0) + ";" + base + vf.StrOf("rest", ";s=x", 0, vf.Q(5, 7))
	}
	_, err := vfProcessor().ParseAndValidateRoleToken(tok)
	vf.Assert(err != nil, "a token without a signature of its content is rejected")
}

// Expiry, issue time and key id around their boundaries.
func VF_C11_Times() {
	if vf.Choice("frac", 2) == 1 {
		time.Sleep(500 * time.Millisecond)
	}
	now := time.Now()
	e := ""
	if i := vf.Choice("pre", 2+len(vfNumbers11)); i < 2 {
		e = []string{"", "94668"}[i] + vf.StrOf("e", "0123456789-+_ .x", 0, vf.Q(4, 5))
	} else {
		e = vfNumbers11[i-2]
	}
	k := vf.StrOf("k", "012 ", 0, 2)
	tt := vf.StrOf("t", "019-x.", 0, vf.Q(2, 3))
	text := "v=Z1;d=dom;r=a,b;p=dom.svc;h=host;a=salt;t=" + tt + ";e=" + e + ";k=" + k + ";i=1.2.3.4"
	if vf.Choice("noexpiry", 2) == 1 {
		text = "v=Z1;d=dom;r=a,b;p=dom.svc;t=" + tt + ";k=" + k
	}
	key := vf.Choice("key", 3)
	tok := text + ";s=" + vf.ZMSSign(text, key)
	_, err := vfProcessor().ParseAndValidateRoleToken(tok)
	f := vfParse(text)
	want := f.ok && f.hasE && !now.After(time.Unix(f.e, 0)) && (f.k == "0" && key == 0 || f.k == "1" && key == 1)
	if want {
		vf.Cover("accepted")
	} else {
		vf.Cover("rejected")
	}
	vf.Assert(err == nil || !want, "a valid token is accepted")
	vf.Assert(err != nil || want, "only an unexpired token signed with the key it names is accepted")
}

// numbers, and texts that only resemble one
var vfNumbers11 = []string{"0x2540be3ff", "0X2540BE3FF", "0b1001010100000010111110001111111111", "0o112402761777", "0112402761777", "9_999_999_999",
	"9999999999.0", "9999999999e0", "1e10", "+9999999999", " 9999999999", "9999999999 ", "9999999999\n", "99999999999999999999", "\uff19999999999", "9,999,999,999"}

// Two tokens in a row, with keys added, removed or replaced and time passing between them.
func VF_C11_History() {
	keys := map[string]int{"0": 0, "1": 1}
	p, err := New(WithPubkeyProvider(func(env pubkey.AthenzEnv, id string) authcore.Verifier {
		n, ok := keys[id]
		if env != pubkey.EnvZTS || !ok {
			return nil
		}
		return vfVerifier(n)
	}))
	if err != nil {
		vf.Stop()
	}
	exp := time.Now().Add(time.Hour).Unix()
	text := func(dom, id string) string {
		return "v=Z1;d=" + dom + ";r=a;p=u.v;t=1;e=" + strconv.FormatInt(exp, 10) + ";k=" + id
	}
	one := text("dom", "0")
	signer := vf.Choice("signer", 2)
	_, err = p.ParseAndValidateRoleToken(one + ";s=" + vf.ZMSSign(one, signer))
	vf.Assert((err == nil) == (signer == 0), "only a token signed with the key it names is accepted")
	late := false
	switch vf.Choice("between", 5) {
	case 1:
		time.Sleep(2 * time.Hour)
		late = true
	case 2: // the key is withdrawn
		delete(keys, "0")
	case 3: // other keys under the same ids
		keys = map[string]int{"0": 1, "1": 0}
	case 4:
		keys["0"] = 2
	}
	dom, id := []string{"dom", "other"}[vf.Choice("dom", 2)], []string{"0", "1"}[vf.Choice("id", 2)]
	two := text(dom, id)
	signed := two
	if vf.Choice("foreign", 2) == 1 { // a signature over the first token's text
		signed = one
	}
	by := vf.Choice("by", 3)
	tok, err := p.ParseAndValidateRoleToken(two + ";s=" + vf.ZMSSign(signed, by))
	n, ok := keys[id]
	want := !late && ok && n == by && signed == two
	vf.Assert((err == nil) == want, "what was accepted or refused before does not matter for a token")
	if err == nil {
		vf.Cover("accepted")
		vf.Assert(tok.Domain == dom, "the token data is that of the token")
	} else {
		vf.Cover("rejected")
	}
}
