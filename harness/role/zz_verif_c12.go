package role

import (
	"strings"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

func vfSameFields(t *Token, f vfFields, text string) {
	vf.Assert(t.Domain == f.d, "the domain is the value of the last d field")
	vf.Assert(t.Principal == f.p, "the principal is the value of the last p field")
	vf.Assert(t.KeyID == f.k, "the key id is the value of the last k field")
	vf.Assert(t.ExpiryTime.Equal(time.Unix(f.e, 0)), "the expiry is the value of the last e field")
	if f.hasT {
		vf.Assert(t.TimeStamp.Unix() == f.t, "the issue time is the value of the last t field")
	}
	n := 0
	for i := 0; i < len(f.r); i++ {
		if f.r[i] == ',' {
			n++
		}
	}
	vf.Assert(len(t.Roles) == n+1 || f.r == "" && len(t.Roles) == 0, "there is one role per comma separated part")
	vf.Assert(strings.Join(t.Roles, ",") == f.r, "the roles are the parts of the last r field")
}

// Free text before or after fixed fields.
func VF_C12_Free() {
	free := vf.StrOf("text", []string{";=rd,a", ";=kpr0", ";=et1"}[vf.Choice("alphabet", 3)], 0, vf.Q(5, 7))
	text := "d=dom;p=dom.svc;r=a,b;e=9999999999;t=5;k=0;" + free
	switch vf.Choice("place", 3) {
	case 1:
		text = free + ";d=dom;e=9999999999;k=0"
	case 2:
		text = "e=9999999999;k=0;" + free + "r=x"
	}
	vf.Assume(vfIndexSig(text) < 0)
	t, err := vfProcessor().ParseAndValidateRoleToken(text + ";s=" + vf.ZMSSign(text, 0))
	f := vfParse(text)
	want := f.ok && f.e >= time.Now().Unix() && f.k == "0"
	vf.Assert((err == nil) == want, "exactly the valid tokens are accepted")
	if err == nil {
		vf.Cover("accepted")
		vfSameFields(t, f, text)
	}
}

// texts that mean something else in other notations
var vfForms12 = []string{"a%41", "%zz", "a+b", `"a"`, `\u0041`, "&amp;", "\u00e9\u212a", "a.b/c", "{a}", "$a", "role.x", "user.a:role.b", "null", "0", "\x00a", "a\tb", " a ", "a,b", "http://a"}

// Numbers written in other ways than decimal are no numbers.
func VF_C12_Numbers() {
	forms := []string{"9999999999", "+9999999999", "0009999999999", "07777777777777", "0x7fffffffff", "0b1111111111111111111111111111111111111", "0o777777777777", "9_999_999_999", "1e10",
		"9999999999.0", " 9999999999", "9999999999 ", "9223371974719179006", "9223372036854775808", "99999999999999999999", "-1", "--1", "+", "", "٣٣٣٣٣٣٣٣٣٣", "9999999999\n"}
	oks := []bool{true, true, true, true, false, false, false, false, false, false, false, false, true, false, false, false, false, false, false, false, false}
	vals := []int64{9999999999, 9999999999, 9999999999, 7777777777777, 0, 0, 0, 0, 0, 0, 0, 0, 9223371974719179006, 0, 0, -1}
	i := vf.Choice("form", len(forms))
	name := vf.StrOf("p", "a=", 0, 1)
	expiry := vf.Choice("field", 2) == 1
	text := "d=dom;r=a,b;k=0;p=" + name + ";e=9999999999;t=" + forms[i]
	if expiry {
		text = "d=dom;r=a,b;k=0;t=9;p=" + name + ";e=" + forms[i]
	}
	tok, err := vfProcessor().ParseAndValidateRoleToken(text + ";s=" + vf.ZMSSign(text, 0))
	want := oks[i] || !expiry && forms[i] == "-1"
	vf.Assert((err == nil) == want, "a time is a decimal number")
	if err == nil {
		vf.Cover("accepted")
		at := tok.TimeStamp
		if expiry {
			at = tok.ExpiryTime
		}
		vf.Assert(at.Unix() == vals[i] && tok.Principal == name, "a time is reported as signed")
	} else {
		vf.Cover("rejected")
	}
}

// Symbolic values for every field.
func VF_C12_Values() {
	d, p := vf.StrOf("d", "aA=, ", 0, 2), vf.StrOf("p", "aA= ", 0, vf.Q(1, 2))
	r := vf.StrOf("r", "aA= ,", 0, vf.Q(4, 5))
	x := []string{"a", "dd", "rt", "v", "", "D", " d"}[vf.Choice("unknown", 7)]
	tt := vf.StrOf("t", "0123456789-", 1, vf.Q(2, 3))
	text := "d=" + d + ";p=" + p + ";e=9999999999;r=" + r + ";t=" + tt + ";k=1"
	if x != "a" {
		text = x + "=zz;" + text + ";" + x + "=yy"
	}
	tok, err := vfProcessor().ParseAndValidateRoleToken(text + ";s=" + vf.ZMSSign(text, 1))
	f := vfParse(text)
	vf.Assert((err == nil) == f.ok, "exactly the valid tokens are accepted")
	if err == nil {
		vf.Cover("accepted")
		vfSameFields(tok, f, text)
		vf.Assert(tok.Domain == d && tok.Principal == p, "values are reported as signed")
	}
}

// Values that mean something else in other notations are taken as they are.
func VF_C12_Forms() {
	v := vfForms12[vf.Choice("form", len(vfForms12))]
	other := vf.StrOf("other", "a%=", 0, 2)
	d, p, r := v, other, "r"
	switch vf.Choice("field", 3) {
	case 1:
		d, p = other, v
	case 2:
		d, r = other, v
	}
	text := "d=" + d + ";p=" + p + ";e=9999999999;r=" + r + ";t=5;k=1"
	tok, err := vfProcessor().ParseAndValidateRoleToken(text + ";s=" + vf.ZMSSign(text, 1))
	f := vfParse(text)
	vf.Assert((err == nil) == f.ok, "exactly the valid tokens are accepted")
	if err == nil {
		vf.Cover("accepted")
		vfSameFields(tok, f, text)
		vf.Assert(tok.Domain == d && tok.Principal == p && strings.Join(tok.Roles, ",") == r, "values are reported as signed")
	}
}
