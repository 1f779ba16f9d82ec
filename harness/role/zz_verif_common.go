package role

import (
	"strconv"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

func vfVerifier(i int) authcore.Verifier {
	v, err := authcore.NewVerifier([]byte(vf.PubPEM(i)))
	if err != nil {
		panic(err)
	}
	return v
}

// vfProvider: ZTS has "0" and "1" (keys 0 and 1), ZMS has "0" and "2" (key 2).
func vfProvider(env pubkey.AthenzEnv, id string) authcore.Verifier {
	if env == pubkey.EnvZTS {
		switch id {
		case "0":
			return vfVerifier(0)
		case "1":
			return vfVerifier(1)
		}
		return nil
	}
	switch id {
	case "0", "2":
		return vfVerifier(2)
	}
	return nil
}

func vfProcessor() Processor {
	p, err := New(WithPubkeyProvider(vfProvider))
	if err != nil {
		vf.Assert(false, "the role token processor can be constructed")
		vf.Stop()
	}
	return p
}

// vfFields is the last value of each field, read byte by byte.
type vfFields struct {
	ok             bool
	d, p, r, k     string
	e, t           int64
	hasE, hasT     bool
	nfields, nsame int
}

// vfParse reads the signed part of a token independently of the code under test.
func vfParse(s string) vfFields {
	f := vfFields{ok: true}
	start, eq := 0, -1
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] != ';' {
			if s[i] == '=' && eq < 0 {
				eq = i
			}
			continue
		}
		if eq < 0 {
			f.ok = false
			return f
		}
		key, val := s[start:eq], s[eq+1:i]
		f.nfields++
		if len(key) == 1 {
			switch key[0] {
			case 'd':
				f.d = val
			case 'p':
				f.p = val
			case 'r':
				f.r = val
			case 'k':
				f.k = val
			case 'e':
				n, err := strconv.ParseInt(val, 10, 64)
				if err != nil {
					f.ok = false
					return f
				}
				f.e, f.hasE = n, true
			case 't':
				n, err := strconv.ParseInt(val, 10, 64)
				if err != nil {
					f.ok = false
					return f
				}
				f.t, f.hasT = n, true
			}
		}
		start, eq = i+1, -1
	}
	return f
}

// vfIndexSig is the position of the first ";s=".
func vfIndexSig(s string) int {
	for i := 0; i+3 <= len(s); i++ {
		if s[i] == ';' && s[i+1] == 's' && s[i+2] == '=' {
			return i
		}
	}
	return -1
}
