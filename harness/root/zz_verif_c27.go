package authorizerd

import (
	"context"
	"crypto/x509"
	"net/http"
	"strings"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
	"github.com/yahoojapan/athenz-authorizer/v5/role"
)

const vfMark = "#"

// vfSecret is the part of a token that must never be logged: every byte of
// interest is a '#', which nothing else contains.
func vfSecret(alphabet string, max int) string {
	return vf.StrOf("sigHead", alphabet, 0, max) + vfMark + vf.StrOf("sigTail", alphabet, 0, max)
}

func vfAuthorizeTok(a *authority, kind int, how int, tok, act, res string, cert *x509.Certificate) error {
	ctx := context.Background()
	switch how {
	case 0:
		if kind == 0 {
			_, err := a.AuthorizeAccessToken(ctx, tok, act, res, cert)
			return err
		}
		_, err := a.AuthorizeRoleToken(ctx, tok, act, res)
		return err
	case 1:
		if kind == 0 {
			return a.VerifyAccessToken(ctx, tok, act, res, cert)
		}
		return a.VerifyRoleToken(ctx, tok, act, res)
	}
	r, _ := http.NewRequest("GET", "https://host/path?query", nil)
	if kind == 0 {
		r.Header.Set("Authorization", "Bearer "+tok)
	} else {
		r.Header.Set("Athenz-Role-Auth", tok)
	}
	if how == 2 {
		return a.Verify(r, act, res)
	}
	_, err := a.Authorize(r, act, res)
	return err
}

// Whatever the outcome of validation: stand-in processors accept and reject tokens of any text.
func vfAnyToken(kind int, tok string) {
	vf.CaptureLogs()
	var opts []Option
	translated := vf.Choice("translator", 2) == 1
	if translated {
		opts = append(opts, WithTranslator(vfQuery{}))
	}
	policy := vf.Choice("policy", 3)
	if policy == 2 {
		opts = append(opts, WithDisablePolicyd())
	}
	a := vfAuthority(opts...)
	ok := vf.Choice("token", 2) == 0
	a.roleProcessor = &vfRole{f: func(string) (*role.Token, error) {
		if !ok || kind != 1 {
			return nil, errVF
		}
		return &role.Token{Domain: "d", Roles: []string{"r"}, Principal: "p"}, nil
	}}
	a.accessProcessor = &vfAccess{f: func(string, *x509.Certificate) (*access.OAuth2AccessTokenClaim, error) {
		if !ok || kind != 0 {
			return nil, errVF
		}
		return vfClaim("p", "d", []string{"r"}, 1, 2, "c"), nil
	}}
	a.policyd = &vfPolicy{f: func(domain string, roles []string, act, res string) ([]string, error) {
		if policy == 1 {
			return nil, errVF
		}
		return roles, nil
	}}
	cert := vfCert(vf.Choice("cert", 2), "i:", "s\\")
	how := vf.Choice("how", 4)
	if how > 1 {
		cert = nil
	}
	for i := 0; i < 2; i++ { // the second one may be served from the cache
		err := vfAuthorizeTok(a, kind, how, tok, "act:", "res", cert)
		if err == nil {
			vf.Cover("accepted")
		} else {
			vf.Cover("rejected")
		}
		// credentials offered as the other kind
		if how < 2 {
			vfAuthorizeTok(a, 1-kind, how, tok, "act:", "res", nil)
		}
	}
	vf.Assert(vf.Not(vf.LogsContain(vfMark)), "no part of a token's signature is logged")
}

func VF_C27_RoleToken() {
	tok := vf.StrOf("head", ";s=:", 0, vf.Q(3, 5)) + ";s=" + vfSecret(";s=:\\.", vf.Q(1, 2))
	vfAnyToken(1, tok)
}

func VF_C27_AccessToken() {
	tok := vf.StrOf("head", "a.:", 0, vf.Q(2, 4)) + "." + vfSecret("a:\\", vf.Q(1, 2))
	// three segments, the last of which is the signature
	vf.Assume(strings.Count(tok, ".") <= 2)
	vfAnyToken(0, tok)
}

func vfLogVerifier(env pubkey.AthenzEnv, id string) authcore.Verifier {
	if env != pubkey.EnvZTS || id != "0" {
		return nil
	}
	v, err := authcore.NewVerifier([]byte(vf.PubPEM(0)))
	if err != nil {
		return nil
	}
	return v
}

func vfLogKey(kid, url string) interface{} {
	if kid != "0" || url != "" {
		return nil
	}
	return vf.PublicKey(0)
}

func vfRealAuthority(opts ...Option) *authority {
	a := vfAuthority(opts...)
	rp, err := role.New(role.WithPubkeyProvider(vfLogVerifier))
	if err != nil {
		vf.Stop()
	}
	ap, err := access.New(access.WithJWKProvider(vfLogKey), access.WithEnableMTLSCertificateBoundAccessToken(true))
	if err != nil {
		vf.Stop()
	}
	a.roleProcessor, a.accessProcessor = rp, ap
	return a
}

// Tokens read by the real processors, with signatures that do not fit.
func VF_C27_RejectedReal() {
	vf.CaptureLogs()
	a := vfRealAuthority(WithDisablePolicyd())
	kind := vf.Choice("kind", 2)
	var tok string
	if kind == 1 {
		heads := []string{
			"d=dom;r=rol;p=pr;e=9999999999;t=1;k=0", "d=dom;r=rol;p=pr;e=1;t=1;k=0", "d=dom;r=rol;p=pr;e=9999999999;k=9",
			"d=dom;e=x", "d=dom;t=x", "d", "", "k=0", "s=a;d=dom;e=9999999999;k=0",
		}
		tok = heads[vf.Choice("head", len(heads))] + ";s=" + vfSecret(";s=", vf.Q(1, 2))
	} else {
		claims := []string{`{"sub":"p","aud":"d","scp":["r"],"exp":9999999999}`, `{"exp":1}`, `{"exp":"x"}`, `{`, `{"exp":9999999999,"cnf":{"x5t#S256":"x"}}`}
		headers := []string{`{"alg":"RS256","kid":"0"}`, `{"alg":"RS256","kid":"9"}`, `{"alg":"HS256","kid":"0"}`, `{"alg":"none"}`, `{"alg":"RS256"}`, `{"alg":"RS256","kid":1}`, `{`}
		t := vf.JWT(headers[vf.Choice("header", len(headers))], claims[vf.Choice("claims", len(claims))], "RS256", 0)
		tok = t[:strings.LastIndex(t, ".")+1] + vfSecret("A.=", vf.Q(1, 2))
		vf.Assume(vf.Choice("segments", 2) == 0 || strings.Count(tok, ".") > 2)
	}
	err := vfAuthorizeTok(a, kind, vf.Choice("how", 4), tok, "act", "res", nil)
	vf.Assert(err != nil, "a token with an unfitting signature is rejected")
	vfAuthorizeTok(a, 1-kind, 0, tok, "act", "res", nil)
	vf.Assert(vf.Not(vf.LogsContain(vfMark)), "no part of a token's signature is logged")
}

// Properly signed tokens, evaluated and cached.
func VF_C27_SignedReal() {
	vf.CaptureLogs()
	policy := vf.Choice("policy", 3)
	var opts []Option
	if policy == 2 {
		opts = append(opts, WithDisablePolicyd())
	}
	a := vfRealAuthority(opts...)
	a.policyd = &vfPolicy{f: func(domain string, roles []string, act, res string) ([]string, error) {
		if policy == 1 {
			return nil, errVF
		}
		return roles, nil
	}}
	kind := vf.Choice("kind", 2)
	var tok, sig string
	if kind == 1 {
		heads := []string{"d=dom;r=rol;p=pr;e=9999999999;t=1;k=0", "d=dom;r=rol;p=pr;e=1;t=1;k=0", "d=dom;r=rol;p=pr;e=9999999999;k=9", "d=dom;e=x"}
		head := heads[vf.Choice("head", len(heads))]
		sig = vf.ZMSSign(head, vf.Choice("key", 2))
		tok = head + ";s=" + sig
	} else {
		claims := []string{`{"sub":"p","aud":"d","scp":["r"],"exp":9999999999}`, `{"sub":"p","exp":1}`, `{"exp":"x"}`}
		if vf.Choice("bound", 2) == 0 {
			ap, err := access.New(access.WithJWKProvider(vfLogKey))
			if err != nil {
				vf.Stop()
			}
			a.accessProcessor = ap
		}
		t := vf.JWT(`{"alg":"RS256","kid":"0"}`, claims[vf.Choice("claims", len(claims))], "RS256", vf.Choice("key", 2))
		i := strings.LastIndex(t, ".")
		tok, sig = t, t[i+1:]
	}
	how := vf.Choice("how", 4)
	for i := 0; i < 2; i++ {
		if vfAuthorizeTok(a, kind, how, tok, "act", "res", nil) == nil {
			vf.Cover("accepted")
		} else {
			vf.Cover("rejected")
		}
		vfAuthorizeTok(a, 1-kind, 0, tok, "act", "res", nil)
		time.Sleep(time.Second)
	}
	vf.Assert(vf.Not(vf.LogsContain(sig)), "no signature is logged")
}
