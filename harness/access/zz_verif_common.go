package access

import (
	"fmt"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// vfKeys: key 0 under "0", key 1 under "1" at the Athenz URL.
func vfKeys(keyID, url string) interface{} {
	if url != "" {
		return nil
	}
	switch keyID {
	case "0":
		return vf.PublicKey(0)
	case "1":
		return vf.PublicKey(1)
	}
	return nil
}

func vfProcessor(opts ...Option) Processor {
	p, err := New(append([]Option{WithJWKProvider(vfKeys)}, opts...)...)
	if err != nil {
		vf.Assert(false, "the access token processor can be constructed")
		vf.Stop()
	}
	return p
}

const vfHeader = `{"alg":"RS256","kid":"0"}`

func vfToken(claims string) string { return vf.JWT(vfHeader, claims, "RS256", 0) }

// vfTimed is a claims document with a valid lifetime around the rest.
func vfTimed(iat int64, rest string) string {
	return fmt.Sprintf(`{"exp":9999999999,"iat":%d%s}`, iat, rest)
}
