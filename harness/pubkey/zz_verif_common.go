package pubkey

import (
	"errors"
	"io"
	"net/http"
	"strconv"
	"strings"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

var errVF = errors.New("connection refused")

// vfReply is what the server does with one request.
type vfReply struct {
	err        error
	status     int
	etag       string
	body       string
	failAt     int // the body's reader fails after failAt-1 bytes when > 0
	read       int
	closed     int
	afterClose bool
	sized      bool // the answer tells its length
	extra      [2]string
}

// vfServer answers public key requests.
type vfServer struct {
	answer func(req *http.Request) *vfReply
	log    []*vfReply
	reqs   []*http.Request
}

func (s *vfServer) RoundTrip(req *http.Request) (*http.Response, error) {
	r := s.answer(req)
	s.reqs = append(s.reqs, req)
	s.log = append(s.log, r)
	if r.err != nil {
		return nil, r.err
	}
	h := http.Header{}
	if r.etag != "" {
		h.Set("ETag", r.etag)
	}
	if r.extra[0] != "" {
		h.Set(r.extra[0], r.extra[1])
	}
	length := int64(-1)
	if r.sized {
		length = int64(len(r.body))
		h.Set("Content-Length", strconv.Itoa(len(r.body)))
	}
	return &http.Response{StatusCode: r.status, Status: "status", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: &vfBody{r: r, rd: strings.NewReader(r.body)}, ContentLength: length, Request: req}, nil
}

type vfBody struct {
	r  *vfReply
	rd *strings.Reader
}

func (b *vfBody) Read(p []byte) (int, error) {
	if b.r.closed > 0 {
		b.r.afterClose = true
		return 0, errors.New("read after close")
	}
	if b.r.failAt > 0 && b.r.read >= b.r.failAt-1 {
		return 0, io.ErrUnexpectedEOF
	}
	n, err := b.rd.Read(p)
	b.r.read += n
	return n, err
}

func (b *vfBody) Close() error {
	b.r.closed++
	return nil
}

func vfNew(s *vfServer, opts ...Option) *pubkeyd {
	d, err := New(append([]Option{
		WithAthenzURL("athenz.io/zts/v1"),
		WithHTTPClient(&http.Client{Transport: s}),
		WithRetryDelay("3s"),
		WithRefreshPeriod("10s"),
		WithETagExpiry("100s"),
	}, opts...)...)
	if err != nil {
		vf.Assert(false, "the public key daemon can be constructed")
		vf.Stop()
	}
	return d.(*pubkeyd)
}

// vfKey is one key of a server's answer.
type vfKey struct {
	id  string
	key int
}

func vfDoc(keys []vfKey) string {
	s := `{"name":"sys.auth.zts","publicKeys":[`
	for i, k := range keys {
		if i > 0 {
			s += ","
		}
		s += `{"key":"` + vf.YB64(vf.PubPEM(k.key)) + `","id":"` + k.id + `"}`
	}
	return s + `],"modified":"2017-01-23T02:20:09.331Z"}`
}

// vfServed tells which key is served under an id: -1 none, -2 an unknown one.
func vfServed(p *pubkeyd, env AthenzEnv, id string) int {
	v := p.GetProvider()(env, id)
	if v == nil {
		return -1
	}
	for k := 0; k < 3; k++ {
		if v.Verify("data", vf.ZMSSign("data", k)) == nil {
			return k
		}
	}
	return -2
}

func vfEnvOf(req *http.Request) AthenzEnv {
	switch req.URL.String() {
	case "https://athenz.io/zts/v1/domain/sys.auth/service/zts":
		return EnvZTS
	case "https://athenz.io/zts/v1/domain/sys.auth/service/zms":
		return EnvZMS
	}
	return ""
}
