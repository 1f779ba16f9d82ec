package policy

import (
	"context"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"strconv"
	"strings"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

var errVF = errors.New("connection refused")

// vfReply is what the server does with one request.
type vfReply struct {
	err        error
	status     int
	etag       string
	body       string
	failAt     int // the body's reader fails after failAt-1 bytes when > 0
	read       int
	closed     int
	afterClose bool
	sized      bool // the answer tells its length
	extra      [2]string
}

// vfServer answers policy requests.
type vfServer struct {
	answer func(req *http.Request) *vfReply
	log    []*vfReply
	reqs   []*http.Request
}

func (s *vfServer) RoundTrip(req *http.Request) (*http.Response, error) {
	r := s.answer(req)
	s.reqs = append(s.reqs, req)
	s.log = append(s.log, r)
	if r.err != nil {
		return nil, r.err
	}
	h := http.Header{}
	if r.etag != "" {
		h.Set("ETag", r.etag)
	}
	if r.extra[0] != "" {
		h.Set(r.extra[0], r.extra[1])
	}
	length := int64(-1)
	if r.sized {
		length = int64(len(r.body))
		h.Set("Content-Length", strconv.Itoa(len(r.body)))
	}
	return &http.Response{StatusCode: r.status, Status: "status", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: &vfBody{r: r, rd: strings.NewReader(r.body)}, ContentLength: length, Request: req}, nil
}

type vfBody struct {
	r  *vfReply
	rd *strings.Reader
}

func (b *vfBody) Read(p []byte) (int, error) {
	if b.r.closed > 0 {
		b.r.afterClose = true
		return 0, errors.New("read after close")
	}
	if b.r.failAt > 0 && b.r.read >= b.r.failAt-1 {
		return 0, io.ErrUnexpectedEOF
	}
	n, err := b.rd.Read(p)
	b.r.read += n
	return n, err
}

func (b *vfBody) Close() error {
	b.r.closed++
	return nil
}

// vfAccept is a verifier that accepts everything.
type vfAccept struct{}

func (vfAccept) Verify(data, sig string) error { return nil }

func vfAcceptAll(pubkey.AthenzEnv, string) authcore.Verifier { return vfAccept{} }

// vfClientDaemon is a daemon talking to the server through the real fetcher.
func vfClientDaemon(s *vfServer, opts ...Option) *policyd {
	d, err := New(append([]Option{
		WithAthenzURL("athenz.io/zts/v1"),
		WithAthenzDomains("d"),
		WithHTTPClient(&http.Client{Transport: s}),
		WithPubKeyProvider(vfAcceptAll),
		WithRetryDelay("1s"),
		WithRetryAttempts(1),
		WithExpiryMargin("1m"),
		WithPurgePeriod("10h"),
	}, opts...)...)
	if err != nil {
		vf.Assert(false, "the policy daemon can be constructed")
		vf.Stop()
	}
	return d.(*policyd)
}

func vfJSON(sp *SignedPolicy) string {
	b, err := json.Marshal(sp)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func vfAllowDoc(exp time.Time, role string) *SignedPolicy {
	return vfDoc("d", exp, []*util.Assertion{vfAss("d:role."+role, "a", "d:x", "ALLOW")})
}

func vfGranted(p *policyd, role string) bool {
	return p.CheckPolicy(context.Background(), "d", []string{role}, "a", "x") == nil
}
