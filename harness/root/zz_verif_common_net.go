package authorizerd

import (
	"encoding/json"
	"net/http"
	"strings"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/ardielle/ardielle-go/rdl"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
)

// vfRequest is a request that reached the network.
type vfRequest struct {
	at          time.Duration // since the start of the harness
	url         string
	method      string
	ifNoneMatch string
}

// vfNet is everything behind the HTTP client.
type vfNet struct {
	begin  time.Time
	answer func(r vfRequest) (status int, etag, body string, err error)
	reqs   []vfRequest
}

func vfNewNet(answer func(r vfRequest) (int, string, string, error)) *vfNet {
	return &vfNet{begin: time.Now(), answer: answer}
}

func (n *vfNet) client() *http.Client { return &http.Client{Transport: n} }

func (n *vfNet) RoundTrip(req *http.Request) (*http.Response, error) {
	r := vfRequest{at: time.Now().Sub(n.begin), url: req.URL.String(), method: req.Method, ifNoneMatch: req.Header.Get("If-None-Match")}
	n.reqs = append(n.reqs, r)
	status, etag, body, err := n.answer(r)
	if err != nil {
		return nil, err
	}
	h := http.Header{}
	if etag != "" {
		h.Set("ETag", etag)
	}
	return &http.Response{StatusCode: status, Status: "status", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: vfBody{strings.NewReader(body)}, ContentLength: -1, Request: req}, nil
}

type vfBody struct{ *strings.Reader }

func (vfBody) Close() error { return nil }

func (n *vfNet) to(part string) []vfRequest {
	var out []vfRequest
	for _, r := range n.reqs {
		if strings.Contains(r.url, part) {
			out = append(out, r)
		}
	}
	return out
}

// vfPubDoc serves key 0 under id "0".
func vfPubDoc() string {
	return `{"name":"sys.auth.zts","publicKeys":[{"key":"` + vf.YB64(vf.PubPEM(0)) + `","id":"0"}],"modified":"2017-01-23T02:20:09.331Z"}`
}

func vfJwkDoc() string { return `{"keys":[` + vf.JWK("0", 0) + `]}` }

// vfPolicyDoc is a document for the domain signed with key 0, allowing the role action "act" on "res".
func vfPolicyDoc(domain, roleName string, expires time.Time) string {
	effect := "ALLOW"
	data := &util.PolicyData{
		Domain: domain,
		Policies: []*util.Policy{{
			Name:       domain + ":policy.p",
			Assertions: []*util.Assertion{{Role: domain + ":role." + roleName, Action: "act", Resource: domain + ":res", Effect: effect}},
		}},
	}
	sp := &policy.SignedPolicy{}
	sp.SignedPolicyData = &util.SignedPolicyData{
		Expires:    &rdl.Timestamp{Time: expires},
		Modified:   &rdl.Timestamp{Time: expires},
		PolicyData: data,
		ZmsKeyId:   "0",
	}
	sp.KeyId = "0"
	b, err := json.Marshal(data)
	if err != nil {
		panic(err)
	}
	sp.SignedPolicyData.ZmsSignature = vf.ZMSSign(string(b), 0)
	b, err = json.Marshal(sp.SignedPolicyData)
	if err != nil {
		panic(err)
	}
	sp.Signature = vf.ZMSSign(string(b), 0)
	b, err = json.Marshal(sp)
	if err != nil {
		panic(err)
	}
	return string(b)
}
