package client

import (
	"errors"
	"net/http"
	"strings"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

type vfTemp struct{ error }

func (vfTemp) Temporary() bool { return true }

type vfText struct{ *strings.Reader }

func (vfText) Close() error { return nil }

type vfFlaky struct{}

func (vfFlaky) RoundTrip(req *http.Request) (*http.Response, error) {
	switch req.Header.Get("Kind") {
	case "ok":
		return vfAnswer(200), nil
	case "busy":
		return vfAnswer(503), nil
	case "net":
		return nil, vfTemp{errors.New("net")}
	}
	return nil, errors.New("refused")
}

func vfAnswer(status int) *http.Response {
	return &http.Response{StatusCode: status, Body: vfText{strings.NewReader("body")}}
}

// Requests through one transport at the same time.
func VF_C37_Transport() {
	vf.Races()
	rt, err := NewExponentialRoundTripper(vfFlaky{}, 2, 3, 10*time.Second)
	vf.Assert(err == nil, "the transport can be constructed")
	kinds := []string{"ok", "busy", "net", "refused"}
	x, y := vf.Choice("one", 4), vf.Choice("other", 4)
	done := make(chan bool)
	one := func(k string) {
		r, err := http.NewRequest("GET", "https://host/", nil)
		if err != nil {
			return
		}
		r.Header.Set("Kind", k)
		rt.RoundTrip(r)
		done <- true
	}
	go one(kinds[x])
	go one(kinds[y])
	<-done
	<-done
	vf.Cover("done")
}
