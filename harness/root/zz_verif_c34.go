package authorizerd

import (
	"context"
	"errors"
	"strings"

	pkgerrors "github.com/pkg/errors"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
	"github.com/yahoojapan/athenz-authorizer/v5/role"
)

// vfSource is a refresher that reports errors until it is cancelled.
type vfSource struct {
	name  string
	errs  []error
	quiet bool // reports nothing when it stops
	ch    chan error
}

func (s *vfSource) start(ctx context.Context) <-chan error {
	s.ch = make(chan error, 1)
	go func() {
		defer close(s.ch)
		for _, e := range s.errs {
			select {
			case s.ch <- e:
			case <-ctx.Done():
			}
		}
		<-ctx.Done()
		if !s.quiet {
			s.ch <- ctx.Err()
		}
	}()
	return s.ch
}

// vfKind is an error that errors.Is takes for another one.
type vfKind struct {
	err  error
	text string
}

func (e *vfKind) Error() string { return e.text + ": " + e.err.Error() }
func (e *vfKind) Unwrap() error { return e.err }
func (e *vfKind) Cause() error  { return e.err }

func vfSources(max int, quiet bool) []*vfSource {
	var out []*vfSource
	for _, n := range []string{"pubkey", "policy", "jwk"} {
		s := &vfSource{name: n, quiet: quiet}
		for i, c := 0, vf.Choice(n+"Errors", max+1); i < c; i++ {
			s.errs = append(s.errs, errors.New(vf.StrOf(n+"Message", "ab:", 2, 2)))
			if i == 0 && c == 1 {
				switch vf.Choice(n+"Kind", 3) {
				case 1: // a timeout of one request is not the end of the refresher
					s.errs[0] = &vfKind{context.DeadlineExceeded, n}
				case 2:
					s.errs[0] = &vfKind{context.Canceled, n}
				}
			}
		}
		out = append(out, s)
	}
	return out
}

// Every error of every enabled refresher arrives once, in order and marked, before a clean end.
func vfStart(max int, early bool) {
	off := vf.Choice("disabled", 8)
	var opts []Option
	if off&1 != 0 {
		opts = append(opts, WithDisablePubkeyd())
	}
	if off&2 != 0 {
		opts = append(opts, WithDisablePolicyd())
	}
	if off&4 != 0 {
		opts = append(opts, WithDisableJwkd())
	}
	a := vfAuthority(opts...)
	quiet := !early || vf.Choice("quiet", 2) == 1
	src := vfSources(max, quiet)
	jd, pd, kd := &vfPubkeyd{}, &vfPolicy{}, &vfJwkd{}
	jd.start, pd.start, kd.start = src[0].start, src[1].start, src[2].start
	a.pubkeyd, a.policyd, a.jwkd = jd, pd, kd
	rp := &vfRole{f: func(string) (*role.Token, error) {
		return &role.Token{Domain: "d", Roles: []string{"r"}, Principal: "p"}, nil
	}}
	a.roleProcessor = rp
	pd.f = func(d string, roles []string, act, res string) ([]string, error) { return roles, nil }
	ctx, cancel := context.WithCancel(context.Background())
	ech := a.Start(ctx)
	vf.Assert((jd.starts == 1) == (off&1 == 0) && (pd.starts == 1) == (off&2 == 0) && (kd.starts == 1) == (off&4 == 0) &&
		jd.starts+pd.starts+kd.starts <= 3, "exactly the enabled refreshers are started")
	other := "d=x;p=y:z;s=a.b=="
	a.AuthorizeRoleToken(ctx, "tok", "act", "res")
	a.AuthorizeRoleToken(ctx, other, "a:ct", "/res?q=1")
	var got []error
	closed := make(chan struct{})
	go func() {
		for e := range ech {
			got = append(got, e)
		}
		close(closed)
	}()
	if !early {
		vf.Settle()
	}
	cancel()
	<-closed
	next := [3]int{}
	ends := 0
	for _, e := range got {
		if ends > 0 {
			vf.Assert(false, "nothing is reported after the cancellation")
		}
		if e == context.Canceled {
			ends++
			continue
		}
		found := false
		for i, s := range src {
			if next[i] < len(s.errs) && errors.Is(e, s.errs[next[i]]) {
				found = true
				next[i]++
				vf.Assert(off&(1<<i) == 0, "a disabled refresher reports nothing")
				vf.Assert(strings.Contains(e.Error(), "update "+s.name+" error"), "an error is marked with the refresher it came from")
				vf.Assert(strings.HasSuffix(e.Error(), s.errs[next[i]-1].Error()), "the text of the error is kept")
				break
			}
		}
		if !found && !quiet && pkgerrors.Cause(e) == context.Canceled {
			continue // a refresher's own end, still marked
		}
		vf.Assert(found, "every reported error is the next one of a refresher")
	}
	vf.Assert(ends == 1, "the cancellation is reported")
	for i, s := range src {
		if !early && off&(1<<i) == 0 {
			vf.Assert(next[i] == len(s.errs), "every error of an enabled refresher is reported")
			if len(s.errs) > 0 {
				vf.Cover("reported")
			}
		}
	}
	vf.Settle()
	n := rp.calls
	a.AuthorizeRoleToken(context.Background(), "tok", "act", "res")
	a.AuthorizeRoleToken(context.Background(), other, "a:ct", "/res?q=1")
	vf.Assert(rp.calls == n+2, "the success cache is cleared at the end")
}

func VF_C34_Stream() {
	vf.Delays(vf.Q(1, 2))
	vfStart(vf.Q(2, 3), false)
}

func VF_C34_EarlyCancel() {
	vf.Delays(vf.Q(1, 2))
	vfStart(1, true)
}
