package jwk

import (
	"context"
	"strings"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// Histories of updates with faults per URL.
func VF_C17_History() {
	sets := []map[string]int{{"0": 0, "1": 1}, {"1": 2}, {}, {"0": 1, "2": 0}}
	a, b := "https://a.example/keys", "http://b.example/jwks?x=1"
	upper := "https://a.example/KEYS"
	long, short := vfAthenz+"&v=2", vfAthenz[:len(vfAthenz)-1]
	urls := [][]string{nil, {a}, {a, b}, {vfAthenz}, {b, vfAthenz}, {long}, {short}, {a, upper}}[vf.Choice("urls", 8)]
	all := []string{vfAthenz}
	for _, u := range urls {
		if u != vfAthenz {
			all = append(all, u)
		}
	}
	cur := map[string]int{}
	mode := map[string]int{}
	hits := map[string]int{}
	s := &vfServer{}
	s.answer = func(url string) *vfReply {
		hits[url]++
		switch mode[url] {
		case 1:
			return &vfReply{err: errVF}
		case 2:
			st := int(vf.Int("status", 200, 599))
			vf.Assume(vf.And(st != 200, vf.Or(st < 300, st >= 400)))
			return &vfReply{status: st, body: vfSet(sets[cur[url]])}
		case 3:
			return &vfReply{status: 200, body: vfSet(sets[cur[url]])[1:]}
		}
		return &vfReply{status: 200, body: vfSet(sets[cur[url]])}
	}
	d := vfNew(s, WithURLs(urls))
	want := map[string]map[string]int{}
	for i := 0; i < vf.Q(2, 3); i++ {
		anyFailed := false
		for j, u := range all {
			cur[u] = (i*2 + j) % 4
			mode[u] = vf.Choice("mode", 4)
			if mode[u] != 0 {
				anyFailed = true
			}
		}
		err := d.Update(context.Background())
		vf.Assert((err != nil) == anyFailed, "an update fails exactly when some URL failed")
		for j, u := range all {
			vf.Assert(hits[u] == i+1, "every URL is fetched once per update")
			if mode[u] == 0 {
				want[u] = sets[(i*2+j)%4]
			}
			if err != nil {
				vf.Assert(vfNames(err.Error(), u) == (mode[u] != 0), "the error names exactly the failed URLs")
			}
		}
		if err != nil {
			vf.Cover("failed")
		} else {
			vf.Cover("updated")
		}
		for _, u := range []string{vfAthenz, a, b, upper, long, short, "https://other.example/keys"} {
			for _, kid := range []string{"0", "1", "2", "", "9"} {
				k := -1
				if w, ok := want[u][kid]; ok {
					k = w
				}
				vf.Assert(vfServed(d, kid, u) == k, "exactly the keys of the last set fetched from the URL are served")
				if u == vfAthenz {
					vf.Assert(vfServed(d, kid, "") == k, "without a URL the keys of the Athenz URL are served")
				}
			}
		}
	}
}

// vfNames tells whether the text contains the URL as a word of its own.
func vfNames(text, u string) bool {
	for _, w := range strings.FieldsFunc(text, func(r rune) bool { return r == ' ' || r == '[' || r == ']' || r == ',' || r == '"' }) {
		if w == u {
			return true
		}
	}
	return false
}

// Lookups while an update replaces a set.
func VF_C17_Concurrent() {
	cur := map[string]int{"0": 0, "1": 0}
	fail := false
	s := &vfServer{}
	s.answer = func(url string) *vfReply {
		if fail {
			return &vfReply{status: 500}
		}
		return &vfReply{status: 200, body: vfSet(cur)}
	}
	d := vfNew(s)
	ctx := context.Background()
	vf.Assert(d.Update(ctx) == nil, "the set loads")
	cur = map[string]int{"1": 1}
	fail = vf.Choice("fail", 2) == 1
	done := make(chan error, 1)
	vf.Preempt(2)
	go func() { done <- d.Update(ctx) }()
	k := vfServed(d, "1", "")
	k0 := vfServed(d, "0", "")
	vf.Assert(k == 0 || k == 1 && !fail, "a key present before and after is available throughout")
	vf.Assert(k0 == -1 && !fail || k0 == 0, "a removed key is gone or still the old one")
	vf.Assert(!(k == 1 && k0 == 0), "the keys of two sets are never mixed")
	<-done
	vf.Sequential()
	k, k0 = vfServed(d, "1", ""), vfServed(d, "0", "")
	if fail {
		vf.Assert(k == 0 && k0 == 0, "a failed update keeps the set")
	} else {
		vf.Assert(k == 1 && k0 == -1, "an update replaces the set")
	}
}
