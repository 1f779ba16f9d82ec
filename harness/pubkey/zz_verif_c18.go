package pubkey

import (
	"context"
	"net/http"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

// Histories of updates against a server with versioned key sets and symbolic
// entity tags, with faults for either environment.
func VF_C18_History() {
	sets := [][]vfKey{
		{{"0", 0}},
		{{"0", 1}, {"1", 2}},
		{},
		{{"1", 0}, {"1.2", 1}, {"", 2}},
	}
	tags := make([]string, len(sets))
	tags[3] = "w"
	for i := range tags[:3] {
		tags[i] = vf.StrOf("tag", "xyz", 0, 1)
		for j := 0; j < i; j++ {
			vf.Assume(vf.Or(tags[i] == "", tags[i] != tags[j]))
		}
	}
	first, second := EnvZTS, EnvZMS
	if vf.Choice("env", 2) == 1 {
		first, second = EnvZMS, EnvZTS
	}
	cur := map[AthenzEnv]int{}
	mode := map[AthenzEnv]int{}
	status := map[AthenzEnv]int{}
	hits := map[AthenzEnv]int{}
	s := &vfServer{}
	s.answer = func(req *http.Request) *vfReply {
		env := vfEnvOf(req)
		vf.Assert(env != "", "keys are requested from the documented URL")
		hits[env]++
		set := sets[cur[env]]
		tag := tags[cur[env]]
		switch mode[env] {
		case 1:
			return &vfReply{err: errVF}
		case 2:
			return &vfReply{status: status[env], body: vfDoc(set), etag: tag}
		case 3:
			return &vfReply{status: 200, body: vfDoc(set)[1:], etag: tag}
		case 4:
			return &vfReply{status: 200, body: `{"publicKeys":[{"id":"0","key":"` + vf.YB64(vf.PubPEM(2)) + `"},{"id":"9","key":"!"}]}`, etag: tag}
		case 5:
			return &vfReply{status: 200, body: `{"publicKeys":[{"id":"0","key":"` + vf.YB64(vf.PubPEM(2)) + `"},{"id":"9","key":"` + vf.YB64("nokey") + `"}]}`, etag: tag}
		}
		if h, ok := req.Header["If-None-Match"]; ok && h[0] == tag && tag != "" {
			vf.Cover("not modified")
			return &vfReply{status: 304, etag: tag}
		}
		return &vfReply{status: 200, body: vfDoc(set), etag: tag}
	}
	p := vfNew(s)
	want := map[AthenzEnv][]vfKey{}
	ctx := context.Background()
	for i := 0; i < vf.Q(3, 4); i++ {
		cur[first] = 0
		if i > 0 {
			cur[first] = vf.Choice("set", vf.Q(i+1, 3))
		}
		mode[first] = 0
		if i == 0 {
			mode[first] = vf.Choice("mode", 3) * 2
		} else if i == 1 {
			mode[first] = vf.Choice("mode", 6)
		} else if i == 2 {
			mode[first] = vf.Choice("mode", 2) * 3
		}
		mode[second] = 0
		if i == 1 {
			mode[second] = vf.Choice("mode2", 2) * 4
		}
		cur[second] = 3
		if mode[first] == 2 {
			status[first] = int(vf.Int("status", 100, 599))
			vf.Assume(status[first] != 200 && status[first] != 304 && status[first]/100 != 3)
		}
		err := p.Update(ctx)
		vf.Assert((err != nil) == (mode[first] != 0 || mode[second] != 0), "an update fails exactly when an environment failed")
		for _, env := range []AthenzEnv{EnvZTS, EnvZMS} {
			vf.Assert(hits[env] == i+1, "each environment is requested once per update")
			if mode[env] == 0 {
				want[env] = sets[cur[env]]
			}
			for _, id := range []string{"0", "1", "1.2", "", "9"} {
				k := -1
				for _, e := range want[env] {
					if e.id == id {
						k = e.key
					}
				}
				vf.Assert(vfServed(p, env, id) == k, "exactly the keys of the last usable answer of the environment are served")
			}
		}
		if err != nil {
			vf.Cover("failed")
		} else {
			vf.Cover("updated")
		}
		if i == 0 && vf.Choice("wait", 2) == 1 {
			time.Sleep(1000 * time.Second)
		}
	}
}

// Key ids are arbitrary text.
func VF_C18_Ids() {
	ids := []string{vf.StrOf("id", "aAb.", 0, 2), vf.StrOf("id", "aAb.", 0, 2)}
	vf.Assume(ids[0] != ids[1])
	s := &vfServer{}
	s.answer = func(req *http.Request) *vfReply {
		if vfEnvOf(req) == EnvZTS {
			return &vfReply{status: 200, body: vfDoc([]vfKey{{ids[0], 0}, {ids[1], 1}})}
		}
		return &vfReply{status: 200, body: vfDoc([]vfKey{{ids[0], 2}})}
	}
	p := vfNew(s)
	vf.Assert(p.Update(context.Background()) == nil, "the keys load")
	q := vf.StrOf("query", "aAb.", 0, 2)
	got, gotZMS := vfServed(p, EnvZTS, q), vfServed(p, EnvZMS, q)
	switch {
	case q == ids[0]:
		vf.Assert(got == 0 && gotZMS == 2, "each key is served under its own id")
	case q == ids[1]:
		vf.Assert(got == 1 && gotZMS == -1, "a key of the other environment is never served")
	default:
		vf.Assert(got == -1 && gotZMS == -1, "an unknown id has no key")
	}
}

// Lookups while an update replaces the keys.
func VF_C18_Concurrent() {
	sets := [][]vfKey{{{"0", 0}, {"1", 0}}, {{"1", 1}, {"0", 0}, {"2", 2}}}
	cur := 0
	s := &vfServer{}
	s.answer = func(req *http.Request) *vfReply {
		if vfEnvOf(req) == EnvZMS {
			return &vfReply{status: 200, body: vfDoc([]vfKey{{"0", 2}})}
		}
		return &vfReply{status: 200, body: vfDoc(sets[cur])}
	}
	p := vfNew(s)
	ctx := context.Background()
	vf.Assert(p.Update(ctx) == nil, "the keys load")
	cur = vf.Choice("order", 2)
	cur = 1 - cur
	if cur == 0 { // the other direction: from the larger to the smaller set
		cur = 1
		vf.Assert(p.Update(ctx) == nil, "the keys load")
		cur = 0
	}
	done := make(chan error, 1)
	vf.Delays(vf.Q(2, 3))
	vf.MapOrder(3)
	go func() { done <- p.Update(ctx) }()
	k0 := vfServed(p, EnvZTS, "0")
	k1 := vfServed(p, EnvZTS, "1")
	z0 := vfServed(p, EnvZMS, "0")
	vf.Assert(k0 == 0, "a key of both the old and the new set is always available")
	vf.Assert(k1 == 0 || k1 == 1, "a replaced key is available in its old or its new version")
	vf.Assert(z0 == 2, "the keys of an unchanged environment stay")
	vf.Assert(<-done == nil, "the update succeeds")
	vf.Sequential()
	for _, e := range []string{"0", "1", "2"} {
		k := -1
		for _, x := range sets[cur] {
			if x.id == e {
				k = x.key
			}
		}
		vf.Assert(vfServed(p, EnvZTS, e) == k, "after the update exactly the new keys are served")
	}
}
