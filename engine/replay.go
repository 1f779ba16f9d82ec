package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Kit is the scratch directory with the module variants used by one check.
type Kit struct {
	dir     string
	verif   string
	prop    string
	harness map[string][]string // package dir (relative to the repo) -> harness files
	bins    map[string]string
	binErr  map[string]string
}

func modCache() (string, error) {
	c := exec.Command("go", "env", "GOMODCACHE")
	c.Env = goEnv()
	o, err := c.Output()
	return strings.TrimSpace(string(o)), err
}

func copyDir(src, dst string, edit func(name string, b []byte) []byte) error {
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return err
	}
	es, err := os.ReadDir(src)
	if err != nil {
		return err
	}
	for _, e := range es {
		n := e.Name()
		if e.IsDir() || strings.HasSuffix(n, "_test.go") || !(strings.HasSuffix(n, ".go") || n == "go.mod") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, n))
		if err != nil {
			return err
		}
		if edit != nil {
			b = edit(n, b)
		}
		if err := os.WriteFile(filepath.Join(dst, n), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

func newKit(verif, prop string) (*Kit, error) {
	dir, err := os.MkdirTemp("", "symgo")
	if err != nil {
		return nil, err
	}
	k := &Kit{dir: dir, verif: verif, prop: prop, harness: map[string][]string{}, bins: map[string]string{}, binErr: map[string]string{}}
	mc, err := modCache()
	if err != nil {
		return nil, err
	}
	gm, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return nil, err
	}
	ver := func(mod string) string {
		for _, l := range strings.Split(string(gm), "\n") {
			f := strings.Fields(l)
			for i := range f {
				if f[i] == mod && i+1 < len(f) {
					return f[i+1]
				}
			}
		}
		return ""
	}
	gv, fv := ver("github.com/kpango/gache"), ver("github.com/kpango/fastime")
	if err := copyDir(filepath.Join(mc, "github.com/kpango/gache@"+gv), filepath.Join(dir, "gache"), func(n string, b []byte) []byte {
		s := strings.Replace(string(b), "slen = 512", "slen = 1", 1)
		s = strings.Replace(s, "mask = 0x1FF", "mask = 0", 1)
		return []byte(s)
	}); err != nil {
		return nil, err
	}
	if err := copyDir(filepath.Join(mc, "github.com/kpango/fastime@"+fv), filepath.Join(dir, "fastime"), nil); err != nil {
		return nil, err
	}
	// natively the clock must be the (virtual) clock of the test bubble
	os.Remove(filepath.Join(dir, "fastime", "fastime.go"))
	os.Remove(filepath.Join(dir, "fastime", "now.go"))
	os.Remove(filepath.Join(dir, "fastime", "now_windows.go"))
	stub := `package fastime

import (
	"context"
	"time"
)

type Fastime interface {
	IsDaemonRunning() bool
	GetFormat() string
	SetFormat(format string) Fastime
	GetLocation() *time.Location
	SetLocation(location *time.Location) Fastime
	Now() time.Time
	Stop()
	UnixNow() int64
	UnixUNow() uint32
	UnixNanoNow() int64
	UnixUNanoNow() uint32
	FormattedNow() []byte
	StartTimerD(ctx context.Context, dur time.Duration) Fastime
}

type fastime struct{}

func New() Fastime                                                  { return &fastime{} }
func (f *fastime) IsDaemonRunning() bool                            { return true }
func (f *fastime) GetLocation() *time.Location                      { return time.UTC }
func (f *fastime) GetFormat() string                                { return time.RFC3339 }
func (f *fastime) SetLocation(*time.Location) Fastime               { return f }
func (f *fastime) SetFormat(string) Fastime                         { return f }
func (f *fastime) Now() time.Time                                   { return time.Now().Round(0).UTC() }
func (f *fastime) Stop()                                            {}
func (f *fastime) UnixNow() int64                                   { return time.Now().Unix() }
func (f *fastime) UnixUNow() uint32                                 { return uint32(time.Now().Unix()) }
func (f *fastime) UnixNanoNow() int64                               { return time.Now().UnixNano() }
func (f *fastime) UnixUNanoNow() uint32                             { return uint32(time.Now().UnixNano()) }
func (f *fastime) FormattedNow() []byte                             { return []byte("now") }
func (f *fastime) StartTimerD(context.Context, time.Duration) Fastime { return f }
`
	if err := os.WriteFile(filepath.Join(dir, "fastime", "fastime.go"), []byte(stub), 0o644); err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	if err != nil {
		return nil, err
	}
	loadMod := string(gm) + "\nreplace github.com/kpango/gache => " + filepath.Join(dir, "gache") + "\n"
	testMod := string(gm) + "\nreplace github.com/kpango/fastime => " + filepath.Join(dir, "fastime") + "\n"
	for n, s := range map[string]string{"load.mod": loadMod, "test.mod": testMod, "load.sum": string(sum), "test.sum": string(sum)} {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644); err != nil {
			return nil, err
		}
	}
	// harness files of this property
	root := filepath.Join(verif, "harness")
	low := strings.ToLower(prop)
	err = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		n := fi.Name()
		if !strings.HasPrefix(n, "zz_verif_") {
			return nil
		}
		tag := strings.TrimSuffix(strings.TrimPrefix(n, "zz_verif_"), ".go")
		match := tag == low || strings.HasPrefix(tag, low+"_")
		for _, part := range strings.Split(tag, "_") {
			if part == low {
				match = true
			}
		}
		if match {
			rel, _ := filepath.Rel(root, filepath.Dir(p))
			if rel == "root" {
				rel = "."
			}
			k.harness[rel] = append(k.harness[rel], p)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	for rel := range k.harness {
		d := filepath.Join(root, rel)
		if rel == "." {
			d = filepath.Join(root, "root")
		}
		cs, _ := filepath.Glob(filepath.Join(d, "zz_verif_common*.go"))
		// a helper file is used when the harness asks for it: //vf:use name
		var uses []string
		for _, h := range k.harness[rel] {
			b, _ := os.ReadFile(h)
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "//vf:use ") {
					uses = append(uses, strings.Fields(l)[1:]...)
				}
			}
		}
		for _, c := range cs {
			n := strings.TrimSuffix(strings.TrimPrefix(filepath.Base(c), "zz_verif_common"), ".go")
			n = strings.TrimPrefix(n, "_")
			if n == "" {
				k.harness[rel] = append(k.harness[rel], c)
				continue
			}
			for _, u := range uses {
				if u == n {
					k.harness[rel] = append(k.harness[rel], c)
					break
				}
			}
		}
	}
	return k, nil
}

func (k *Kit) Close() { os.RemoveAll(k.dir) }

func (k *Kit) overlayFiles() map[string]string {
	m := map[string]string{
		filepath.Join(repoDir, "internal/vf/vf.go"):   filepath.Join(k.verif, "harness/vf/vf.go"),
		filepath.Join(repoDir, "internal/vf/keys.go"): filepath.Join(k.verif, "harness/vf/keys.go"),
	}
	for rel, fs := range k.harness {
		for _, f := range fs {
			m[filepath.Join(repoDir, rel, filepath.Base(f))] = f
		}
	}
	return m
}

const testTmpl = `package %s

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"
	"testing/synctest"

	"github.com/kpango/glg"
	"github.com/yahoojapan/athenz-authorizer/v5/internal/vf"
)

type vfLog struct{}

func (vfLog) Write(b []byte) (int, error) { vf.AddLog(string(b)); return len(b), nil }

func TestVFReplay(t *testing.T) {
	hs := map[string]func(){
%s	}
	h := hs[os.Getenv("VF_HARNESS")]
	if h == nil {
		fmt.Println("VFRESULT {\"status\":\"noharness\"}")
		os.Exit(0)
	}
	if err := vf.Reset(os.Getenv("VF_REPLAY")); err != nil {
		fmt.Println("VFRESULT {\"status\":\"noreplay\"}")
		os.Exit(0)
	}
	glg.Get().SetMode(glg.WRITER).SetWriter(vfLog{}).SetLevel(glg.DEBG)
	synctest.Test(t, func(t *testing.T) {
		status := "ok"
		msg := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(vf.StopT); ok {
						status = s.Why
						return
					}
					status = "panic"
					msg = fmt.Sprint(r)
				}
			}()
			h()
		}()
		f, o, _ := vf.Report()
		b, _ := json.Marshal(map[string]interface{}{"status": status, "msg": msg, "fails": f, "obs": o})
		fmt.Println("\nVFRESULT " + string(b))
		os.Exit(0)
	})
}
`

// bin builds the native replayer of a package.
func (k *Kit) bin(rel, pkgName string, harnesses []string, race bool) (string, error) {
	key := rel
	if race {
		key += " race"
	}
	if b := k.bins[key]; b != "" {
		return b, nil
	}
	if e := k.binErr[key]; e != "" {
		return "", fmt.Errorf("%s", e)
	}
	var hs strings.Builder
	for _, h := range harnesses {
		fmt.Fprintf(&hs, "\t\t%q: %s,\n", h, h)
	}
	tag := strings.ReplaceAll(strings.ReplaceAll(rel, "/", "_"), ".", "root")
	tf := filepath.Join(k.dir, "replay_"+tag+"_test.go")
	if err := os.WriteFile(tf, []byte(fmt.Sprintf(testTmpl, pkgName, hs.String())), 0o644); err != nil {
		return "", err
	}
	ov := map[string]string{}
	for d, s := range k.overlayFiles() {
		ov[d] = s
	}
	// the repository's own tests are left out of this binary
	ts, _ := filepath.Glob(filepath.Join(repoDir, rel, "*_test.go"))
	for _, t := range ts {
		ov[t] = ""
	}
	ov[filepath.Join(repoDir, rel, "zz_verif_replay_test.go")] = tf
	oj, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(k.dir, "overlay_"+tag+".json")
	if err := os.WriteFile(of, oj, 0o644); err != nil {
		return "", err
	}
	out := filepath.Join(k.dir, "replay_"+tag+".bin")
	args := []string{"test", "-c", "-vet=off"}
	if race {
		out += ".race"
		args = append(args, "-race")
	}
	c := exec.Command("go", append(args, "-overlay", of, "-modfile", filepath.Join(k.dir, "test.mod"), "-o", out, "./"+rel)...)
	c.Dir = repoDir
	c.Env = goEnv()
	if b, err := c.CombinedOutput(); err != nil {
		k.binErr[key] = fmt.Sprintf("native replayer: %v: %s", err, b)
		return "", fmt.Errorf("%s", k.binErr[key])
	}
	k.bins[key] = out
	return out, nil
}

type nativeRes struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Fails  []string `json:"fails"`
	Obs    []string `json:"obs"`
	raw    string
}

var replaySeq int

// native runs one concrete assignment against the real code.
func (k *Kit) native(bin, harness string, inputs map[string]string, params map[string]int64, limit time.Duration) nativeRes {
	replaySeq++
	f := filepath.Join(k.dir, fmt.Sprintf("in%d.json", replaySeq))
	b, _ := json.Marshal(map[string]any{"inputs": inputs, "params": params})
	os.WriteFile(f, b, 0o644)
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, bin, "-test.run", "^TestVFReplay$", "-test.timeout", "60s")
	c.Dir = k.dir
	c.Env = append(os.Environ(), "VF_HARNESS="+harness, "VF_REPLAY="+f)
	c.WaitDelay = time.Second
	out, err := c.CombinedOutput()
	s := string(out)
	if i := strings.LastIndex(s, "VFRESULT "); i >= 0 {
		var r nativeRes
		line := s[i+9:]
		if j := strings.IndexByte(line, '\n'); j >= 0 {
			line = line[:j]
		}
		if json.Unmarshal([]byte(line), &r) == nil {
			r.raw = s
			return r
		}
	}
	if ctx.Err() != nil {
		return nativeRes{Status: "hang", raw: s}
	}
	if strings.Contains(s, "deadlock: ") || strings.Contains(s, "all goroutines") {
		return nativeRes{Status: "deadlock", raw: s}
	}
	if strings.Contains(s, "panic: ") || strings.Contains(s, "fatal error: ") {
		return nativeRes{Status: "panic", raw: s}
	}
	return nativeRes{Status: "error", Msg: fmt.Sprint(err), raw: s}
}

// reproduces tells whether the native run shows the violation.
func (r nativeRes) reproduces(v *Violation) bool {
	switch v.Kind {
	case "assert":
		for _, f := range r.Fails {
			if f == v.Label {
				return true
			}
		}
		return false
	case "race":
		return strings.Contains(r.raw, "WARNING: DATA RACE") || strings.Contains(r.raw, "fatal error: concurrent map")
	case "panic":
		return r.Status == "panic"
	case "deadlock":
		return r.Status == "deadlock" || r.Status == "hang"
	}
	return false
}
