package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	fs := flag.NewFlagSet("symgo", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	only := fs.String("only", "", "run only this harness")
	verbose := fs.Bool("v", false, "")
	secs := fs.Int("secs", 0, "time limit")
	workers := fs.Int("workers", 0, "")
	noNative := fs.Bool("nonative", false, "")
	if len(os.Args) < 4 || os.Args[1] != "check" {
		fmt.Fprintln(os.Stderr, "usage: symgo check <property> <quick|thorough> [flags]")
		os.Exit(2)
	}
	prop, tier := os.Args[2], os.Args[3]
	fs.Parse(os.Args[4:])
	repoDir = *repo
	c := &checker{prop: prop, tier: tier, verif: *verif, only: *only, verbose: *verbose, secs: *secs, workers: *workers, noNative: *noNative}
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		c.seed = s
	} else {
		c.seed = 1
	}
	code := c.run()
	os.Exit(code)
}

type checker struct {
	prop, tier, verif, only string
	verbose, noNative       bool
	secs, workers           int
	seed                    int64
	t0                      time.Time
	kit                     *Kit
}

type harnessRef struct {
	rel  string
	pkg  *ssa.Package
	fn   *ssa.Function
	name string
}

// Finding is a violation together with what the real code did.
type finding struct {
	v      *Violation
	h      harnessRef
	how    string
	known  string
	replay string
}

type knownEntry struct {
	prop, label, harness string
	inputs               map[string]string
	text                 string
}

// known findings: lines "known: property=<id> harness=<h> label="<l>" [input name=value ...] -- text"
func (c *checker) loadKnown() []knownEntry {
	b, err := os.ReadFile(filepath.Join(c.verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var out []knownEntry
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var raw struct {
			Property string            `json:"property"`
			Harness  string            `json:"harness"`
			Label    string            `json:"label"`
			Inputs   map[string]string `json:"inputs"`
			What     string            `json:"what"`
		}
		if json.Unmarshal([]byte(strings.TrimPrefix(l, "known: ")), &raw) != nil {
			continue
		}
		out = append(out, knownEntry{raw.Property, raw.Label, raw.Harness, raw.Inputs, raw.What})
	}
	return out
}

func (c *checker) run() int {
	c.t0 = time.Now()
	kit, err := newKit(c.verif, c.prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, "symgo:", err)
		return 2
	}
	defer kit.Close()
	c.kit = kit
	if len(kit.harness) == 0 {
		fmt.Fprintln(os.Stderr, "symgo: no harness for", c.prop)
		return 2
	}
	overlay := map[string][]byte{}
	for d, s := range kit.overlayFiles() {
		b, err := os.ReadFile(s)
		if err != nil {
			fmt.Fprintln(os.Stderr, "symgo:", err)
			return 2
		}
		overlay[d] = b
	}
	var pats []string
	for rel := range kit.harness {
		pats = append(pats, "./"+rel)
	}
	sort.Strings(pats)
	pats = append(pats, "./internal/vf")
	prog, err := Load(overlay, pats, filepath.Join(kit.dir, "load.mod"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "symgo:", err)
		return 2
	}
	loadS := time.Since(c.t0).Seconds()
	var hs []harnessRef
	for rel := range kit.harness {
		path := repoModule
		if rel != "." {
			path += "/" + rel
		}
		sp := prog.pkgs[path]
		if sp == nil {
			fmt.Fprintln(os.Stderr, "symgo: package missing:", path)
			return 2
		}
		for n, m := range sp.Members {
			f, ok := m.(*ssa.Function)
			if !ok || !strings.HasPrefix(n, "VF_"+c.prop+"_") {
				continue
			}
			if c.only != "" && !strings.Contains(n, c.only) {
				continue
			}
			if strings.HasSuffix(n, "_thorough") && c.tier != "thorough" {
				continue
			}
			hs = append(hs, harnessRef{rel, sp, f, n})
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "symgo: no harness function for", c.prop)
		return 2
	}
	budget := 100 * time.Second
	if c.tier == "thorough" {
		budget = 700 * time.Second
	}
	if c.secs > 0 {
		budget = time.Duration(c.secs) * time.Second
	}
	var runs []*Run
	var finds []finding
	end := c.t0.Add(budget)
	for i, h := range hs {
		r := NewRun(prog, h.name, h.fn)
		r.seed = c.seed
		r.verbose = c.verbose
		r.thorough = c.tier == "thorough"
		r.stopOnViolation = true
		if c.workers > 0 {
			r.workers = c.workers
		}
		if r.thorough {
			r.maxPassed = 2
			r.params["thorough"] = 1
		}
		left := time.Until(end)
		r.deadline = time.Now().Add(left / time.Duration(len(hs)-i))
		if left < 5*time.Second {
			r.deadline = time.Now().Add(5 * time.Second)
		}
		t := time.Now()
		r.Explore()
		r.wall = time.Since(t)
		budget := 12 * time.Second
		if r.thorough {
			budget = 60 * time.Second
		}
		r.close(time.Now().Add(budget))
		r.cross.notes = r.cross.crossCheck(&r.stats, time.Now().Add(4*time.Second))
		runs = append(runs, r)
		c.printRun(r)
		for _, v := range r.viol {
			finds = append(finds, finding{v: v, h: h})
		}
	}
	vacuous := c.vacuity(hs, runs)
	validated, mism := 0, []string{}
	if !c.noNative {
		validated, mism = c.validate(hs, runs)
	}
	known := c.loadKnown()
	var real []finding
	var unconf []string
	seen := map[string]bool{}
	knownHit := map[string]bool{}
	perKey := map[string]int{}
	for _, f := range finds {
		key := f.h.name + "|" + f.v.Kind + "|" + f.v.Label
		if seen[key] || perKey[key] >= 4 {
			continue
		}
		perKey[key]++
		if k := c.matchKnown(known, f); k != "" {
			if !knownHit[k] {
				knownHit[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k)
			}
			continue
		}
		how, ok := c.confirm(prog, f, hs)
		if !ok {
			unconf = append(unconf, fmt.Sprintf("%s: %s: counterexample not confirmed (%s): %v", f.h.name, f.v.Label, how, f.v.Inputs))
			continue
		}
		f.how = how
		seen[key] = true
		real = append(real, f)
	}
	for _, u := range unconf {
		fmt.Println("note: " + u)
	}
	for _, m := range mism {
		fmt.Println("note: native mismatch: " + m)
	}
	for _, v := range vacuous {
		fmt.Println("note: " + v)
	}
	for i := range real {
		p := filepath.Join(c.verif, "replay", fmt.Sprintf("%s_%d.json", c.prop, i))
		os.MkdirAll(filepath.Dir(p), 0o755)
		real[i].v.Replayed = real[i].how
		b, _ := json.MarshalIndent(map[string]any{"property": c.prop, "package": real[i].h.rel, "violation": real[i].v}, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("  %s in %s: %s %s\n    inputs %v\n    %s\n", real[i].v.Kind, real[i].h.name, real[i].v.Label, real[i].v.Detail, real[i].v.Inputs, real[i].how)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, p)
	}
	c.evidence(hs, runs, real, unconf, mism, vacuous, validated, loadS)
	if len(real) > 0 {
		return 1
	}
	fmt.Printf("%s: held on everything explored (%.1fs)\n", c.prop, time.Since(c.t0).Seconds())
	return 0
}

func (c *checker) printRun(r *Run) {
	fmt.Printf("%s: paths=%d pruned=%d steps=%d queries=%d (sat %d unsat %d unknown %d) small=%d asserts=%d solver=%.2fs wall=%.2fs timedout=%v\n",
		r.harness, r.paths.Load(), r.pruned.Load(), r.steps.Load(), r.stats.queries.Load(), r.stats.sat.Load(), r.stats.unsat.Load(), r.stats.unknown.Load(),
		r.stats.small.Load(), r.asserts.Load(), float64(r.stats.nanos.Load())/1e9, r.wall.Seconds(), r.timedOut)
	if r.phases > 1 {
		fmt.Printf("  %d phases, %d accesses became scheduling points\n", r.phases, len(r.racy))
	}
	fmt.Printf("  verdict: %s (%.1fs)\n", r.verdict.text(), r.verdict.wall)
	if r.verdict.sat > 0 {
		fmt.Println("  note: the closing query found values that no explored path follows")
	}
	if d := os.Getenv("SYMGO_GAPS"); d != "" {
		for i, g := range r.verdict.gaps {
			os.WriteFile(fmt.Sprintf("%s/gap_%s_%d.smt2", d, r.harness, i), []byte(g), 0o644)
		}
	}
	for _, k := range sortedKeys(r.lost) {
		fmt.Printf("  lost %d: %s\n", r.lost[k], k)
	}
	if c.verbose {
		for _, k := range sortedKeys(r.notes) {
			fmt.Printf("  note %d: %s\n", r.notes[k], k)
		}
		for _, k := range sortedKeys(r.initNote) {
			fmt.Printf("  init: %s\n", k)
		}
		for _, k := range sortedKeys(r.forkAt) {
			fmt.Printf("  fork %d: %s\n", r.forkAt[k], k)
		}
		for _, k := range sortedKeys(r.covers) {
			fmt.Printf("  cover %d: %s\n", r.covers[k], k)
		}
	}
}

// vacuity: every vf.Cover label of a harness must have been reached.
func (c *checker) vacuity(hs []harnessRef, runs []*Run) []string {
	var out []string
	for i, h := range hs {
		for _, l := range coverLabels(h.fn, map[*ssa.Function]bool{}) {
			if runs[i].covers[l] == 0 {
				out = append(out, fmt.Sprintf("%s: cover %q not reached on a complete path", h.name, l))
			}
		}
	}
	return out
}

func coverLabels(f *ssa.Function, seen map[*ssa.Function]bool) []string {
	if seen[f] {
		return nil
	}
	seen[f] = true
	var out []string
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			callee := ci.Common().StaticCallee()
			if callee == nil {
				continue
			}
			if pkgPathOf(callee) == vfPkg && callee.Name() == "Cover" {
				if k, ok := ci.Common().Args[0].(*ssa.Const); ok {
					out = append(out, strings.Trim(k.Value.ExactString(), `"`))
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		out = append(out, coverLabels(a, seen)...)
	}
	return out
}

func (c *checker) bin(h harnessRef, hs []harnessRef, race bool) (string, error) {
	var names []string
	for _, x := range hs {
		if x.rel == h.rel {
			names = append(names, x.name)
		}
	}
	return c.kit.bin(h.rel, h.pkg.Pkg.Name(), names, race)
}

// validate replays sampled complete paths against the real code.
func (c *checker) validate(hs []harnessRef, runs []*Run) (int, []string) {
	n := 0
	var mism []string
	for i, h := range hs {
		// with the race detector where unordered accesses are violations
		race := runs[i].raceWatch.Load() && c.tier == "thorough"
		bin, err := c.bin(h, hs, race)
		if err != nil {
			mism = append(mism, err.Error())
			continue
		}
		done := 0
		limit := 6
		if c.tier == "thorough" {
			limit = 20
		}
		if sampleRuns > 0 {
			limit = sampleRuns
		}
		for _, s := range runs[i].samples {
			if s.Sched > 0 || done >= limit {
				continue
			}
			done++
			res := c.kit.native(bin, h.name, s.Inputs, runs[i].params, 15*time.Second)
			bad := ""
			if race && strings.Contains(res.raw, "WARNING: DATA RACE") {
				bad = "data race natively: " + tail(res.raw, 9000)
			} else if res.Status != "ok" && res.Status != "stop" {
				bad = "status " + res.Status + " " + res.Msg
				if c.verbose {
					bad += tail(res.raw, 2000)
				}
			} else if len(res.Fails) > 0 {
				viol := false
				for _, v := range runs[i].viol {
					if v.Label == res.Fails[0] {
						viol = true
					}
				}
				if !viol {
					bad = "assertion fails natively: " + strings.Join(res.Fails, "; ")
				}
			} else {
				for j := range s.Obs {
					if j >= len(res.Obs) || s.Obs[j] != res.Obs[j] && !strings.Contains(s.Obs[j], "opaque") {
						got := "missing"
						if j < len(res.Obs) {
							got = res.Obs[j]
						}
						bad = "observed " + s.Obs[j] + " natively " + got
						break
					}
				}
			}
			if bad != "" {
				mism = append(mism, fmt.Sprintf("%s %v: %s", h.name, s.Inputs, bad))
			} else {
				n++
			}
		}
	}
	return n, mism
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// confirm replays a counterexample.
func (c *checker) confirm(prog *Program, f finding, hs []harnessRef) (string, bool) {
	if c.noNative {
		return "native replay switched off", true
	}
	bin, err := c.bin(f.h, hs, f.v.Kind == "race")
	if err != nil {
		return err.Error(), false
	}
	params := map[string]int64{}
	if c.tier == "thorough" {
		params["thorough"] = 1
	}
	tries := 1
	if f.v.Kind == "race" {
		tries = 10
	} else if f.v.Sched > 0 {
		tries = 25
	}
	var last nativeRes
	for i := 0; i < tries; i++ {
		last = c.kit.native(bin, f.h.name, f.v.Inputs, params, 20*time.Second)
		if last.reproduces(f.v) {
			return fmt.Sprintf("reproduced by running the real code natively (attempt %d)", i+1), true
		}
	}
	if f.v.Sched > 0 || f.v.Kind == "race" {
		// a specific interleaving: re-execute the real code's SSA along the recorded schedule
		r := NewRun(prog, f.h.name, f.h.fn)
		r.params = params
		r.racy = f.v.racy
		if c.tier == "thorough" {
			r.maxPassed = 2
		}
		r.workers = 1
		r.maxPaths = 1
		r.deadline = time.Now().Add(60 * time.Second)
		pre := append([]uint64(nil), f.v.Prefix...)
		r.replayOne(Item{prefix: pre, model: f.v.model})
		for _, v := range r.viol {
			if v.Kind == f.v.Kind && v.Label == f.v.Label {
				return "interleaving re-executed deterministically along the recorded schedule (not hit by native repetition)", true
			}
		}
		return "schedule did not re-execute to the same failure; natively " + last.Status, false
	}
	return fmt.Sprintf("natively: status %s %s fails %v %s", last.Status, last.Msg, last.Fails, tail(last.raw, 800)), false
}

func (c *checker) matchKnown(ks []knownEntry, f finding) string {
	for _, k := range ks {
		if k.prop != c.prop || k.label != f.v.Label || k.harness != "" && k.harness != f.h.name {
			continue
		}
		ok := true
		for n, v := range k.inputs {
			if f.v.Inputs[n] != v {
				ok = false
			}
		}
		if ok {
			return k.text
		}
	}
	return ""
}
