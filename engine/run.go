package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Run is one exploration of one harness.
type Run struct {
	forkAt     map[string]int
	prog       *Program
	harness    string
	fn         *ssa.Function
	stats      SolverStats
	cache      *QueryCache
	cross      *crossLog
	workers    int
	deadline   time.Time
	maxSteps   int64
	maxPaths   int64
	maxTicks   int
	maxPassed  int
	maxPreempt int
	mapOrder   bool
	thorough   bool
	seed       int64
	params     map[string]int64
	used       sync.Map // name -> bound, as text
	verbose    bool

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []Item
	active  int
	stopped atomic.Bool

	paths, pruned, unsup, limited, engErr atomic.Int64
	steps                                 atomic.Int64
	asserts                               atomic.Int64
	forks                                 atomic.Int64
	schedPaths                            atomic.Int64
	timedOut                              bool

	viol            []*Violation
	violKey         map[string]int
	covers          map[string]int64
	fnsSeen         map[string]bool
	lost            map[string]int64
	notes           map[string]int64
	initNote        map[string]bool
	samples         []Sample
	labels          map[string]int64
	stopOnViolation bool
	wall            time.Duration
	root            *pathRec
	recs            atomic.Int64
	maxRecs         int64
	verdict         verdict
	racy            map[ssa.Instruction]bool // scheduling points found by earlier phases
	newRacy         map[ssa.Instruction]bool
	phases          int
	raceWatch       atomic.Bool
}

// Sample is one complete path with concrete inputs, for replay against the real code.
type Sample struct {
	Inputs  map[string]string `json:"inputs"`
	Order   []string          `json:"order"`
	Obs     []string          `json:"obs"`
	Sched   int               `json:"sched"`
	Preempt int               `json:"preempt"`
	Steps   int64             `json:"steps"`
}

func NewRun(p *Program, harness string, fn *ssa.Function) *Run {
	r := &Run{prog: p, harness: harness, fn: fn, workers: runtime.NumCPU(), maxSteps: 3_000_000, maxTicks: 400, maxPassed: 1, maxPreempt: 2,
		mapOrder: true, params: map[string]int64{}, maxPaths: 1 << 60, maxRecs: 60000}
	r.cond = sync.NewCond(&r.mu)
	r.cache = &QueryCache{m: map[string]qres{}}
	r.cross = &crossLog{max: 150}
	r.violKey = map[string]int{}
	r.covers = map[string]int64{}
	r.fnsSeen = map[string]bool{}
	r.lost = map[string]int64{}
	r.notes = map[string]int64{}
	r.initNote = map[string]bool{}
	r.labels = map[string]int64{}
	return r
}

func (r *Run) push(it Item) {
	r.forks.Add(1)
	r.mu.Lock()
	r.queue = append(r.queue, it)
	r.cond.Signal()
	r.mu.Unlock()
}

func (r *Run) noteUnknown() {}

func (r *Run) noteLost(msg string) {
	r.mu.Lock()
	r.lost[msg]++
	r.mu.Unlock()
}

func (r *Run) note(msg string) {
	r.mu.Lock()
	r.notes[msg]++
	r.mu.Unlock()
}

func (r *Run) noteInit(where, msg string) {
	r.mu.Lock()
	r.initNote[where+": "+msg] = true
	r.mu.Unlock()
}

func (r *Run) noteFn(fn *Fn) {
	if !fn.repo {
		return
	}
	r.mu.Lock()
	r.fnsSeen[fn.name] = true
	r.mu.Unlock()
}

func (r *Run) assertHit(label string) {
	r.asserts.Add(1)
	r.mu.Lock()
	r.labels[label]++
	r.mu.Unlock()
}

func (r *Run) violation(v *Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	k := v.Kind + "|" + v.Label
	r.violKey[k]++
	if r.violKey[k] <= 6 {
		r.viol = append(r.viol, v)
	}
	if r.verbose {
		fmt.Printf("  violation %s %s %s %v obs %v log %v\n", v.Kind, v.Label, v.Detail, v.Inputs, v.Obs, v.Log)
	}
	if r.stopOnViolation && r.violKey[k] >= 4 {
		r.stopped.Store(true)
		r.cond.Broadcast()
	}
}

func (r *Run) pop(rng *rand.Rand, random bool) (Item, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stopped.Load() {
			return Item{}, false
		}
		if n := len(r.queue); n > 0 {
			i := n - 1
			if random {
				i = rng.Intn(n)
			}
			it := r.queue[i]
			r.queue[i] = r.queue[n-1]
			r.queue = r.queue[:n-1]
			r.active++
			return it, true
		}
		if r.active == 0 {
			r.cond.Broadcast()
			return Item{}, false
		}
		r.cond.Wait()
	}
}

func (r *Run) done() {
	r.mu.Lock()
	r.active--
	if r.active == 0 && len(r.queue) == 0 {
		r.cond.Broadcast()
	}
	r.mu.Unlock()
}

// Explore runs all paths within the bounds. Where memory accesses of different
// goroutines turn out to be unordered, the exploration starts over with these
// accesses as scheduling points.
func (r *Run) Explore() {
	for {
		r.phases++
		r.explore()
		n := len(r.racy)
		all := map[ssa.Instruction]bool{}
		for i := range r.racy {
			all[i] = true
		}
		for i := range r.newRacy {
			all[i] = true
		}
		if len(all) == n || r.phases >= 6 || len(r.viol) > 0 || r.timedOut || time.Now().After(r.deadline) {
			return
		}
		r.racy, r.newRacy = all, nil
		r.recs.Store(0)
		r.stopped.Store(false)
		r.queue, r.samples = nil, nil
	}
}

func (r *Run) explore() {
	r.root = &pathRec{}
	r.queue = append(r.queue, Item{rec: r.root})
	timer := time.AfterFunc(time.Until(r.deadline), func() {
		r.mu.Lock()
		if r.active > 0 || len(r.queue) > 0 {
			r.timedOut = true
		}
		r.mu.Unlock()
		r.stopped.Store(true)
		r.cond.Broadcast()
	})
	defer timer.Stop()
	var wg sync.WaitGroup
	for w := 0; w < r.workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			in := newInterp(r)
			defer in.sol.Close()
			rng := rand.New(rand.NewSource(r.seed*1000 + int64(w)))
			for {
				it, ok := r.pop(rng, w >= r.workers*3/4)
				if !ok {
					return
				}
				in.runPath(it)
				r.done()
				if r.paths.Load() >= r.maxPaths {
					r.timedOut = true
					r.stopped.Store(true)
					r.cond.Broadcast()
				}
			}
		}(w)
	}
	wg.Wait()
}

func newInterp(r *Run) *Interp {
	in := &Interp{prog: r.prog, run: r, tc: NewTermCtx(), fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]*Value{},
		inited: map[*ssa.Package]bool{}, methods: map[methodKey]*ssa.Function{}, impls: map[implKey]bool{},
		closures: map[*ssa.Function]*Closure{}}
	in.sol = NewSolver(&r.stats, r.cache, r.cross)
	return in
}

func (in *Interp) runPath(it Item) {
	r := in.run
	in.tc.Reset()
	in.epochCtr++
	p := &Path{in: in, prefix: it.prefix, asg: append([]uint64(nil), it.model...), pcSet: map[*Term]bool{}, nameCnt: map[string]int{},
		covers: map[string]bool{}, epoch: in.epochCtr, stat: map[string]int64{}}
	in.path = p
	if it.rec != nil {
		if r.recs.Add(1) <= r.maxRecs {
			p.rec = it.rec
			p.rec.state = 1
		} else {
			it.rec.state = 2
		}
	}
	in.initDepth = 0
	in.sch = in.newSched()
	in.env = newEnv()
	in.onBlock = nil
	res := in.sch.runMain(func() {
		defer func() {
			if rr := recover(); rr != nil {
				if e, ok := rr.(runtime.Error); ok {
					panic(engineErr("%v\n%s", e, trimStack(debug.Stack())))
				}
				panic(rr)
			}
		}()
		in.callBody(nil, in.fnOf(r.fn), nil, nil, nil)
	})
	r.paths.Add(1)
	r.steps.Add(p.steps)
	if p.nSched > 0 {
		r.schedPaths.Add(1)
	}
	complete := false
	switch e := res.(type) {
	case nil:
		complete = true
	case pathEnd:
		switch e.kind {
		case endPruned:
			r.pruned.Add(1)
		case endUnsupported:
			r.unsup.Add(1)
			r.noteLost("unsupported: " + e.msg)
		case endLimit:
			r.limited.Add(1)
			r.noteLost("limit: " + e.msg)
		case endEngine:
			r.engErr.Add(1)
			r.noteLost("engine error: " + e.msg)
		case endStop:
			complete = true
		case endViolation, endKilled:
		}
	case *targetPanicT:
		p.merge = nil
		p.report("panic", "no panic", e.msg+" at "+e.pos, p.asg)
	case *deadlock:
		p.report("deadlock", "no deadlock", e.msg, p.asg)
	case mergeAbort:
		r.engErr.Add(1)
		r.noteLost("engine error: stray merge abort: " + e.msg)
	default:
		r.engErr.Add(1)
		r.noteLost(fmt.Sprintf("engine error: %v", res))
	}
	if complete {
		r.mu.Lock()
		for c := range p.covers {
			r.covers[c]++
		}
		r.mu.Unlock()
		r.sample(p)
	} else if r.verbose {
		// nothing
	}
	if p.rec != nil && !complete {
		if e, ok := res.(pathEnd); !ok || e.kind != endPruned {
			p.rec.state = 3
		}
	}
	p.merge = nil
	in.rollback()
}

// sampleCap and sampleRuns: complete paths kept, and replayed natively per harness (SYMGO_SAMPLES=n for both).
var sampleCap, sampleRuns = envInt("SYMGO_SAMPLES", 24), envInt("SYMGO_SAMPLES", 0)

func envInt(name string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}
	return def
}

func (r *Run) sample(p *Path) {
	r.mu.Lock()
	n := len(r.samples)
	take := n < sampleCap
	idx := n
	if !take {
		// reservoir
		k := int(uint64(r.paths.Load()*2654435761) % uint64(r.paths.Load()+1))
		if k < sampleCap {
			take, idx = true, k
		}
	}
	r.mu.Unlock()
	if !take {
		return
	}
	ins, order := p.encodeInputs(p.asg)
	s := Sample{Inputs: ins, Order: order, Sched: p.nSched, Preempt: p.preempt, Steps: p.steps}
	for _, o := range p.observed {
		s.Obs = append(s.Obs, o.name+"="+p.in.render(o.v, p.asg))
	}
	r.mu.Lock()
	if idx < len(r.samples) {
		r.samples[idx] = s
	} else {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

func trimStack(b []byte) string {
	ls := strings.Split(string(b), "\n")
	if len(ls) > 30 {
		ls = ls[:30]
	}
	return strings.Join(ls, "\n")
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// replayOne follows one recorded path to its end.
func (r *Run) replayOne(it Item) {
	in := newInterp(r)
	defer in.sol.Close()
	in.runPath(it)
}

func (r *Run) noteFork(where string) {
	r.mu.Lock()
	if r.forkAt == nil {
		r.forkAt = map[string]int{}
	}
	r.forkAt[where]++
	r.mu.Unlock()
}

// bound records the range of an input for the evidence.
func (r *Run) bound(name, what string) {
	if o, ok := r.used.Load(name); ok {
		if o == what {
			return
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		o, _ = r.used.Load(name)
		for _, w := range strings.Split(o.(string), "; ") {
			if w == what {
				return
			}
		}
		if len(o.(string)) < 300 {
			r.used.Store(name, o.(string)+"; "+what)
		}
		return
	}
	r.used.LoadOrStore(name, what)
}
