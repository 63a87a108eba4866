// Package mc is a small stateless model checker: a body is a deterministic function of the choices it asks
// for, and the explorer runs it once for every sequence of choices (optionally bounding the number of
// deviations from the default answer). See /verif/DESIGN.md.
package mc

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Opts bounds one exploration.
type Opts struct {
	Serial bool // one worker (bodies that touch process-wide state)
	MaxDev int  // bound on the total cost of Dev choices; explored in increasing order
	// Timed marks bodies whose executions may legitimately take long (the watchdog allows Timed seconds).
	Timed int
	// Loose spaces run several goroutines: should the code under test not repeat an execution under the same choices,
	// the execution is explored as it came instead of being an error of the check.
	Loose bool
}

// Run is one run of one property's check.
type Run struct {
	ID       string
	Tier     string
	Seed     int64
	start    time.Time
	deadline time.Time
	known    []Known
	j        *journal
	replay   *replaySpec

	mu         sync.Mutex
	spaces     []*Space
	violations []*Violation
	knownHits  map[string]*knownHit
	assume     []string
	extra      map[string]interface{}
	capped     []string
	cur        *Space
}

type knownHit struct {
	n     int64
	first string
	what  string
}

// Known is an entry of /verif/known_findings.json.
type Known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

// Space is one exploration.
type Space struct {
	Name       string `json:"name"`
	Executions int64  `json:"executions"`
	Steps      int64  `json:"transitions"`
	States     int64  `json:"states"`
	Validated  int64  `json:"validated"`
	Skipped    int64  `json:"skipped"`
	MaxDev     int    `json:"deviation_bound,omitempty"`
	DevDone    int    `json:"deviation_bound_completed,omitempty"`
	Exhaustive bool   `json:"exhaustive"`
	WallS      float64
	Outcomes   map[string]int64 `json:"outcomes,omitempty"`
	Samples    []string         `json:"-"`

	body   func(*Ctx)
	opts   Opts
	states [64]stateShard
	mu     sync.Mutex
}

type stateShard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

const maxStates = 40000000

// Violation is one failing execution.
type Violation struct {
	Space   string   `json:"space"`
	Choices []int    `json:"choices"`
	Labels  []string `json:"labels"`
	Key     string   `json:"key"`
	Msg     string   `json:"message"`
	Log     []string `json:"log"`
	Stack   string   `json:"stack,omitempty"`
	Repro   string   `json:"reproduced"`
}

type abort struct{ kind int } // panics used for control flow

const (
	abFail = iota
	abSkip
	abDiverge
)

// Ctx is one execution.
type Ctx struct {
	R       *Run
	sp      *Space
	prefix  []int
	choices []int
	arity   []int
	isDev   []bool
	labels  []string
	devCost int
	verbose bool
	want    bool // collect labels/log
	log     []string
	steps   int64
	valid   int64
	skipped bool
	fail    *Violation
	outs    map[string]int64
	newSt   []uint64
	diverge string
	buf     []byte
}

func (c *Ctx) choose(label string, n int, dev bool) int {
	if n <= 0 {
		panic("mc: choice with no alternatives: " + label)
	}
	i := len(c.choices)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			c.diverge = fmt.Sprintf("choice %d (%s): prefix asks for %d of %d", i, label, v, n)
			panic(abort{abDiverge})
		}
	}
	c.choices = append(c.choices, v)
	c.arity = append(c.arity, n)
	c.isDev = append(c.isDev, dev)
	if dev && v != 0 {
		c.devCost++
	}
	if c.want {
		c.labels = append(c.labels, fmt.Sprintf("%s=%d/%d", label, v, n))
	}
	return v
}

// Pick explores all n alternatives.
func (c *Ctx) Pick(label string, n int) int { return c.choose(label, n, false) }

// Bool explores false and true.
func (c *Ctx) Bool(label string) bool { return c.choose(label, 2, false) == 1 }

// Dev explores n alternatives of which 0 is the default and any other costs one deviation.
func (c *Ctx) Dev(label string, n int) int { return c.choose(label, n, true) }

// Step counts n operations of the code under test.
func (c *Ctx) Step(n int) { c.steps += int64(n) }

// Valid counts n comparisons of the code's result with the reference model's.
func (c *Ctx) Valid(n int) { c.valid += int64(n) }

var hseed = maphash.MakeSeed()

// State records the state (or input) reached; distinct ones are counted.
func (c *Ctx) State(b []byte) { c.newSt = append(c.newSt, maphash.Bytes(hseed, b)) }

// StateS is State for a string.
func (c *Ctx) StateS(s string) { c.newSt = append(c.newSt, maphash.String(hseed, s)) }

// StateU is State for integers.
func (c *Ctx) StateU(v ...uint64) {
	c.buf = c.buf[:0]
	for _, x := range v {
		c.buf = binary.LittleEndian.AppendUint64(c.buf, x)
	}
	c.newSt = append(c.newSt, maphash.Bytes(hseed, c.buf))
}

// Outcome counts a class of observed result.
func (c *Ctx) Outcome(s string) {
	if c.outs == nil {
		c.outs = map[string]int64{}
	}
	c.outs[s]++
}

// Logf records what this execution does (kept for violations and samples only).
func (c *Ctx) Logf(format string, a ...interface{}) {
	if c.want {
		c.log = append(c.log, fmt.Sprintf(format, a...))
	}
}

// Want says whether Logf records anything.
func (c *Ctx) Want() bool { return c.want }

// Skip ends an execution that denotes no case.
func (c *Ctx) Skip() { panic(abort{abSkip}) }

// Fail reports a violation and ends the execution. The key identifies the defect class.
func (c *Ctx) Fail(key, format string, a ...interface{}) {
	c.fail = &Violation{Key: key, Msg: short(fmt.Sprintf(format, a...))}
	panic(abort{abFail})
}

func short(s string) string {
	if len(s) > 3000 {
		return s[:2000] + fmt.Sprintf("...(%d characters)...", len(s)-2600) + s[len(s)-600:]
	}
	return s
}

// Check fails with key unless cond holds.
func (c *Ctx) Check(cond bool, key, format string, a ...interface{}) {
	if !cond {
		c.Fail(key, format, a...)
	}
}

// Known reports a listed finding (or a violation if the file does not list key) without ending the execution.
// It is used where the oracle recognises the specific failing input of a recorded finding.
func (c *Ctx) Known(key, format string, a ...interface{}) {
	for _, k := range c.R.known {
		if k.Property == c.R.ID && k.Key == key && k.Status == "known" {
			c.R.mu.Lock()
			h := c.R.knownHits[key]
			if h == nil {
				h = &knownHit{what: k.What, first: fmt.Sprintf(format, a...)}
				c.R.knownHits[key] = h
			}
			h.n++
			c.R.mu.Unlock()
			return
		}
	}
	c.Fail(key, format, a...)
}

// Quick says whether this is the quick tier.
func (r *Run) Quick() bool { return r.Tier != "thorough" }

// Q returns q in the quick tier and t in the thorough one.
func (r *Run) Q(q, t int) int {
	if r.Quick() {
		return q
	}
	return t
}

// Assume records an assumption in the evidence.
func (r *Run) Assume(s string) { r.assume = append(r.assume, s) }

// Extra records a coverage value in the evidence.
func (r *Run) Extra(k string, v interface{}) {
	r.mu.Lock()
	r.extra[k] = v
	r.mu.Unlock()
}

func (r *Run) runOne(sp *Space, prefix []int, verbose bool, slot int) (c *Ctx) {
	c = &Ctx{R: r, sp: sp, prefix: prefix, want: verbose}
	if slot >= 0 && r.j != nil {
		r.j.begin(slot, sp.Name, prefix, sp.opts.Timed)
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if ab, ok := e.(abort); ok {
					if ab.kind == abSkip {
						c.skipped = true
					}
					return
				}
				st := string(debug.Stack())
				c.fail = &Violation{Key: "panic", Msg: fmt.Sprintf("panic: %v", e), Stack: st}
				if !strings.Contains(st, "keyfuse/tokucore") {
					c.fail.Key = "harness-panic"
				}
			}
		}()
		sp.body(c)
	}()
	if slot >= 0 && r.j != nil {
		r.j.end(slot)
	}
	if c.diverge == "" && len(c.choices) < len(prefix) && c.fail == nil {
		c.diverge = fmt.Sprintf("execution consumed %d of %d prefix choices", len(c.choices), len(prefix))
	}
	return c
}

type item struct {
	prefix []int
	alt    int // alternatives alt..n-1 of the last position remain
	n      int
	dev    int // cost of prefix[:len-1]
	isDev  bool
}

// Explore runs body for every choice sequence within the options' bounds.
func (r *Run) Explore(name string, o Opts, body func(*Ctx)) *Space {
	sp := &Space{Name: name, body: body, opts: o, MaxDev: o.MaxDev, Outcomes: map[string]int64{}}
	for i := range sp.states {
		sp.states[i].m = map[uint64]struct{}{}
	}
	if r.replay != nil {
		if r.replay.Space == name {
			r.runReplay(sp)
		}
		return sp
	}
	if len(r.violations) >= 1 {
		return sp // already broken; stop early
	}
	r.spaces = append(r.spaces, sp)
	t0 := time.Now()
	nw := runtime.NumCPU()
	if o.Serial {
		nw = 1
	}
	sp.Exhaustive = true
	levels := make([][]item, o.MaxDev+2)
	levels[0] = []item{{prefix: nil, alt: 0, n: 0}}
	var stop int32
	for lev := 0; lev <= o.MaxDev; lev++ {
		if len(levels[lev]) == 0 {
			continue
		}
		var mu sync.Mutex
		cond := sync.NewCond(&mu)
		shared := levels[lev]
		next := []item{}
		idle := 0
		var hungry int32
		done := false
		var wg sync.WaitGroup
		for w := 0; w < nw; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				var local []item
				var nextLocal []item
				var acc Space
				outs := map[string]int64{}
				flush := func() {
					atomic.AddInt64(&sp.Executions, acc.Executions)
					atomic.AddInt64(&sp.Steps, acc.Steps)
					atomic.AddInt64(&sp.Validated, acc.Validated)
					atomic.AddInt64(&sp.Skipped, acc.Skipped)
					acc = Space{}
				}
				defer func() {
					flush()
					sp.mu.Lock()
					for k, v := range outs {
						sp.Outcomes[k] += v
					}
					sp.mu.Unlock()
					mu.Lock()
					next = append(next, nextLocal...)
					mu.Unlock()
				}()
				cnt := 0
				for {
					if len(local) == 0 {
						mu.Lock()
						idle++
						atomic.AddInt32(&hungry, 1)
						for len(shared) == 0 && !done {
							if idle == nw {
								done = true
								cond.Broadcast()
								break
							}
							cond.Wait()
						}
						if done {
							mu.Unlock()
							return
						}
						idle--
						atomic.AddInt32(&hungry, -1)
						local = append(local, shared[len(shared)-1])
						shared = shared[:len(shared)-1]
						mu.Unlock()
					} else if len(local) > 1 && atomic.LoadInt32(&hungry) > 0 {
						mu.Lock()
						h := len(local) / 2
						shared = append(shared, local[:h]...)
						local = append([]item(nil), local[h:]...)
						cond.Broadcast()
						mu.Unlock()
					}
					cnt++
					if cnt&63 == 0 {
						if atomic.LoadInt32(&stop) != 0 {
							local = local[:0]
							mu.Lock()
							shared = shared[:0]
							mu.Unlock()
							continue
						}
						if time.Now().After(r.deadline) {
							atomic.StoreInt32(&stop, 1)
						}
					}
					it := &local[len(local)-1]
					var prefix []int
					if it.n == 0 {
						prefix = it.prefix
						local = local[:len(local)-1]
					} else {
						prefix = append([]int(nil), it.prefix...)
						prefix[len(prefix)-1] = it.alt
						it.alt++
						if it.alt >= it.n {
							local = local[:len(local)-1]
						} else if len(local) == 1 && atomic.LoadInt32(&hungry) > 0 {
							// share the rest of a wide choice: split its range
							rest := *it
							if rest.n-rest.alt > 1 {
								mid := (rest.alt + rest.n) / 2
								upper := item{prefix: append([]int(nil), rest.prefix...), alt: mid, n: rest.n, dev: rest.dev, isDev: rest.isDev}
								it.n = mid
								mu.Lock()
								shared = append(shared, upper)
								cond.Signal()
								mu.Unlock()
							}
						}
					}
					c := r.runOne(sp, prefix, false, w)
					if c.diverge != "" && o.Loose {
						acc.Skipped++
						outs["not repeated"]++
						c.skipped, c.newSt = true, nil
					} else if c.diverge != "" {
						r.harnessError(fmt.Sprintf("%s: replay divergence: %s (prefix %v)", sp.Name, c.diverge, prefix))
					}
					if c.skipped {
						if c.diverge == "" {
							acc.Skipped++
						}
					} else {
						acc.Executions++
						if n := atomic.AddInt64(&sp.States, 0); n < maxStates {
							for _, h := range c.newSt {
								s := &sp.states[h&63]
								s.mu.Lock()
								if _, ok := s.m[h]; !ok {
									s.m[h] = struct{}{}
									atomic.AddInt64(&sp.States, 1)
								}
								s.mu.Unlock()
							}
						}
					}
					acc.Steps += c.steps
					acc.Validated += c.valid
					for k, v := range c.outs {
						outs[k] += v
					}
					if c.fail != nil {
						r.addViolation(sp, c)
						atomic.StoreInt32(&stop, 1)
					}
					// alternatives of the points after the prefix
					cost := 0
					for i := 0; i < len(c.choices); i++ {
						if i >= len(prefix) && c.arity[i] > 1 {
							np := append(append(make([]int, 0, i+1), c.choices[:i]...), 1)
							ni := item{prefix: np, alt: 1, n: c.arity[i], dev: cost, isDev: c.isDev[i]}
							if c.isDev[i] {
								if cost+1 <= o.MaxDev {
									nextLocal = append(nextLocal, ni)
								}
							} else {
								local = append(local, ni)
							}
						}
						if c.isDev[i] && c.choices[i] != 0 {
							cost++
						}
					}
				}
			}(w)
		}
		wg.Wait()
		if stop != 0 {
			sp.Exhaustive = false
			break
		}
		sp.DevDone = lev
		if lev+1 <= o.MaxDev {
			levels[lev+1] = append(levels[lev+1], next...)
		}
	}
	sp.WallS = time.Since(t0).Seconds()
	if !sp.Exhaustive && len(r.violations) == 0 {
		r.capped = append(r.capped, fmt.Sprintf("%s: stopped at the time limit after %d executions (deviation bound completed: %d)", name, sp.Executions, sp.DevDone))
	}
	if len(r.violations) == 0 {
		r.sample(sp)
	}
	for i := range sp.states {
		sp.states[i].m = nil
	}
	fmt.Fprintf(os.Stderr, "[%s] %-28s exec=%d steps=%d states=%d skipped=%d validated=%d exhaustive=%v %.1fs outcomes=%s\n", r.ID, name, sp.Executions, sp.Steps, sp.States, sp.Skipped, sp.Validated, sp.Exhaustive, sp.WallS, fmtOuts(sp.Outcomes))
	runtime.GC()
	return sp
}

func fmtOuts(m map[string]int64) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for i, k := range ks {
		if i > 12 {
			b.WriteString("...")
			break
		}
		fmt.Fprintf(&b, "%s:%d ", k, m[k])
	}
	return b.String()
}

// sample re-runs a few executions verbosely: the first and some further along the first branches.
func (r *Run) sample(sp *Space) {
	prefix := []int{}
	for k := 0; k < 4; k++ {
		c := r.runOne(sp, prefix, true, -1)
		c2 := r.runOne(sp, prefix, true, -1)
		if !sp.opts.Loose && (strings.Join(c.labels, " ") != strings.Join(c2.labels, " ") || c.diverge != c2.diverge) {
			r.harnessError(sp.Name + ": the same choices gave two different executions")
		}
		if !c.skipped && len(sp.Samples) < 3 {
			s := sp.Name + ": " + strings.Join(c.labels, " ")
			if len(c.log) > 0 {
				s += " | " + strings.Join(c.log, "; ")
			}
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			sp.Samples = append(sp.Samples, s)
		}
		// next sample: bump the last choice that has room, keep the defaults after it
		i := len(c.choices) - 1
		for ; i >= 0; i-- {
			if c.choices[i]+1 < c.arity[i] && !(c.isDev[i] && sp.opts.MaxDev == 0) && !(c.isDev[i] && c.choices[i] == 0 && c.devCost >= sp.opts.MaxDev) {
				break
			}
		}
		if i < 0 {
			break
		}
		prefix = append(append([]int{}, c.choices[:i]...), c.choices[i]+1)
	}
}

func (r *Run) harnessError(msg string) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR property=%s %s\n", r.ID, msg)
	os.Exit(3)
}

// addViolation re-runs the execution to confirm it.
func (r *Run) addViolation(sp *Space, c *Ctx) {
	v := c.fail
	v.Space = sp.Name
	v.Choices = append([]int{}, c.choices...)
	again := 0
	for i := 0; i < 5; i++ {
		c2 := r.runOne(sp, v.Choices, true, -1)
		if c2.fail != nil {
			again++
			v.Labels, v.Log = c2.labels, c2.log
			v.Msg = c2.fail.Msg
		}
	}
	v.Repro = fmt.Sprintf("%d of 5 re-runs", again)
	if again == 0 {
		for i := 0; i < 50 && again == 0; i++ {
			if c2 := r.runOne(sp, v.Choices, true, -1); c2.fail != nil {
				again++
				v.Labels, v.Log, v.Msg = c2.labels, c2.log, c2.fail.Msg
			}
		}
		v.Repro = fmt.Sprintf("%d of 55 re-runs", again)
	}
	if v.Key == "harness-panic" {
		r.harnessError(fmt.Sprintf("%s: %s choices=%v\n%s", sp.Name, v.Msg, v.Choices, v.Stack))
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if again == 0 {
		fmt.Fprintf(os.Stderr, "UNREPRODUCED %s %s %v: %s\n", r.ID, sp.Name, v.Choices, v.Msg)
		// kept as a violation: bodies are deterministic apart from the code's own randomness and timing
	}
	r.violations = append(r.violations, v)
}

func (r *Run) runReplay(sp *Space) {
	c := r.runOne(sp, r.replay.Choices, true, 0)
	fmt.Printf("replay %s %s choices=%v\n", r.ID, sp.Name, r.replay.Choices)
	for _, l := range c.labels {
		fmt.Println("  choice", l)
	}
	for _, l := range c.log {
		fmt.Println("  ", l)
	}
	r.replay.ran = true
	if c.diverge != "" {
		r.harnessError("replay divergence: " + c.diverge)
	}
	if c.fail != nil {
		fmt.Println("  FAIL", c.fail.Key, c.fail.Msg)
		if c.fail.Stack != "" {
			fmt.Println(c.fail.Stack)
		}
		c.fail.Space = sp.Name
		c.fail.Choices = c.choices
		c.fail.Labels = c.labels
		c.fail.Log = c.log
		c.fail.Repro = "isolated re-run"
		r.violations = append(r.violations, c.fail)
	} else {
		fmt.Println("  OK")
	}
}

type replaySpec struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Space    string `json:"space"`
	Choices  []int  `json:"choices"`
	ran      bool
}

func mustJSON(v interface{}) []byte {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	return append(b, '\n')
}
