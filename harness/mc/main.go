package mc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Prop is a registered check.
type Prop struct {
	ID   string
	Race bool // built with the race detector
	Fn   func(*Run)
}

var props = map[string]Prop{}

// Register adds a check.
func Register(id string, fn func(*Run)) { props[id] = Prop{ID: id, Fn: fn} }

// result is what the child hands to the parent.
type result struct {
	Spaces     []*Space
	Samples    []string
	Violations []*Violation
	Known      []string
	Assume     []string
	Extra      map[string]interface{}
	Capped     []string
}

const verifDir = "/verif"

// Main is the entry point: check ID TIER | check ID replay FILE.
func Main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: check ID quick|thorough | check ID replay FILE")
		os.Exit(3)
	}
	id := os.Args[1]
	if _, ok := props[id]; !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(3)
	}
	if os.Getenv("MC_CHILD") != "" {
		child(id)
		return
	}
	os.Exit(parent(id))
}

func seed() int64 {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return s
}

func loadKnown() []Known {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []Known `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR known_findings.json:", err)
		os.Exit(3)
	}
	return f.Findings
}

func budget(tier string) time.Duration {
	if s := os.Getenv("MC_BUDGET_S"); s != "" {
		n, _ := strconv.Atoi(s)
		return time.Duration(n) * time.Second
	}
	if tier == "thorough" {
		return 3600 * time.Second
	}
	return 480 * time.Second
}

func child(id string) {
	tier := os.Args[2]
	r := &Run{ID: id, Tier: tier, Seed: seed(), start: time.Now(), known: loadKnown(), knownHits: map[string]*knownHit{}, extra: map[string]interface{}{}}
	if f := os.Getenv("MC_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		var sp replaySpec
		if err == nil {
			err = json.Unmarshal(b, &sp)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS-ERROR replay:", err)
			os.Exit(3)
		}
		r.replay = &sp
		if sp.Tier != "" {
			r.Tier = sp.Tier
		}
	}
	if !raceEnabled {
		lim := uint64(24 << 30)
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	debug.SetGCPercent(1000) // many small garbage objects on top of a small live heap
	debug.SetMemoryLimit(6 << 30)
	r.deadline = r.start.Add(budget(tier))
	if p := os.Getenv("MC_JOURNAL"); p != "" {
		j, err := openJournal(p)
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS-ERROR journal:", err)
			os.Exit(3)
		}
		r.j = j
	}
	props[id].Fn(r)
	res := result{Spaces: r.spaces, Violations: r.violations, Assume: r.assume, Extra: r.extra, Capped: r.capped}
	for _, s := range r.spaces {
		res.Samples = append(res.Samples, s.Samples...)
	}
	var ks []string
	for k := range r.knownHits {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		h := r.knownHits[k]
		res.Known = append(res.Known, fmt.Sprintf("%s: %s (%d executions, e.g. %s)", k, h.what, h.n, h.first))
	}
	b, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(os.Getenv("MC_RESULT"), b, 0600)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR result:", err)
		os.Exit(3)
	}
	if r.replay != nil && !r.replay.ran {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR replay: no such space", r.replay.Space)
		os.Exit(3)
	}
	if len(r.violations) > 0 {
		os.Exit(1)
	}
}

type childEnd struct {
	code   int
	signal bool
	hang   bool
	stderr string
	res    *result
	live   []*journaled
}

func runChild(id, tier, tmp, replay string, isolated bool) childEnd {
	jp := filepath.Join(tmp, "journal")
	rp := filepath.Join(tmp, "result")
	os.Remove(jp)
	os.Remove(rp)
	j, err := openJournal(jp)
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR", err)
		os.Exit(3)
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, id, tier)
	cmd.Env = append(os.Environ(), "MC_CHILD=1", "MC_JOURNAL="+jp, "MC_RESULT="+rp, "MC_REPLAY="+replay, "GOTRACEBACK=all",
		"GORACE=halt_on_error=1 exitcode=66")
	var eb tailBuf
	cmd.Stderr = &eb
	if isolated {
		cmd.Stdout = os.Stderr
	} else {
		cmd.Stdout = os.Stdout
	}
	if replay != "" && !isolated {
		eb.tee = true
	}
	if os.Getenv("MC_QUIET") == "" {
		eb.tee = true
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR", err)
		os.Exit(3)
	}
	doneCh := make(chan error, 1)
	go func() { doneCh <- cmd.Wait() }()
	end := childEnd{}
	hard := time.After(budget(tier) + 400*time.Second)
	tick := time.NewTicker(2 * time.Second)
	defer tick.Stop()
	var werr error
loop:
	for {
		select {
		case werr = <-doneCh:
			break loop
		case <-hard:
			// the run as a whole is stuck outside any case: an error of the check
			cmd.Process.Kill()
			werr = <-doneCh
			fmt.Fprintln(os.Stderr, "HARNESS-ERROR the run exceeded its hard limit")
			os.Exit(3)
		case <-tick.C:
			for s := 0; s < slotCount; s++ {
				if e := j.read(s); e != nil && time.Since(e.since) > e.limit {
					end.hang = true
					end.live = append(end.live, e)
				}
			}
			if end.hang {
				cmd.Process.Signal(syscall.SIGABRT)
				select {
				case werr = <-doneCh:
				case <-time.After(5 * time.Second):
					cmd.Process.Kill()
					werr = <-doneCh
				}
				break loop
			}
		}
	}
	end.stderr = eb.String()
	if werr != nil {
		if ee, ok := werr.(*exec.ExitError); ok {
			end.code = ee.ExitCode()
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				end.signal = true
			}
		} else {
			end.code = 3
		}
	}
	if !end.hang {
		for s := 0; s < slotCount; s++ {
			if e := j.read(s); e != nil {
				end.live = append(end.live, e)
			}
		}
	}
	if b, err := os.ReadFile(rp); err == nil {
		var res result
		if json.Unmarshal(b, &res) == nil {
			end.res = &res
		}
	}
	syscall.Munmap(j.mem)
	return end
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func parent(id string) int {
	tier := os.Args[2]
	tmp, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR", err)
		return 3
	}
	defer os.RemoveAll(tmp)
	if tier == "replay" {
		if len(os.Args) < 4 {
			return 3
		}
		f, _ := filepath.Abs(os.Args[3])
		end := runChild(id, "quick", tmp, f, false)
		if end.code == 0 && !end.hang {
			fmt.Println("replay: no violation")
			return 0
		}
		if end.code == 3 {
			return 3
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
		return 1
	}
	start := time.Now()
	end := runChild(id, tier, tmp, "", false)
	res := end.res
	if res == nil {
		res = &result{}
	}
	switch {
	case end.hang || (end.code != 0 && end.code != 1 && end.code != 3) || (end.code != 0 && end.code != 3 && end.res == nil):
		// The process died or stopped making progress: find the case.
		v := isolate(id, tier, tmp, end)
		if v == nil {
			fmt.Fprintf(os.Stderr, "HARNESS-ERROR the child ended (code %d hang=%v) and no case reproduces it\n%s\n", end.code, end.hang, tail(end.stderr, 4000))
			return 3
		}
		res.Violations = append(res.Violations, v)
	case end.code == 3 || end.res == nil:
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR")
		return 3
	}
	writeEvidence(id, tier, res, time.Since(start))
	for _, k := range res.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if len(res.Violations) == 0 {
		fmt.Printf("OK property=%s tier=%s\n", id, tier)
		return 0
	}
	sort.SliceStable(res.Violations, func(a, b int) bool {
		x, y := res.Violations[a], res.Violations[b]
		if len(x.Choices) != len(y.Choices) {
			return len(x.Choices) < len(y.Choices)
		}
		return fmt.Sprint(x.Choices) < fmt.Sprint(y.Choices)
	})
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	seen := map[string]bool{}
	n := 0
	for _, v := range res.Violations {
		if seen[v.Key] || n >= 5 {
			continue
		}
		seen[v.Key] = true
		n++
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, n))
		m := map[string]interface{}{"property": id, "tier": tier, "space": v.Space, "choices": v.Choices, "labels": v.Labels,
			"key": v.Key, "message": v.Msg, "log": v.Log, "stack": v.Stack, "reproduced": v.Repro,
			"how": fmt.Sprintf("bash /verif/run.sh %s replay %s", id, p)}
		os.WriteFile(p, mustJSON(m), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		fmt.Printf("  space=%s key=%s (%s)\n  %s\n", v.Space, v.Key, v.Repro, head(v.Msg, 1500))
		for i, l := range v.Log {
			if i > 20 {
				break
			}
			fmt.Printf("    %s\n", head(l, 400))
		}
		if v.Stack != "" {
			fmt.Printf("  stack: %s\n", head(v.Stack, 1800))
		}
	}
	return 1
}

func isolate(id, tier, tmp string, end childEnd) *Violation {
	key, what := "crash", fmt.Sprintf("the process ended with code %d", end.code)
	if end.hang {
		key, what = "hang", "the case did not finish"
	}
	if end.code == 66 || strings.Contains(end.stderr, "WARNING: DATA RACE") {
		key, what = "data-race", "the race detector reported a race"
		i := strings.Index(end.stderr, "WARNING: DATA RACE")
		if i < 0 {
			i = 0
		}
		v := &Violation{Key: key, Msg: what, Stack: head(end.stderr[i:], 6000), Repro: "race detector report"}
		if len(end.live) > 0 {
			v.Space, v.Choices = end.live[0].space, end.live[0].choices
		}
		return v
	}
	for _, e := range end.live {
		rp := filepath.Join(tmp, "case.json")
		os.WriteFile(rp, mustJSON(replaySpec{Property: id, Tier: tier, Space: e.space, Choices: e.choices}), 0600)
		e2 := runChild(id, tier, tmp, rp, true)
		if e2.code == 0 && !e2.hang {
			continue
		}
		if e2.code == 1 && e2.res != nil && len(e2.res.Violations) > 0 {
			return e2.res.Violations[0]
		}
		if e2.code == 3 {
			continue
		}
		msg := what
		if i := strings.Index(e2.stderr, "fatal error"); i >= 0 {
			msg += ": " + head(e2.stderr[i:], 300)
		}
		return &Violation{Space: e.space, Choices: e.choices, Key: key, Msg: msg, Stack: head(e2.stderr, 3000), Repro: "isolated re-run"}
	}
	return nil
}

func writeEvidence(id, tier string, res *result, wall time.Duration) {
	var execs, steps, states, valid, skipped int64
	exh := len(res.Capped) == 0 && len(res.Violations) == 0
	maxDev := 0
	for _, s := range res.Spaces {
		execs += s.Executions
		steps += s.Steps
		states += s.States
		valid += s.Validated
		skipped += s.Skipped
		exh = exh && s.Exhaustive
		if s.DevDone > maxDev {
			maxDev = s.DevDone
		}
	}
	samples := res.Samples
	if samples == nil {
		samples = []string{}
	}
	if len(samples) > 60 {
		samples = samples[:60]
	}
	cov := map[string]interface{}{
		"states": states, "transitions": steps, "traces_validated_against_impl": valid, "executions": execs,
		"not_a_case": skipped, "samples": samples, "spaces": res.Spaces, "exhaustive": exh, "caps": res.Capped,
		"deviation_bound_completed": maxDev,
		"explanation": "states = distinct inputs/states recorded by the bodies; transitions = calls into the code under test; " +
			"traces_validated_against_impl = results of the real code compared with the reference model. exhaustive refers to the bounded spaces listed.",
		"known_findings_seen": res.Known,
	}
	for k, v := range res.Extra {
		cov[k] = v
	}
	as := append([]string{"inputs outside the stated alphabets and bounds are not covered", "the reference models in /verif/harness/ref are correct"}, res.Assume...)
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed(), "level": "model_checking", "coverage": cov,
		"assumptions": as, "wall_s": wall.Seconds(), "violations": len(res.Violations)}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), mustJSON(ev), 0644); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR evidence:", err)
		os.Exit(3)
	}
}

type tailBuf struct {
	b   bytes.Buffer
	tee bool
}

func (t *tailBuf) Write(p []byte) (int, error) {
	if t.tee {
		os.Stderr.Write(p)
	}
	if t.b.Len() > 4<<20 {
		t.b.Truncate(2 << 20)
	}
	return t.b.Write(p)
}

func (t *tailBuf) String() string { return t.b.String() }
