package props

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"verif/mc"
	"verif/ops30"
)

func init() { mc.Register("C30", c30) }

// baton hands over from one goroutine to another without an edge that the race detector knows: it is passed through a
// pipe with raw system calls. Two conflicting accesses of the two goroutines are then reported in either order, although
// only one runs at a time.
type baton struct{ r, w int }

func newBaton() *baton {
	var p [2]int
	if err := syscall.Pipe2(p[:], syscall.O_CLOEXEC); err != nil {
		panic("pipe: " + err.Error())
	}
	return &baton{p[0], p[1]}
}

func (b *baton) pass() {
	var x [1]byte
	syscall.Syscall(syscall.SYS_WRITE, uintptr(b.w), uintptr(unsafe.Pointer(&x[0])), 1)
}

func (b *baton) wait() {
	var x [1]byte
	for {
		n, _, e := syscall.Syscall(syscall.SYS_READ, uintptr(b.r), uintptr(unsafe.Pointer(&x[0])), 1)
		if n == 1 {
			return
		}
		if e != syscall.EINTR {
			panic("baton: " + e.Error())
		}
	}
}

func (b *baton) close() {
	syscall.Close(b.r)
	syscall.Close(b.w)
}

// alone30 is what an operation gives by itself on a world of its own.
type alone30 struct {
	once sync.Once
	text string
}

var alone = make([]alone30, len(ops30.Ops))

func expect30(i int) string {
	a := &alone[i]
	a.once.Do(func() {
		op := &ops30.Ops[i]
		a.text = ops30.Render(op.Run(ops30.New(op.Need)))
	})
	return a.text
}

func same30(c *mc.Ctx, what string, before, after [][2]string) {
	for i := range before {
		if before[i] != after[i] {
			c.Fail("modified", "%s changed what it was only given to read: %s\n before %s\n after  %s", what, before[i][0], around(before[i][1], after[i][1]), around(after[i][1], before[i][1]))
		}
	}
}

// around shows a near where it first differs from b.
func around(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo, hi := i-16, i+64
	if lo < 0 {
		lo = 0
	}
	if hi > len(a) {
		hi = len(a)
	}
	return fmt.Sprintf("…%s… (at %d)", a[lo:hi], i)
}

type run30 struct {
	out   []interface{}
	panic string
}

func (r *run30) run(op *ops30.Op, w *ops30.World) {
	defer func() {
		if p := recover(); p != nil {
			r.panic = fmt.Sprint(p)
		}
	}()
	r.out = op.Run(w)
}

func (r *run30) check(c *mc.Ctx, what string, i int) {
	c.Step(1)
	c.Valid(1)
	if r.panic != "" {
		c.Fail("panic", "%s: %s panicked: %s", what, ops30.Ops[i].Name, r.panic)
	}
	if got, want := ops30.Render(r.out), expect30(i); got != want {
		c.Fail("result", "%s: %s gives %s instead of %s, which it gives alone", what, ops30.Ops[i].Name, around(got, want), around(want, got))
	}
}

func c30(r *mc.Run) {
	ops := ops30.Ops
	n := len(ops)
	r.Assume("the operations are those of harness/ops30 (62 over every package); the objects they share and the caller's slices are that package's World")
	r.Assume("the race detector reports every pair of conflicting accesses that the library itself does not order, in each of the two orders; a pair without such accesses has the results of one of the two orders in every interleaving")

	r.Explore("every operation twice on one world, with nothing changed", mc.Opts{}, func(c *mc.Ctx) {
		i := c.Pick("operation", n)
		op := &ops[i]
		c.Logf("%s", op.Name)
		w := ops30.New(op.Need)
		before := w.Snapshot()
		var a, b run30
		a.run(op, w)
		a.check(c, "first", i)
		same30(c, op.Name, before, w.Snapshot())
		b.run(op, w)
		b.check(c, "second", i)
		a.check(c, "first, looked at after the second", i)
		same30(c, op.Name, before, w.Snapshot())
		c.StateS(op.Name)
		c.Outcome("same")
	})

	orders := []string{"first, then second", "second, then first", "at the same time"}
	r.Explore("every pair of operations in two goroutines on one world", mc.Opts{}, func(c *mc.Ctx) {
		i := c.Pick("first", n)
		j := i + c.Pick("second", n-i)
		ord := c.Pick("order", 3)
		if i == j && ord == 1 {
			c.Skip()
		}
		A, B := &ops[i], &ops[j]
		c.Logf("%s | %s: %s", A.Name, B.Name, orders[ord])
		expect30(i)
		expect30(j)
		w := ops30.New(A.Need | B.Need)
		before := w.Snapshot()
		var a, b run30
		var wg sync.WaitGroup
		wg.Add(2)
		bat := newBaton()
		go func() {
			defer wg.Done()
			if ord == 1 {
				bat.wait()
			}
			a.run(A, w)
			if ord == 0 {
				bat.pass()
			}
		}()
		go func() {
			defer wg.Done()
			if ord == 0 {
				bat.wait()
			}
			b.run(B, w)
			if ord == 1 {
				bat.pass()
			}
		}()
		wg.Wait()
		bat.close()
		what := "with " + B.Name + " (" + orders[ord] + ")"
		a.check(c, what, i)
		b.check(c, "with "+A.Name+" ("+orders[ord]+")", j)
		same30(c, A.Name+" and "+B.Name, before, w.Snapshot())
		c.StateU(uint64(i), uint64(j), uint64(ord))
		c.Outcome(orders[ord])
	})

	if !r.Quick() {
		var fast []int
		for i := range ops {
			if !ops[i].Slow {
				fast = append(fast, i)
			}
		}
		r.Explore("every sequence of three quick operations on one world", mc.Opts{}, func(c *mc.Ctx) {
			w := ops30.New(ops30.HD | ops30.Pai)
			before := w.Snapshot()
			var rs [3]run30
			var ix [3]int
			for k := range rs {
				ix[k] = fast[c.Pick("operation", len(fast))]
			}
			for k := range rs {
				rs[k].run(&ops[ix[k]], w)
			}
			for k := range rs {
				rs[k].check(c, fmt.Sprintf("number %d of three", k+1), ix[k])
			}
			same30(c, fmt.Sprintf("%s, %s, %s", ops[ix[0]].Name, ops[ix[1]].Name, ops[ix[2]].Name), before, w.Snapshot())
			c.StateU(uint64(ix[0]), uint64(ix[1]), uint64(ix[2]))
		})
	}

	cold := os.Getenv("VERIF_COLD30")
	if cold == "" {
		r.Assume("cold starts were not explored: VERIF_COLD30 names no program")
		return
	}
	r.Explore("the first use of the library, by two goroutines", mc.Opts{Timed: 120}, func(c *mc.Ctx) {
		i := c.Pick("first", n)
		j := i
		if !r.Quick() {
			j = i + c.Pick("second", n-i)
		}
		shared := c.Bool("one world for both")
		c.Logf("%s | %s", ops[i].Name, ops[j].Name)
		mode := "own"
		if shared {
			mode = "shared"
		}
		out, race, err := coldRun(cold, mode, i, j)
		c.Step(2)
		if race != "" {
			c.Fail("data race", "%s and %s as the first use of the library (%s world): %s", ops[i].Name, ops[j].Name, mode, race)
		}
		if err != "" {
			c.Fail("cold start", "%s and %s as the first use of the library (%s world): %s", ops[i].Name, ops[j].Name, mode, err)
		}
		c.Valid(2)
		for k, x := range []int{i, j} {
			if want := expect30(x); out[k] != want {
				c.Fail("result", "%s as the first use of the library (%s world) gives %s instead of %s", ops[x].Name, mode, around(out[k], want), around(want, out[k]))
			}
		}
		c.StateU(uint64(i), uint64(j), uint64(len(mode)))
		c.Outcome(mode)
	})
}

// coldRun runs two operations in a new process and returns their results, the report of a race, or what else failed.
func coldRun(bin, mode string, i, j int) ([]string, string, string) {
	var last string
	for try := 0; try < 3; try++ {
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		cmd := exec.CommandContext(ctx, bin, mode, strconv.Itoa(i), strconv.Itoa(j))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		err := cmd.Run()
		cancel()
		if k := strings.Index(se.String(), "WARNING: DATA RACE"); k >= 0 {
			return nil, oneLine(se.String()[k:], 1200), ""
		}
		if err != nil {
			last = fmt.Sprintf("%v: %s", err, oneLine(se.String(), 600))
			continue
		}
		l := strings.Split(so.String(), "\n")
		if len(l) != 3 {
			last = "no results: " + oneLine(so.String(), 200)
			continue
		}
		for k := range l[:2] {
			l[k], _ = strconv.Unquote(l[k])
		}
		return l[:2], "", ""
	}
	return nil, "", last
}

func oneLine(s string, n int) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > n {
		s = s[:n]
	}
	return s
}
