package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xvm"
)

func init() { mc.Register("C36", c36) }

// traceWant is what a record of a trace must tell.
type traceWant struct {
	instr []byte // the instruction executed
	stack [][]byte
	rest  []byte
	known bool // the stack is known
}

// stackText is the stack as a record shows it, without regard to spaces.
func stackText(st [][]byte) string {
	var o []string
	for _, b := range st {
		if len(b) == 0 {
			o = append(o, "<empty>")
		} else {
			o = append(o, "<"+hex.EncodeToString(b)+">")
		}
	}
	if len(o) == 0 {
		o = append(o, "<empty>")
	}
	return strings.Join(o, " ")
}

// wantTrace runs prog on the reference interpreter prefix by prefix: one record for each instruction that is read and
// does not fail. st is the stack to begin with.
func wantTrace(prog []byte, vm func() *ref.VM) (o []traceWant, ok bool) {
	at := 0
	for at < len(prog) {
		op, _, rest, good := ref.NextOp(prog[at:])
		if !good || !ref.Supported(op) {
			return o, false
		}
		end := len(prog) - len(rest)
		v := vm()
		st, fine := v.Prefix(prog[:end])
		if !fine {
			return o, false
		}
		o = append(o, traceWant{instr: prog[at:end], stack: st, rest: rest})
		at = end
	}
	return o, true
}

func sameTrace(c *mc.Ctx, what string, got []xvm.Trace, want []traceWant) {
	c.Step(len(want) + 1)
	c.Valid(len(want) + 1)
	if len(got) != len(want) {
		c.Fail("length", "%s: %d trace records, want %d", what, len(got), len(want))
	}
	for i, w := range want {
		g := got[i]
		name := strings.Fields(xvm.DisasmString(w.instr))[0]
		if g.Executed != name {
			c.Fail("opcode", "%s: record %d shows %s, want %s", what, i+1, g.Executed, name)
		}
		if s := strings.Join(strings.Fields(g.Stack), " "); s != stackText(w.stack) {
			c.Fail("stack", "%s: record %d (%s) shows the stack %q, want %q", what, i+1, name, s, stackText(w.stack))
		}
		if r := xvm.DisasmString(w.rest); g.Remaining != r {
			c.Fail("remaining", "%s: record %d (%s) shows %q remaining, want %q", what, i+1, name, g.Remaining, r)
		}
		if g.Step != uint64(i+1) {
			c.Fail("step", "%s: record %d has number %d", what, i+1, g.Step)
		}
	}
}

// inOrder tells whether the parts are in s one after the other.
func inOrder(s string, parts []string) bool {
	for _, p := range parts {
		i := strings.Index(s, p)
		if i < 0 {
			return false
		}
		s = s[i+len(p):]
	}
	return true
}

// stdoutOf is what f prints.
func stdoutOf(f func()) string {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = w
	done := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		r.Close()
		done <- string(b)
	}()
	func() {
		defer func() {
			os.Stdout = old
			w.Close()
		}()
		f()
	}()
	return <-done
}

func c36(r *mc.Run) {
	r.Assume("signature validity is an abstract relation here")
	engine := func(strict bool) *xvm.Engine {
		e := stubEngine()
		if strict {
			e.EnableStrict()
		}
		return e
	}
	vm := func() *ref.VM { return newVM() }
	one := func(c *mc.Ctx, prog []byte) {
		want, _ := wantTrace(prog, vm)
		d, e := engine(true), engine(true)
		d.EnableDebug()
		what := fmt.Sprintf("program %x", prog)
		derr, eerr := d.Execute(clone(prog)), e.Execute(clone(prog))
		if (derr == nil) != (eerr == nil) || errStr(derr) != errStr(eerr) {
			c.Fail("verdict", "%s: %v with debugging, %v without", what, derr, eerr)
		}
		sameTrace(c, what, d.Traces(), want)
		if len(e.Traces()) != 0 {
			c.Fail("untraced", "%s: an engine that does not debug has %d trace records", what, len(e.Traces()))
		}
		// debugging turned off again
		f := engine(true)
		f.EnableDebug()
		f.DisableDebug()
		if ferr := f.Execute(clone(prog)); errStr(ferr) != errStr(eerr) || len(f.Traces()) != 0 {
			c.Fail("disabled", "%s: with debugging turned off: %v and %d trace records", what, ferr, len(f.Traces()))
		}
	}
	r.Explore("programs", mc.Opts{}, func(c *mc.Ctx) {
		var prog []byte
		for i, n := 0, c.Pick("length", r.Q(4, 5)); i < n; i++ {
			prog = append(prog, vmAlphabet[c.Pick("op", len(vmAlphabet))]...)
		}
		one(c, prog)
		c.StateS(string(prog))
	})
	r.Explore("programs-with-operands", mc.Opts{}, func(c *mc.Ctx) {
		prog := clone(prefixes[c.Pick("operands", len(prefixes))])
		for i := 0; i < 2; i++ {
			prog = append(prog, vmAlphabet[c.Pick("op", len(vmAlphabet))]...)
		}
		one(c, prog)
		c.StateS(string(prog))
	})
	// every push size, and items of every length
	r.Explore("pushes", mc.Opts{}, func(c *mc.Ctx) {
		n := []int{0, 1, 2, 16, 17, 74, 75, 76, 77, 254, 255, 256, 257, 520, 521, 65535, 65536, 70000}[c.Pick("length", 18)]
		b := []byte{0, 1, 0x0f, 0x80, 0xff}[c.Pick("byte", 5)]
		form := c.Pick("form", 4)
		d := rep(b, n)
		var p []byte
		switch {
		case form == 0:
			p = pushBytes(d)
		case form == 1 && n < 256:
			p = cat([]byte{0x4c, byte(n)}, d)
		case form == 2 && n < 65536:
			p = cat([]byte{0x4d, byte(n), byte(n >> 8)}, d)
		case form == 3:
			p = cat([]byte{0x4e, byte(n), byte(n >> 8), byte(n >> 16), 0}, d)
		default:
			c.Skip()
		}
		for _, x := range [][]byte{p, cat(p, p), cat([]byte{0x51}, p, []byte{0x76}), cat(p, []byte{0x75, 0x51}), p[:len(p)-1], cat([]byte{0}, []byte{0x63}, p, []byte{0x68, 0x51})} {
			one(c, x)
		}
		c.StateU(uint64(n), uint64(b), uint64(form))
	})
	// many items and many steps
	r.Explore("deep", mc.Opts{}, func(c *mc.Ctx) {
		first := [][]byte{ins(0x51), ins(0), ins(2, 1, 2), pushBytes(rep(9, 80))}[c.Pick("item", 4)]
		n := []int{1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257}[c.Pick("number", r.Q(19, 22))]
		then := [][]byte{nil, ins(0x76), ins(0x6e), ins(0x6f), ins(0x7c), ins(0x75), ins(0x87), ins(0xff), cat(ins(0), ins(0x63), bytes.Repeat(ins(0x52), n), ins(0x67), ins(0x76), ins(0x68))}[c.Pick("then", 9)]
		one(c, cat(bytes.Repeat(first, n), then))
		one(c, cat(first, bytes.Repeat(ins(0x76), n), then, bytes.Repeat(ins(0x75), n)))
		c.StateU(uint64(first[0]), uint64(n), uint64(len(then)))
	})
	// the printed table: a row for every record, with its parts in order
	r.Explore("printed", mc.Opts{Serial: true}, func(c *mc.Ctx) {
		var prog []byte
		for i, n := 0, c.Pick("length", 4); i < n; i++ {
			prog = append(prog, [][]byte{ins(0x51), ins(0), ins(0x76), ins(0x93), ins(3, 1, 2, 3), pushBytes(rep(7, 300))}[c.Pick("op", 6)]...)
		}
		debug := c.Bool("debug")
		e := engine(true)
		if debug {
			e.EnableDebug()
		}
		_ = e.Execute(prog)
		out := stdoutOf(e.PrintTrace)
		rows := strings.Split(out, "\n")
		at := 0
		for i, t := range e.Traces() {
			c.Valid(1)
			for ; at < len(rows) && !inOrder(rows[at], []string{fmt.Sprint(t.Step), t.Executed, strings.TrimSpace(t.Stack), t.Remaining}); at++ {
			}
			if at >= len(rows) {
				c.Fail("printed", "program %x: the record %d %+v is not in the table that is printed:\n%s", prog, i+1, t, cut(out))
			}
			at++
		}
		if !debug && strings.TrimSpace(out) != "" {
			c.Fail("printed-nothing", "program %x: without debugging %q is printed", prog, out)
		}
		c.Step(1)
		c.StateS(fmt.Sprint(debug, string(prog)))
	})
	// an engine used before gives the verdict of a new one
	r.Explore("reused", mc.Opts{}, func(c *mc.Ctx) {
		type pair struct{ u, l []byte }
		redeem := []byte{0x51, 0x87}
		sh := cat([]byte{0xa9, 20}, ref.Hash160(redeem), []byte{0x87})
		pairs := []pair{
			{[]byte{0x51}, []byte{0x51, 0x87}}, {[]byte{0x52}, []byte{0x51, 0x87}}, {nil, []byte{0x51}}, {nil, nil}, {nil, []byte{0}},
			{[]byte{0x51, 0x63}, []byte{0x68}}, {[]byte{0x51, 0x63, 0x51}, []byte{0x51}}, {[]byte{0x51}, []byte{0x63}}, {[]byte{0x51, 0x51}, []byte{0x75}},
			{[]byte{0x51, 0x52, 0x53}, []byte{0x51}}, {[]byte{0x4c}, []byte{0x51}}, {[]byte{0x51}, []byte{0xff}}, {nil, []byte{0x87}}, {[]byte{0x51}, []byte{0x67, 0x51}},
			{cat([]byte{0x51}, pushBytes(redeem)), sh}, {cat([]byte{0x52}, pushBytes(redeem)), sh}, {pushBytes(redeem), sh}, {cat([]byte{0x51}, pushBytes(append(clone(redeem), 0x63))), sh},
			{nil, []byte{0x6a}}, {[]byte{0}, []byte{0x63, 0x51, 0x67}}, {[]byte{0x51}, []byte{0x76, 0x76, 0x76}},
		}
		mode := c.Pick("mode", 4)
		clean := c.Bool("clean stack")
		set := func(e *xvm.Engine) *xvm.Engine {
			if mode&1 != 0 {
				e.EnableDebug()
			}
			if mode&2 != 0 {
				e.EnableStrict()
			}
			if clean {
				e.EnableCleanStack()
			}
			return e
		}
		e := set(stubEngine())
		var hist []string
		for d := r.Q(3, 4); d > 0; d-- {
			k := c.Pick("scripts", len(pairs)+1)
			if k == len(pairs) {
				// an execution, or one that fails half way
				hist = append(hist, "execute")
				_ = e.Execute([]byte{0x51, 0x63, 0x52, 0x53})
				continue
			}
			p := pairs[k]
			hist = append(hist, fmt.Sprintf("verify %x %x", p.u, p.l))
			err := e.Verify(clone(p.u), clone(p.l))
			fresh := set(stubEngine())
			want := fresh.Verify(clone(p.u), clone(p.l))
			// the records of this verification are the last ones
			if got, n := e.Traces(), len(fresh.Traces()); len(got) < n || fmt.Sprint(got[len(got)-n:]) != fmt.Sprint(fresh.Traces()) {
				c.Fail("reused-trace", "%s: the trace ends with %v, on a new engine it is %v", strings.Join(hist, ", "), got, fresh.Traces())
			}
			c.Step(1)
			c.Valid(1)
			if (err == nil) != (want == nil) {
				c.Fail("reused", "%s: %v, on a new engine %v", strings.Join(hist, ", "), err, want)
			}
		}
		c.StateS(fmt.Sprint(mode, clean, hist))
	})
	// the trace a verification leaves: the steps of the last runs, with the verdict unchanged
	r.Explore("verify", mc.Opts{}, func(c *mc.Ctx) {
		var u, l []byte
		for i := 0; i < 2; i++ {
			u = append(u, vmAlphabet[c.Pick("unlocking op", len(vmAlphabet))]...)
		}
		l = append(l, vmAlphabet[c.Pick("locking op", len(vmAlphabet))]...)
		d, e := engine(true), engine(true)
		d.EnableDebug()
		derr, eerr := d.Verify(clone(u), clone(l)), e.Verify(clone(u), clone(l))
		what := fmt.Sprintf("unlocking %x, locking %x", u, l)
		if errStr(derr) != errStr(eerr) {
			c.Fail("verify-verdict", "%s: %v with debugging, %v without", what, derr, eerr)
		}
		// the unlocking script alone must run before anything is recorded
		v := newVM()
		if !v.Run(u) {
			sameTrace(c, what, d.Traces(), nil)
			c.Outcome("unlocking fails")
			return
		}
		want, _ := wantTrace(cat(u, l), vm)
		sameTrace(c, what, d.Traces(), want)
		c.Outcome("runs")
		c.StateS(string(cat(u, []byte{0xfe}, l)))
	})
}
