package props

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xvm"
)

// prefixes push operands of every sort.
var prefixes = [][]byte{
	cat(ins(0), ins(2, 7, 1), ins(0x51), ins(1, 7), ins(0x51)),                                     // ready for CHECKMULTISIG 1-of-1
	cat(ins(0), ins(2, 7, 1), ins(2, 8, 3), ins(0x52), ins(1, 7), ins(1, 8), ins(1, 9), ins(0x53)), // 2-of-3
	cat(ins(2, 9, 1), ins(1, 9)),
	cat(ins(0), ins(2, 8, 1), ins(1, 7)),
	cat(ins(0x51), ins(0x52), ins(0x53), ins(0x54)),
	cat(ins(3, 1, 2, 3), ins(0), ins(1, 0x80), ins(3, 1, 2, 3)),
}

func init() { mc.Register("C10", c10) }

// The signature oracle of the script checks: the signature <t><hashtype> is valid for the key <k>... exactly when
// t == k, and the hash handed to the verifier must be the one of the signature's type byte.
func stubSig(sig, pub []byte) bool { return len(sig) == 2 && len(pub) > 0 && sig[0] == pub[0] }

func stubEngine() *xvm.Engine {
	e := xvm.NewEngine()
	e.SetSigHashFn(func(ht byte) ([]byte, error) { return []byte{0x5a, ht}, nil })
	e.SetSigVerifyFn(func(hash, sig, pub []byte) error {
		if len(hash) == 2 && hash[0] == 0x5a && stubSig(append(clone(sig), hash[1]), pub) {
			return nil
		}
		return errors.New("no")
	})
	return e
}

func newVM() *ref.VM { return &ref.VM{Sig: stubSig} }

// relaxed is the model with the recorded findings of the raw engine.
func relaxed() *ref.VM { return &ref.VM{Sig: stubSig, ReturnNoop: true, EmptyOK: true} }

// probe is a script that succeeds on a stack exactly if it holds the items, and leaves one true item.
func probe(st [][]byte) []byte {
	var p []byte
	for i := len(st) - 1; i >= 0; i-- {
		// always a pushed form, so that what the stack holds is compared and not how numbers are pushed
		if len(st[i]) == 0 {
			p = append(p, 0)
		} else {
			p = append(p, pushBytes(st[i])...)
		}
		p = append(p, 0x88)
	}
	return append(p, 0x51)
}

// checkProgram compares execution of one program with the reference interpreter.
func checkProgram(c *mc.Ctx, prog []byte) {
	c.Step(1)
	c.Valid(1)
	m := newVM()
	ran := m.Run(prog)
	want := ran && len(m.St) > 0 && ref.Truth(m.St[len(m.St)-1])
	st := m.St
	// strict: exactly the consensus rules
	e := stubEngine()
	e.EnableStrict()
	if got := e.Execute(clone(prog)) == nil; got != want {
		c.Fail("verdict", "program %x: execution success = %v, want %v", prog, got, want)
	}
	// the raw engine
	e = stubEngine()
	if got := e.Execute(clone(prog)) == nil; got != want {
		x := relaxed()
		key := ""
		if xr := x.Run(prog); got && xr && len(x.St) == 0 {
			key = "raw-engine-empty-stack"
		} else if got && xr && ref.Truth(x.St[len(x.St)-1]) && x.SawReturn {
			key = "raw-engine-op-return"
		}
		if key == "" {
			c.Fail("raw-verdict", "program %x: execution (not strict) success = %v, want %v", prog, got, want)
		}
		c.Known(key, "program %x succeeds on an engine that is not strict", prog)
	}
	if ran {
		c.Outcome("runs")
		c.StateS(fmt.Sprintf("%x", st))
		// the final stack is exactly the model's
		if len(st) < 40 {
			e = stubEngine()
			e.EnableStrict()
			e.EnableCleanStack()
			if err := e.Verify(clone(prog), probe(st)); err != nil {
				c.Fail("stack", "program %x: the final stack is not %x (%v)", prog, st, err)
			}
		}
	} else {
		c.Outcome("fails")
	}
}

func ins(bs ...byte) []byte { return bs }

var vmAlphabet = [][]byte{
	ins(0), ins(0x51), ins(0x52), ins(0x60), ins(0x4f),
	ins(1, 0), ins(1, 0x80), ins(2, 1, 0), ins(4, 0xff, 0xff, 0xff, 0x7f), ins(5, 0, 0, 0, 0x80, 0),
	ins(0x4c, 1, 1), ins(0x4d, 2, 0, 0x21, 1), ins(0x4e, 1, 0, 0, 0, 0x21), ins(0x4c, 0),
	ins(0x63), ins(0x64), ins(0x67), ins(0x68), ins(0x6a),
	ins(0x6e), ins(0x6f), ins(0x75), ins(0x76), ins(0x7c), ins(0x82), ins(0x87), ins(0x88), ins(0x93), ins(0xa9),
	ins(0xac), ins(0xad), ins(0xae), ins(0xaf),
	ins(0x61), ins(0xff),
}

// numbers at the boundaries of the script number encoding, minimal and not.
func numAlphabet() [][]byte {
	var o [][]byte
	for _, n := range []int64{0, 1, -1, 2, 16, 17, 127, -127, 128, -128, 255, -255, 256, -256, 32767, -32767, 32768, -32768, 65535, 65536, 8388607, -8388607, 8388608, -8388608, 1<<31 - 1, -(1<<31 - 1), 1 << 31, -(1 << 31), 1<<32 - 1} {
		o = append(o, ref.NumBytes(n))
	}
	return append(o, []byte{0}, []byte{0x80}, []byte{1, 0}, []byte{0, 0x80}, []byte{0xff, 0}, []byte{0, 0, 0, 0}, []byte{0, 0, 0, 0x80}, []byte{1, 0, 0, 0x80}, rep(0xff, 5), rep(1, 8), rep(1, 9), rep(0, 20),
		[]byte{0x80, 0}, []byte{0, 0, 0, 0, 0x80}, append(rep(0, 7), 0x80), append(rep(0, 19), 0x80), []byte{0, 0, 0, 0, 0x80, 0})
}

func c10(r *mc.Run) {
	r.Assume("signature validity is an abstract relation here (the real one is C09's and C19's)")
	r.Assume("the reference rules are the library's chosen ones: minimal script numbers and minimal IF arguments are required, and the limits on script size, operation count and stack size are not applied")
	// every program of up to L instructions over an alphabet with every supported opcode
	r.Explore("programs", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("length", r.Q(4, 5)+1)
		inner := 0
		if n >= 3 {
			inner = n - 2
			if inner > 3 {
				inner = 3
			}
		}
		var prog []byte
		for i := 0; i < n-inner; i++ {
			prog = append(prog, vmAlphabet[c.Pick("op", len(vmAlphabet))]...)
		}
		var rec func(p []byte, k int)
		rec = func(p []byte, k int) {
			if k == 0 {
				checkProgram(c, p)
				return
			}
			for _, a := range vmAlphabet {
				rec(append(p[:len(p):len(p)], a...), k-1)
			}
		}
		rec(prog, inner)
	})
	// from a full stack: the same after a prefix that pushes operands of every sort
	r.Explore("programs-with-operands", mc.Opts{}, func(c *mc.Ctx) {
		p := prefixes[c.Pick("prefix", len(prefixes))]
		n := c.Pick("length", r.Q(3, 4)+1)
		inner := 0
		if n > 2 {
			inner = n - 2
		}
		prog := clone(p)
		for i := 0; i < n-inner; i++ {
			prog = append(prog, vmAlphabet[c.Pick("op", len(vmAlphabet))]...)
		}
		var rec func(p []byte, k int)
		rec = func(p []byte, k int) {
			if k == 0 {
				checkProgram(c, p)
				return
			}
			for _, a := range vmAlphabet {
				rec(append(p[:len(p):len(p)], a...), k-1)
			}
		}
		rec(prog, inner)
	})
	// conditionals, deeper
	conds := [][]byte{ins(0), ins(0x51), ins(0x63), ins(0x64), ins(0x67), ins(0x68), ins(0x52)}
	r.Explore("conditionals", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("length", r.Q(8, 9)+1)
		inner := 0
		if n > 4 {
			inner = n - 4
		}
		var prog []byte
		depth := 0
		ok := true
		push := func(j int) {
			switch j {
			case 2, 3:
				depth++
			case 5:
				depth--
				ok = ok && depth >= 0
			case 4:
				ok = ok && depth > 0
			}
			prog = append(prog, conds[j]...)
		}
		for i := 0; i < n-inner; i++ {
			push(c.Pick("op", len(conds)))
		}
		// unbalanced prefixes fail whatever follows: only shallow continuations are explored
		lim := inner
		if !ok && lim > 2 {
			lim = 2
		}
		var rec func(p []byte, k int)
		rec = func(p []byte, k int) {
			if k == 0 {
				checkProgram(c, p)
				return
			}
			for _, a := range conds {
				rec(append(p[:len(p):len(p)], a...), k-1)
			}
		}
		rec(prog, lim)
	})
	// every tree of conditionals with up to four (five) IFs, conditions and ELSEs in all ways, a distinct push in every gap
	// and a conditional opcode's operand only where the program runs: the final stack shows exactly what was executed
	r.Explore("conditional-trees", mc.Opts{}, func(c *mc.Ctx) {
		maxIf, maxElse := r.Q(4, 5), r.Q(3, 4)
		var prog []byte
		ifs, elses, depth, k := 0, 0, 0, byte(0x20)
		gap := func() {
			k++
			prog = append(prog, 1, k)
		}
		gap()
		for {
			opts := []int{}
			if depth == 0 && ifs > 0 {
				opts = append(opts, 0)
			}
			if ifs < maxIf && (depth > 0 || ifs == 0) {
				opts = append(opts, 1, 2, 3, 4)
			}
			if depth > 0 {
				opts = append(opts, 5)
				if elses < maxElse {
					opts = append(opts, 6)
				}
			}
			switch o := opts[c.Pick("next", len(opts))]; o {
			case 0:
				checkProgram(c, prog)
				return
			case 5:
				prog = append(prog, 0x68)
				depth--
			case 6:
				prog = append(prog, 0x67)
				elses++
			default:
				prog = append(prog, []byte{0, 0x51, 0, 0x51}[o-1], []byte{0x63, 0x63, 0x64, 0x64}[o-1])
				depth++
				ifs++
			}
			gap()
		}
	})
	// every byte string of up to two (three) bytes
	r.Explore("bytes", mc.Opts{}, func(c *mc.Ctx) {
		a := byte(c.Pick("first byte", 256))
		checkProgram(c, []byte{a})
		for b := 0; b < 256; b++ {
			checkProgram(c, []byte{a, byte(b)})
			if !r.Quick() {
				for d := 0; d < 256; d++ {
					checkProgram(c, []byte{a, byte(b), byte(d)})
				}
			}
		}
		// the opcode on a stack with operands, alone and in a branch that is not taken
		for _, p := range prefixes {
			checkProgram(c, cat(p, []byte{a}))
			checkProgram(c, cat(p, []byte{a}, ins(0x51)))
			checkProgram(c, cat(p, ins(0, 0x63), []byte{a}, ins(0x68)))
			checkProgram(c, cat(p, ins(0x51, 0x63), []byte{a}, ins(0x67), []byte{a}, ins(0x68)))
		}
	})
	// pushes of every form at the length boundaries, whole and cut off at every position near the end
	r.Explore("pushes", mc.Opts{}, func(c *mc.Ctx) {
		n := []int{0, 1, 2, 74, 75, 76, 77, 127, 128, 254, 255, 256, 257, 519, 520, 521, 65535, 65536, 70000}[c.Pick("length", 19)]
		form := c.Pick("form", 4)
		var h []byte
		switch form {
		case 0:
			if n == 0 || n > 75 {
				c.Skip()
			}
			h = []byte{byte(n)}
		case 1:
			if n > 255 {
				c.Skip()
			}
			h = []byte{0x4c, byte(n)}
		case 2:
			if n > 65535 {
				c.Skip()
			}
			h = []byte{0x4d, byte(n), byte(n >> 8)}
		case 3:
			h = []byte{0x4e, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
		}
		body := seq(3, n)
		full := cat(h, body)
		checkProgram(c, full)
		checkProgram(c, cat(full, []byte{0x82}))
		checkProgram(c, cat(full, full, []byte{0x87}))
		if n > 0 {
			other := clone(full)
			other[len(other)-1] ^= 1
			checkProgram(c, cat(full, other, []byte{0x87}))
			for _, k := range []int{0, 1, n / 2, n - 1} { // one is the beginning or the end of the other
				for _, sub := range [][]byte{body[:k], body[n-k:]} {
					checkProgram(c, cat(full, pushBytes(sub), []byte{0x87}))
					checkProgram(c, cat(pushBytes(sub), full, []byte{0x87}))
					checkProgram(c, cat([]byte{0x51}, pushBytes(sub), full, []byte{0x88}))
				}
			}
			first := clone(full)
			first[len(h)] ^= 0x80
			checkProgram(c, cat(full, first, []byte{0x87}))
			checkProgram(c, cat(full, full[len(h)-len(h):], []byte{0xa9, 0x7c, 0xa9, 0x87}))
		}
		for cut := 1; cut <= len(full) && cut < 12; cut++ {
			checkProgram(c, full[:len(full)-cut])
			checkProgram(c, cat([]byte{0x51}, full[:len(full)-cut]))
		}
	})
	r.Explore("huge-push-counts", mc.Opts{}, func(c *mc.Ctx) {
		h := [][]byte{{0x4e, 0xff, 0xff, 0xff, 0xff}, {0x4e, 0, 0, 0, 0x80}, {0x4e, 0xff, 0xff, 0xff, 0x7f}, {0x4d, 0xff, 0xff}, {0x4c, 0xff}, {0x4e, 0xfe, 0xff, 0xff, 0xff}}[c.Pick("header", 6)]
		for k := 0; k < 10; k++ {
			checkProgram(c, cat(h, rep(0x51, k)))
			checkProgram(c, cat([]byte{0x51}, h, rep(0x51, k)))
			checkProgram(c, cat([]byte{0x51, 0, 0x63}, h, rep(0x68, k)))
		}
	})
	// arithmetic, equality, truth and size over every pair of boundary strings
	nums := numAlphabet()
	r.Explore("operands", mc.Opts{}, func(c *mc.Ctx) {
		a := nums[c.Pick("a", len(nums))]
		p := func(b []byte) []byte {
			if len(b) == 0 {
				return []byte{0}
			}
			return pushBytes(b)
		}
		for _, tail := range [][]byte{{}, {0x82}, {0x63, 0x52, 0x67, 0x53, 0x68}, {0x64, 0x52, 0x67, 0x53, 0x68}, {0x76, 0x87}, {0xa9}, {0x51, 0x7c, 0xae}} {
			checkProgram(c, cat(p(a), tail))
		}
		for _, b := range nums {
			for _, op := range []byte{0x93, 0x87, 0x88, 0x7c, 0x6e, 0x6f, 0xac, 0xad, 0xae, 0xaf} {
				checkProgram(c, cat(p(a), p(b), []byte{op}))
			}
			for _, d := range [][]byte{{1}, {0x81}, {0xff, 0xff, 0xff, 0x7f}} {
				checkProgram(c, cat(p(a), p(b), []byte{0x93}, p(d), []byte{0x93}))
			}
		}
	})
	// unlocking and locking scripts together: separate evaluation, BIP16
	r.Explore("verify", mc.Opts{}, func(c *mc.Ctx) {
		redeems := [][]byte{{}, {0x51}, {0}, {0x87}, {0x75}, {0x6a}, {0x63, 0x51, 0x68}, {0x63}, {1, 9, 0xac}, {0x75, 0x75}, {0x61}, {0x51, 0x14}, cat([]byte{0, 20}, rep(3, 20)), {0x68}, {0x52, 0x88, 0x51}}
		var lockings [][]byte
		for _, rd := range redeems {
			lockings = append(lockings, cat([]byte{0xa9, 20}, ref.Hash160(rd), []byte{0x87}))
		}
		lockings = append(lockings, redeems...)
		lockings = append(lockings,
			cat([]byte{0xa9, 0x4c, 20}, ref.Hash160([]byte{0}), []byte{0x87}), // not the BIP16 pattern
			cat([]byte{0xa9, 20}, ref.Hash160([]byte{0}), []byte{0x88, 0x51}),
			[]byte{0x82, 0x51, 0x87}, []byte{0x67, 0x68}, []byte{0x51, 0x87})
		lock := lockings[c.Pick("locking", len(lockings))]
		push := func(b []byte) []byte {
			if len(b) == 0 {
				return []byte{0}
			}
			return pushBytes(b)
		}
		var parts [][]byte
		for _, rd := range redeems {
			parts = append(parts, push(rd))
		}
		parts = append(parts, []byte{0x51}, []byte{0x52}, []byte{2, 9, 1}, []byte{0x63}, []byte{0x68}, []byte{0x67}, []byte{0x6a}, []byte{0x76}, []byte{0x75}, []byte{0x82}, []byte{0x4c, 1}, []byte{0xff}, []byte{0x4f}, []byte{0x60}, []byte{0x61})
		n := c.Pick("length", 4)
		var un []byte
		pre := n
		if n == 3 {
			pre = 2
		}
		for i := 0; i < pre; i++ {
			un = append(un, parts[c.Pick("part", len(parts))]...)
		}
		one := func(un []byte) {
			for mode := 0; mode < 3; mode++ {
				c.Step(1)
				c.Valid(1)
				m := newVM()
				m.Clean = mode == 1
				want := m.Verify(un, lock)
				e := stubEngine()
				if mode < 2 {
					e.EnableStrict()
				}
				if mode == 1 {
					e.EnableCleanStack()
				}
				// spare capacity and a second run on the same engine must not matter
				buf := append(make([]byte, 0, len(un)+64), un...)
				canary := clone(buf[:cap(buf)])
				got := e.Verify(buf, clone(lock)) == nil
				if again := e.Verify(buf, clone(lock)) == nil; again != got {
					c.Fail("reuse", "Verify(%x, %x) = %v, then %v on the same engine", un, lock, got, again)
				}
				if !bytes.Equal(buf[:cap(buf)], canary) {
					c.Fail("clobber", "Verify(%x, %x) wrote to the unlocking script's array", un, lock)
				}
				if got != want {
					if mode == 2 {
						x := relaxed()
						if xv := x.Verify(un, lock); got && xv && x.SawEmpty {
							c.Known("raw-engine-empty-stack", "Verify(%x, %x) succeeds on an engine that is not strict", un, lock)
							continue
						} else if got && xv && x.SawReturn {
							c.Known("raw-engine-op-return", "Verify(%x, %x) succeeds on an engine that is not strict", un, lock)
							continue
						}
					}
					c.Fail("verify", "Verify(%x, %x) success = %v, want %v (mode %d)", un, lock, got, want, mode)
				}
				c.Outcome(fmt.Sprint(want))
			}
			c.State(append(clone(un), lock...))
		}
		if n == 3 {
			for _, p := range parts {
				one(cat(un, p))
			}
		} else {
			one(un)
		}
	})
	// signature opcodes without callbacks: an error
	r.Explore("no-callbacks", mc.Opts{}, func(c *mc.Ctx) {
		op := []byte{0xac, 0xad, 0xae, 0xaf}[c.Pick("op", 4)]
		which := c.Pick("missing", 3)
		for _, p := range append(prefixes, nil) {
			e := xvm.NewEngine()
			if which == 1 {
				e.SetSigHashFn(func(byte) ([]byte, error) { return []byte{1}, nil })
			}
			if which == 2 {
				e.SetSigVerifyFn(func(_, _, _ []byte) error { return nil })
			}
			c.Step(1)
			if e.Execute(cat(p, []byte{op})) == nil {
				c.Fail("no-callbacks", "opcode %#x without signature callbacks succeeds", op)
			}
		}
	})
	// debugging changes nothing, and the trace shows the stack
	r.Explore("debug", mc.Opts{}, func(c *mc.Ctx) {
		var prog []byte
		for i := 0; i < 3; i++ {
			prog = append(prog, vmAlphabet[c.Pick("op", len(vmAlphabet))]...)
		}
		e, d := stubEngine(), stubEngine()
		e.EnableStrict()
		d.EnableStrict()
		d.EnableDebug()
		c.Step(1)
		c.Valid(1)
		if (e.Execute(prog) == nil) != (d.Execute(prog) == nil) {
			c.Fail("debug", "program %x: debugging changes the result", prog)
		}
	})
	r.Explore("stack", mc.Opts{}, func(c *mc.Ctx) { stackHistory(c, r.Q(5, 6)) })
	// the same operations on deep stacks
	deep := []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 258, 300, 301, 511, 512, 513, 599, 600, 601, 999, 1000, 1001, 1025}
	r.Explore("deep-stack", mc.Opts{}, func(c *mc.Ctx) {
		n := deep[c.Pick("items", len(deep))]
		op := c.Pick("op", 4)
		k := deep[c.Pick("n", len(deep))]
		s := xvm.NewStack()
		var m [][]byte
		for i := 0; i < n; i++ {
			b := []byte{byte(i), byte(i >> 8), 1}
			s.PushByteArray(clone(b))
			m = append(m, b)
		}
		same := func(what string) {
			c.Check(s.Depth() == len(m), "deep-stack", "%s on %d items: %d left, want %d", what, n, s.Depth(), len(m))
			for i := range m {
				b, err := s.PeekByteArray(i)
				c.Check(err == nil && bytes.Equal(b, m[len(m)-1-i]), "deep-stack", "%s on %d items: item %d from the top is %x (%v), want %x", what, n, i, b, err, m[len(m)-1-i])
			}
			_, err := s.PeekByteArray(len(m))
			c.Check(err != nil, "deep-stack", "%s on %d items: an item below the bottom", what, n)
		}
		c.Step(1)
		c.Valid(1)
		what := fmt.Sprintf([]string{"DupN(%d)", "DropN(%d)", "SwapN(%d)", "PeekByteArray(%d)"}[op], k)
		want, err := true, error(nil)
		cp := s.Copy()
		switch op {
		case 0:
			err = s.DupN(k)
			if want = k > 0 && k <= n; want {
				m = append(m, m[n-k:n]...)
			}
		case 1:
			err = s.DropN(int32(k))
			if want = k > 0 && k <= n; want {
				m = m[:n-k]
			}
		case 2:
			err = s.SwapN(int32(k))
			if want = k > 0 && 2*k <= n; want {
				m = cat2(m[:n-2*k], m[n-k:], m[n-2*k:n-k])
			}
		default:
			_, err = s.PeekByteArray(k)
			want = k < n
		}
		c.Check((err == nil) == want, "deep-stack", "%s on %d items: %v", what, n, err)
		if err == nil {
			same(what)
		}
		c.Check(cp.Depth() == n, "deep-stack", "%s on %d items changed the depth of a copy to %d", what, n, cp.Depth())
		for i := 0; i < n; i++ {
			b, _ := cp.PeekByteArray(i)
			c.Check(bytes.Equal(b, []byte{byte(n - 1 - i), byte((n - 1 - i) >> 8), 1}), "deep-stack", "%s on %d items changed item %d of a copy to %x", what, n, i, b)
		}
		c.StateU(uint64(n)<<32 | uint64(op)<<16 | uint64(k))
	})
	// programs that make deep stacks
	r.Explore("deep-programs", mc.Opts{}, func(c *mc.Ctx) {
		n := deep[c.Pick("pushes", len(deep))]
		var p []byte
		for i := 0; i < n; i++ {
			p = append(p, 2, byte(i), byte(i>>8)|1)
		}
		mid := [][]byte{{}, {0x6e}, {0x6f}, {0x6e, 0x6f, 0x6e}, {0x7c}, {0x75}, {0x76, 0x87}, {0x82}, {0x51, 0x7c}, {0x51, 0x63, 0x6f, 0x68}}[c.Pick("middle", 10)]
		p = append(p, mid...)
		d := n
		for _, o := range mid {
			d += map[byte]int{0x6e: 2, 0x6f: 3, 0x75: -1, 0x76: 1, 0x87: -1, 0x82: 1, 0x51: 1, 0x63: -1}[o]
		}
		for _, end := range [][]byte{{0x51}, {0}, {0x88}, {0x51, 0x51, 0x88}, {0x51, 0x52, 0x88}, {0x51, 0x52, 0x88, 0x51}, {0x6a}, {0x51, 0x63, 0x51}, {0x68}, {0x51, 0xad}, {0x51, 0x51, 0xae}, {0x51, 0x51, 0xaf}} {
			checkProgram(c, cat(p, end))
		}
		for _, left := range []int{0, 1, 2, 3} {
			for _, end := range [][]byte{{}, {0x51}, {0x87}, {0x88}, {0x7c, 0x88}} {
				if d-left >= 0 {
					checkProgram(c, cat(p, rep(0x75, d-left), end))
				}
			}
		}
	})
}

func cat2(a ...[][]byte) (o [][]byte) {
	for _, x := range a {
		o = append(o, x...)
	}
	return
}

// stackHistory compares the exported stack with a list under every sequence of operations.
func stackHistory(c *mc.Ctx, depth int) {
	s := xvm.NewStack()
	var m [][]byte
	var hist []string
	for d := 0; d < depth; d++ {
		op := c.Pick("op", 15)
		c.Step(1)
		c.Valid(1)
		err, want := error(nil), true
		n := len(m)
		switch op {
		case 0, 1:
			b := []byte{byte(d), byte(op)}
			s.PushByteArray(b)
			m = append(m, b)
			hist = append(hist, "push")
		case 2:
			s.PushInt(xvm.ScriptNum(-300 - d))
			m = append(m, ref.NumBytes(int64(-300-d)))
			hist = append(hist, "pushint")
		case 3:
			s.PushBool(d%2 == 0)
			m = append(m, map[bool][]byte{true: {1}, false: nil}[d%2 == 0])
			hist = append(hist, "pushbool")
		case 4:
			hist = append(hist, "pop")
			var b []byte
			b, err = s.PopByteArray()
			if want = n > 0; want {
				if !bytes.Equal(b, m[n-1]) {
					c.Fail("stack", "%v: pops %x, want %x", hist, b, m[n-1])
				}
				m = m[:n-1]
			}
		case 5:
			hist = append(hist, "popint")
			var v xvm.ScriptNum
			v, err = s.PopInt()
			if n == 0 {
				want = false
			} else {
				x, ok := ref.Num(m[n-1], 4)
				want = ok
				if ok && int64(v) != x {
					c.Fail("stack", "%v: pops %d, want %d", hist, v, x)
				}
				m = m[:n-1]
			}
		case 6:
			hist = append(hist, "popbool")
			var v bool
			v, err = s.PopBool()
			if want = n > 0; want {
				if v != ref.Truth(m[n-1]) {
					c.Fail("stack", "%v: pops %v from %x", hist, v, m[n-1])
				}
				m = m[:n-1]
			}
		case 7, 8, 9:
			k := op - 6
			hist = append(hist, fmt.Sprintf("dup%d", k))
			err = s.DupN(k)
			if want = n >= k; want {
				m = append(m, m[n-k:]...)
			}
		case 10, 11:
			k := op - 9
			hist = append(hist, fmt.Sprintf("drop%d", k))
			err = s.DropN(int32(k))
			if want = n >= k; want {
				m = m[:n-k]
			}
		case 12:
			hist = append(hist, "swap1")
			err = s.SwapN(1)
			if want = n >= 2; want {
				m = append(append(append([][]byte{}, m[:n-2]...), m[n-1]), m[n-2])
			}
		case 13:
			hist = append(hist, "copy")
			t := s.Copy()
			t.PushBool(true)
			if n > 0 {
				_, _ = t.PopByteArray()
				_, _ = t.PopByteArray()
				t.PushByteArray([]byte("copy"))
			}
		case 14:
			hist = append(hist, "invalid")
			if s.DupN(0) == nil || s.DropN(0) == nil || s.SwapN(0) == nil || s.DupN(-1) == nil {
				c.Fail("stack", "%v: an operation on no items is accepted", hist)
			}
			if _, e := s.PeekByteArray(-1); e == nil {
				c.Fail("stack", "%v: peeking above the stack is accepted", hist)
			}
		}
		if (err == nil) != want {
			c.Fail("stack", "%v on %x: error = %v, want success = %v", hist, m, err, want)
		}
		if err != nil {
			return // what a failed operation leaves behind is not specified: the script has failed
		}
		if s.Depth() != len(m) {
			c.Fail("stack", "%v: depth %d, want %d", hist, s.Depth(), len(m))
		}
		for i := range m {
			b, e := s.PeekByteArray(i)
			if e != nil || !bytes.Equal(b, m[len(m)-1-i]) {
				c.Fail("stack", "%v: item %d from the top is %x (%v), want %x", hist, i, b, e, m[len(m)-1-i])
			}
		}
		c.StateS(strings.Join(hist, ","))
	}
}
