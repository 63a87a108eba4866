package props

import (
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xerror"
	"github.com/keyfuse/tokucore/xvm"
)

func init() { mc.Register("C34", c34) }

// errTable is a table of errors with a copy of what it held at first.
type errTable struct {
	name string
	t    map[int]*xerror.Error
	was  map[int]errModel
	code []int // the codes listed, in order
}

// errModel is what an error must be.
type errModel struct {
	num        int
	state, msg string
}

func (m errModel) text() string {
	return m.msg + " (errno " + strconv.Itoa(m.num) + ") (state " + m.state + ")"
}

func newErrTable(name string, t map[int]*xerror.Error) *errTable {
	e := &errTable{name: name, t: t, was: map[int]errModel{}}
	for k, v := range t {
		e.was[k] = errModel{v.Num, v.State, v.Message}
		e.code = append(e.code, k)
	}
	sort.Ints(e.code)
	return e
}

func (e *errTable) same(c *mc.Ctx, what string) {
	if len(e.t) != len(e.was) {
		c.Fail("table", "%s: the table %s has %d entries, had %d", what, e.name, len(e.t), len(e.was))
	}
	for k, w := range e.was {
		v := e.t[k]
		if v == nil || v.Num != w.num || v.State != w.state || v.Message != w.msg {
			c.Fail("table", "%s: the entry %d of table %s is %v, was %v", what, k, e.name, v, w)
		}
	}
}

// want is the error NewError makes; a code the table does not list gives the library's unknown error.
func (e *errTable) want(code int, args []interface{}) errModel {
	w, ok := e.was[code]
	if !ok {
		return errModel{xerror.ER_UNKNOWN, "T0000", "unknown.error"}
	}
	return errModel{w.num, w.state, fmt.Sprintf(w.msg, args...)}
}

// checkErr compares an error, printed in every way, with the model.
func checkErr(c *mc.Ctx, what string, err *xerror.Error, w errModel) {
	c.Step(1)
	c.Valid(1)
	if err == nil {
		c.Fail("nil", "%s: no error", what)
	}
	if err.Num != w.num || err.State != w.state || err.Message != w.msg {
		c.Fail("fields", "%s: {%d %q %q}, want {%d %q %q}", what, err.Num, err.State, err.Message, w.num, w.state, w.msg)
	}
	t := w.text()
	for _, p := range [][3]string{
		{"Error()", err.Error(), t},
		{"%v", fmt.Sprintf("%v", err), t},
		{"%s", fmt.Sprintf("%s", err), t},
		{"%q", fmt.Sprintf("%q", err), strconv.Quote(t)},
		{"Sprint", fmt.Sprint(err), t},
		{"Sprintln", fmt.Sprintln(err), t + "\n"},
		{"wrapped", fmt.Errorf("x: %w", err).Error(), "x: " + t},
		{"twice", fmt.Sprintf("%v|%v", err, err), t + "|" + t},
		{"of two kinds", fmt.Sprintf("%s/%v", err, err), t + "/" + t},
	} {
		if p[1] != p[2] {
			c.Fail("print", "%s printed with %s is %q, want %q", what, p[0], p[1], p[2])
		}
	}
	plus := fmt.Sprintf("%+v", err)
	if !strings.HasPrefix(plus, t+"\n") {
		c.Fail("plus", "%s printed with %%+v is %q, want it to start with %q", what, plus, t)
	}
	if strings.Contains(plus[len(t):], "%!") {
		c.Fail("plus", "%s printed with %%+v is %q", what, plus)
	}
	var e *xerror.Error
	if !errors.As(fmt.Errorf("y: %w", err), &e) || e != err {
		c.Fail("as", "%s is not found in an error that wraps it", what)
	}
}

func c34(r *mc.Run) {
	custom := map[int]*xerror.Error{
		0:             {Num: 0, State: "", Message: ""},
		-7:            {Num: -7, State: "S%s", Message: "percent.100%%"},
		1:             {Num: 2, State: "é", Message: "%v and %v"},
		2:             {Num: 1, State: "S(x)", Message: "%x|%d|%q|%[1]x"},
		math.MaxInt64: {Num: math.MaxInt64, State: "MAX", Message: "line\nbreak [%v]"},
	}
	tables := []*errTable{newErrTable("xerror", xerror.Errors), newErrTable("xcore", xcore.Errors), newErrTable("xvm", xvm.Errors), newErrTable("of its own", custom)}
	codes := []int{xerror.ER_UNKNOWN, math.MinInt64, -1, 0, 1, 999, 1001, math.MaxInt64, math.MaxInt32}
	for _, t := range tables {
		codes = append(codes, t.code...)
	}
	argLists := [][]interface{}{
		nil, {}, {1}, {"a"}, {"%s%d%!"}, {[]byte{1, 2}}, {1, 2}, {"x", []byte{0xff}}, {nil}, {nil, nil}, {errors.New("inner"), 7},
		{1, 2, 3}, {"", "", ""}, {math.MinInt64, uint64(math.MaxUint64)}, {xerror.Errors[xerror.ER_UNKNOWN]}, {strings.Repeat("long", 300), 1},
	}
	r.Explore("tables", mc.Opts{}, func(c *mc.Ctx) {
		t := tables[c.Pick("table", len(tables))]
		code := codes[c.Pick("code", len(codes))]
		for _, a := range argLists {
			what := fmt.Sprintf("the error %d of table %s with %d arguments", code, t.name, len(a))
			err := xerror.NewError(t.t, code, a...)
			checkErr(c, what, err, t.want(code, a))
			t.same(c, what)
		}
		c.StateS(t.name + strconv.Itoa(code))
		if _, ok := t.was[code]; ok {
			c.Outcome("listed")
		} else {
			c.Outcome("unknown")
		}
	})
	// an empty table, and none
	r.Explore("no-table", mc.Opts{}, func(c *mc.Ctx) {
		code := codes[c.Pick("code", len(codes))]
		var t map[int]*xerror.Error
		if c.Bool("empty") {
			t = map[int]*xerror.Error{}
		}
		checkErr(c, fmt.Sprintf("the error %d of an empty table", code), xerror.NewError(t, code, 1), errModel{xerror.ER_UNKNOWN, "T0000", "unknown.error"})
		c.StateU(uint64(code))
	})

	// errors made, printed and changed by their owner in every order: none affects another, or a table
	type live struct {
		e *xerror.Error
		m errModel
		n string
	}
	kinds := []struct {
		t    int
		code int
		args []interface{}
	}{
		{0, xerror.ER_UNKNOWN, nil}, {0, 5, nil}, {1, xcore.ER_SCRIPT_TYPE_UNKNOWN, []interface{}{"x"}}, {1, -1, []interface{}{1}},
		{2, xvm.ER_SCRIPT_STACK_INDEX_INVALID, []interface{}{3, 4}}, {3, -7, nil}, {3, 1, []interface{}{"a", "b"}},
	}
	r.Explore("histories", mc.Opts{}, func(c *mc.Ctx) {
		var ls []live
		var hist []string
		for d := r.Q(4, 5); d > 0; d-- {
			op := c.Pick("op", len(kinds)+2)
			switch {
			case op < len(kinds):
				k := kinds[op]
				n := fmt.Sprintf("new(%s,%d)", tables[k.t].name, k.code)
				hist = append(hist, n)
				ls = append(ls, live{xerror.NewError(tables[k.t].t, k.code, k.args...), tables[k.t].want(k.code, k.args), n})
			case len(ls) == 0:
				c.Skip()
			case op == len(kinds): // the owner of the last one changes it
				hist = append(hist, "change the last")
				l := &ls[len(ls)-1]
				l.e.Num, l.e.State, l.e.Message = 77, "CHANGED", "changed"
				l.m = errModel{77, "CHANGED", "changed"}
			default: // and of the first one
				hist = append(hist, "change the first")
				l := &ls[0]
				l.e.Num, l.e.State, l.e.Message = 78, "FIRST", "first"
				l.m = errModel{78, "FIRST", "first"}
			}
			bad := func() {
				for _, t := range tables {
					t.same(c, strings.Join(hist, ", "))
				}
			}
			bad()
			for i := range ls {
				checkErr(c, fmt.Sprintf("after %s: number %d, %s", strings.Join(hist, ", "), i+1, ls[i].n), ls[i].e, ls[i].m)
			}
			bad()
		}
		c.StateS(strings.Join(hist, ","))
	})

	// what the trace names: the function that made the error comes first
	r.Explore("trace", mc.Opts{}, func(c *mc.Ctx) {
		t := tables[c.Pick("table", len(tables))]
		code := codes[c.Pick("code", len(codes))]
		deep := c.Pick("depth", 40)
		e := traceHere34(t.t, code, deep)
		c.Step(1)
		c.Valid(1)
		text := fmt.Sprintf("%+v", e)
		// another error leaves it as it is
		_ = traceHere34(t.t, code, (deep+7)%25)
		if again := fmt.Sprintf("%+v", e); again != text {
			c.Fail("trace-kept", "after another error was made %q is printed as %q", text, again)
		}
		lines := strings.Split(text, "\n")
		// the message may have lines of its own
		lines = lines[1+strings.Count(t.want(code, nil).text(), "\n"):]
		// frames of the error package itself may come first
		for len(lines) > 1 && strings.Contains(lines[0], "xerror") {
			lines = lines[1:]
		}
		if len(lines) == 0 || !strings.Contains(lines[0], "c34.go:") || !strings.Contains(lines[0], "traceHere34") {
			c.Fail("trace", "the error %d made in traceHere34 (c34.go) has a trace that starts with %q", code, lines[0])
		}
		for i := 0; i < deep && i < 20; i++ {
			if len(lines) < 2+i || !strings.Contains(lines[1+i], "traceHere34") {
				c.Fail("trace", "line %d of the trace of an error made %d calls deep is not that of traceHere34: %q", 2+i, deep, lines)
			}
		}
		c.StateU(uint64(code), uint64(deep))
	})

	apiErrors34(r)
}

//go:noinline
func traceHere34(t map[int]*xerror.Error, code, deep int) *xerror.Error {
	if deep > 0 {
		e := traceHere34(t, code, deep-1)
		if e == nil {
			panic("no error")
		}
		return e
	}
	return xerror.NewError(t, code)
}

// coded checks that err is the error of the code with these arguments, itself or wrapped.
func coded(c *mc.Ctx, what string, err error, table map[int]*xerror.Error, code int, args ...interface{}) {
	c.Step(1)
	c.Valid(1)
	var e *xerror.Error
	if err == nil {
		c.Fail("accepted", "%s: no error", what)
	}
	if !errors.As(err, &e) {
		c.Fail("uncoded", "%s: the error %q has no code, want %d", what, err, code)
	}
	t := table[code]
	if e.Num != code || e.State != t.State {
		c.Fail("code", "%s: the error is %q, want code %d", what, err, code)
	}
	if w := fmt.Sprintf(t.Message, args...); e.Message != w {
		c.Fail("values", "%s: the error's message is %q, want %q", what, e.Message, w)
	}
	c.Outcome(strconv.Itoa(code))
}

// apiErrors34 makes each documented failure of the transaction, script, address and builder calls happen with different
// values, and compares the code and the values named.
func apiErrors34(r *mc.Run) {
	idxs := func(n int) []int {
		return []int{-1, n, n + 1, n + 255, math.MaxInt32, math.MaxInt64, math.MinInt64, math.MinInt32, 1 << 32}
	}
	tx := func(n int) *spendTx {
		s := newSpendTx()
		for i := 0; i < n; i++ {
			s.add(spendKinds[[]int{0, 2, 4, 6}[i%4]])
		}
		s.outputs(2)
		return s
	}
	r.Explore("index-errors", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("inputs", 5)
		s := tx(n)
		k := testKeys[0]
		for _, i := range idxs(n) {
			what := func(f string) string { return fmt.Sprintf("%s(%d) of %d inputs", f, i, n) }
			const code = xcore.ER_TRANSACTION_SIGN_OUT_INDEX
			coded(c, what("SignIndex"), s.tx.SignIndex(i, true, 1, k), xcore.Errors, code, i, n)
			coded(c, what("SetTxIn"), s.tx.SetTxIn(i, 1, pkhCode(rep(1, 20)), nil), xcore.Errors, code, i, n)
			coded(c, what("EmbedIdxSignature"), s.tx.EmbedIdxSignature(i, []xcore.PubKeySign{{}}), xcore.Errors, code, i, n)
			coded(c, what("EmbedIdxEcdsaSignature"), s.tx.EmbedIdxEcdsaSignature(i, k.PubKey(), rep(1, 70), 1), xcore.Errors, code, i, n)
			_, err := s.tx.RawSignature(i, 1, k)
			coded(c, what("RawSignature"), err, xcore.Errors, code, i, n)
			_, err = s.tx.WitnessSignature(i, 1, k)
			coded(c, what("WitnessSignature"), err, xcore.Errors, code, i, n)
			c.StateU(uint64(n), uint64(i))
		}
	})
	r.Explore("redeem-errors", mc.Opts{}, func(c *mc.Ctx) {
		n := 1 + c.Pick("inputs", 3)
		i := c.Pick("input", n)
		nk := 2 + c.Pick("keys", 4)
		s := newSpendTx()
		for j := 0; j < n; j++ {
			s.add(spendKinds[[]int{0, 2, 0}[j]])
		}
		s.outputs(1)
		coded(c, fmt.Sprintf("SignIndex(%d) with %d keys and no redeem script", i, nk), s.tx.SignIndex(i, true, 1, testKeys[:nk]...), xcore.Errors, xcore.ER_TRANSACTION_SIGN_REDEEM_EMPTY, i, nk)
		coded(c, fmt.Sprintf("EmbedIdxSignature(%d) with %d signatures and no redeem script", i, nk), s.tx.EmbedIdxSignature(i, make([]xcore.PubKeySign, nk)), xcore.Errors, xcore.ER_TRANSACTION_SIGN_REDEEM_EMPTY, i, nk)
		_, err := s.tx.WitnessSignature(0, 1, testKeys[0])
		coded(c, "WitnessSignature of an input without a witness", err, xcore.Errors, xcore.ER_SCRIPT_SIGNATURE_TYPE_UNKNOW, xcore.BASE)
		c.StateU(uint64(n), uint64(i), uint64(nk))
	})
	// the input that fails, and no other, is the one named; with several failing, the first
	r.Explore("verify-errors", mc.Opts{}, func(c *mc.Ctx) {
		n := 1 + c.Pick("inputs", 4)
		s := tx(n)
		for i := 0; i < n; i++ {
			if err := s.sign(i, 1); err != nil {
				c.Fail("sign", "signing: %v", err)
			}
		}
		mask := c.Pick("spoiled inputs", 1<<uint(n))
		first := -1
		for i := n - 1; i >= 0; i-- {
			if mask>>uint(i)&1 == 1 {
				first = i
				in := s.kinds[i].in
				if len(in.Witness) > 0 {
					for _, w := range in.Witness {
						if len(w) > 60 && w[0] == 0x30 {
							w[10] ^= 1
						}
					}
				} else {
					u := in.RawUnlockingScript
					for k := range u {
						if u[k] == 0x30 {
							u[k+10] ^= 1
							break
						}
					}
				}
			}
		}
		err := s.tx.Verify()
		c.Step(1)
		c.Valid(1)
		if first < 0 {
			if err != nil {
				c.Fail("verify", "a good transaction of %d inputs: %v", n, err)
			}
			c.Outcome("good")
			return
		}
		in := s.kinds[first].in
		coded(c, fmt.Sprintf("Verify of %d inputs of which %b are spoiled", n, mask), err, xcore.Errors, xcore.ER_TRANSACTION_VERIFY_FAILED, first, ref.RevHex(in.Hash), in.Index)
		c.StateU(uint64(n), uint64(mask))
	})
	r.Explore("script-errors", mc.Opts{}, func(c *mc.Ctx) {
		m := c.Pick("required", 25) - 3
		n := c.Pick("keys", 23)
		c.Step(1)
		c.Valid(1)
		keys := make([][]byte, n)
		for i := range keys {
			keys[i] = rep(2, 33)
		}
		if m < 1 || m > n || n > 20 {
			_, err := xcore.NewPayToMultiSigScript(m, keys...).GetLockingScriptBytes()
			coded(c, fmt.Sprintf("a %d-of-%d script", m, n), err, xcore.Errors, xcore.ER_SCRIPT_STANDARD_PUBKEYS_LE_NREQUIRED, n, m)
		} else if _, err := xcore.NewPayToMultiSigScript(m, keys...).GetLockingScriptBytes(); err != nil {
			c.Fail("multisig", "a %d-of-%d script: %v", m, n, err)
		}
		c.StateU(uint64(m), uint64(n))
	})
	r.Explore("script-type-errors", mc.Opts{}, func(c *mc.Ctx) {
		scripts := [][]byte{{0x51}, {0x6a, 1, 2}, {}, pkhCode(rep(1, 20))[:24], cat([]byte{0}, pushBytes(rep(1, 21))), cat([]byte{0x51}, pushBytes(rep(1, 32))), cat(pushBytes(rep(2, 33)), []byte{0xac})}
		s := scripts[c.Pick("script", len(scripts))]
		_, err := xcore.ParseLockingScript(s)
		coded(c, fmt.Sprintf("the script %x", s), err, xcore.Errors, xcore.ER_SCRIPT_TYPE_UNKNOWN, xvm.DisasmString(s))
		_, err = xcore.NewTxIn(rep(1, 32), 0, 1, s, nil)
		coded(c, fmt.Sprintf("NewTxIn with the script %x", s), err, xcore.Errors, xcore.ER_SCRIPT_TYPE_UNKNOWN, xvm.DisasmString(s))
		t := tx(1)
		coded(c, fmt.Sprintf("SetTxIn with the script %x", s), t.tx.SetTxIn(0, 1, s, nil), xcore.Errors, xcore.ER_SCRIPT_TYPE_UNKNOWN, xvm.DisasmString(s))
		c.StateS(string(s))
	})
	r.Explore("address-errors", mc.Opts{}, func(c *mc.Ctx) {
		net := []*network.Network{network.MainNet, network.TestNet}[c.Pick("network", 2)]
		switch c.Pick("kind", 4) {
		case 0: // a version byte of no address kind
			v := byte(c.Pick("version", 256))
			if v == net.PubKeyHashAddrID || v == net.ScriptHashAddrID {
				c.Skip()
			}
			a := xbase.Base58CheckEncode(rep(7, 20), v)
			_, err := xcore.DecodeAddress(a, net)
			coded(c, "the address "+a, err, xcore.Errors, xcore.ER_ADDRESS_TYPE_UNKNOWN, v)
		case 1: // a payload of another length
			n := c.Pick("length", 40)
			if n == 20 {
				c.Skip()
			}
			a := xbase.Base58CheckEncode(rep(7, n), net.PubKeyHashAddrID)
			_, err := xcore.DecodeAddress(a, net)
			coded(c, "the address "+a, err, xcore.Errors, xcore.ER_ADDRESS_SIZE_MALFORMED, n)
		case 2: // not an address
			a := []string{"", "1", "0", "il", "é", "1111111111", "xyz%d", "bc2qqqq", strings.Repeat("1", 50)}[c.Pick("text", 9)]
			_, err := xcore.DecodeAddress(a, net)
			coded(c, fmt.Sprintf("the address %q", a), err, xcore.Errors, xcore.ER_ADDRESS_FORMAT_MALFORMED, a)
		case 3: // a later witness version
			v := 1 + c.Pick("version", 16)
			n := []int{2, 20, 32, 40}[c.Pick("length", 4)]
			a, err := xbase.WitnessEncode(net.Bech32HRPSegwit, byte(v), rep(9, n))
			if err != nil {
				c.Fail("encode", "WitnessEncode: %v", err)
			}
			_, err = xcore.DecodeAddress(a, net)
			coded(c, "the address "+a, err, xcore.Errors, xcore.ER_ADDRESS_WITNESS_VERSION_UNSUPPORTED, v)
		}
	})
	builderErrors34(r)

	// the virtual machine
	r.Explore("vm-errors", mc.Opts{}, func(c *mc.Ctx) {
		run := func(p []byte) error {
			e := stubEngine()
			e.EnableStrict()
			return e.Execute(p)
		}
		k := c.Pick("kind", 5)
		switch k {
		case 0: // an opcode not in the table
			op := byte(c.Pick("op", 256))
			if ref.Supported(op) {
				c.Skip()
			}
			pre := [][]byte{{}, {0x51}, {1, 7}}[c.Pick("before", 3)]
			coded(c, fmt.Sprintf("the opcode %#x", op), run(cat(pre, []byte{op})), xvm.Errors, xvm.ER_SCRIPT_INSTRUCTION_UNKNOWN, op)
		case 1: // pops from an empty stack
			op := []byte{0x75, 0x87, 0x88, 0xa9, 0x93, 0xac}[c.Pick("op", 6)]
			coded(c, fmt.Sprintf("the opcode %#x on an empty stack", op), run([]byte{op}), xvm.Errors, xvm.ER_SCRIPT_STACK_INDEX_INVALID, 0, 0)
		case 2: // numbers that are too long
			n := 5 + c.Pick("length", 8)
			b := rep(1, n)
			coded(c, fmt.Sprintf("adding the number %x", b), run(cat([]byte{0x51}, pushBytes(b), []byte{0x93})), xvm.Errors, xvm.ER_SCRIPTNUM_TOO_BIG, b, n, 4)
			_, err := xvm.MakeScriptNum(b, n-1)
			coded(c, fmt.Sprintf("MakeScriptNum(%x, %d)", b, n-1), err, xvm.Errors, xvm.ER_SCRIPTNUM_TOO_BIG, b, n, n-1)
		case 3: // numbers that are not minimal
			b := [][]byte{{0}, {0x80}, {1, 0}, {0x7f, 0x80}, {0, 0}, {0, 0, 0, 0x80}}[c.Pick("number", 6)]
			_, err := xvm.MakeScriptNum(b, 4)
			coded(c, fmt.Sprintf("MakeScriptNum(%x, 4)", b), err, xvm.Errors, xvm.ER_SCRIPTNUM_MINIMAL_DATA, b)
		case 4: // stack operations
			n := c.Pick("depth", 4)
			s := xvm.NewStack()
			for i := 0; i < n; i++ {
				s.PushBool(true)
			}
			i := []int{-1, n, n + 1, math.MaxInt32}[c.Pick("index", 4)]
			_, err := s.PeekByteArray(i)
			coded(c, fmt.Sprintf("PeekByteArray(%d) of %d items", i, n), err, xvm.Errors, xvm.ER_SCRIPT_STACK_INDEX_INVALID, i, n)
			for _, z := range []int{0, -1, math.MinInt32} {
				coded(c, fmt.Sprintf("DupN(%d)", z), s.DupN(z), xvm.Errors, xvm.ER_SCRIPT_STACK_OPERATION_INVALID, "DupN", z)
				coded(c, fmt.Sprintf("DropN(%d)", z), s.DropN(int32(z)), xvm.Errors, xvm.ER_SCRIPT_STACK_OPERATION_INVALID, "DropN", z)
				coded(c, fmt.Sprintf("SwapN(%d)", z), s.SwapN(int32(z)), xvm.Errors, xvm.ER_SCRIPT_STACK_OPERATION_INVALID, "SwapN", z)
			}
		}
		c.StateU(uint64(k))
	})
}

// builderErrors34: each reason to refuse a build, alone.
func builderErrors34(r *mc.Run) {
	key := testKeys[0]
	pub := key.PubKey()
	txid := func(i int) string { return strings.Repeat(fmt.Sprintf("%02x", 0x10+i), 32) }
	lock := hex.EncodeToString(pkhCode(pub.Hash160()))
	to := xcore.NewPayToPubKeyHashAddress(rep(5, 20))
	chg := xcore.NewPayToPubKeyHashAddress(rep(6, 20))
	r.Explore("builder-errors", mc.Opts{}, func(c *mc.Ctx) {
		// n coins of v each, group by group
		n := 1 + c.Pick("coins", 3)
		v := []uint64{5000, 1 << 32, math.MaxInt64 / 4}[c.Pick("value", 3)]
		at := c.Pick("at", n)
		total := v * uint64(n)
		why := c.Pick("reason", 9)
		b := xcore.NewTransactionBuilder()
		pay := v
		if n == 1 {
			pay = v / 2
		}
		fee, max := uint64(700), int64(800)
		what := ""
		var code int
		var args []interface{}
		id := func(i int) string { return txid(i) }
		val := func(i int) uint64 { return v }
		keys := func(i int) []*xcrypto.PrvKey { return []*xcrypto.PrvKey{key} }
		coins, payment, change := true, true, true
		switch why {
		case 0:
			what, code, coins = "no coin", xcore.ER_TRANSACTION_BUILDER_FROM_EMPTY, false
		case 1:
			what, code, payment = "no payment", xcore.ER_TRANSACTION_BUILDER_SENDTO_EMPTY, false
		case 2:
			what, code, change = "no change address", xcore.ER_TRANSACTION_BUILDER_CHANGETO_EMPTY, false
		case 3:
			pay = total + 1 + uint64(at)
			what, code, args = "payments above the coins", xcore.ER_TRANSACTION_BUILDER_AMOUNT_NOT_ENOUGH_ERROR, []interface{}{pay, total}
		case 4:
			pay = total - 300 - uint64(at)
			what, code, args = "a fee above what is left", xcore.ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH, []interface{}{fee, 300 + at}
		case 5:
			max = 699 - int64(at)
			what, code, args = "a fee above the maximum", xcore.ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, []interface{}{fee, max}
		case 6:
			keys = func(i int) []*xcrypto.PrvKey {
				if i == at {
					return nil
				}
				return []*xcrypto.PrvKey{key}
			}
			what, code, args = "a coin without keys", xcore.ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY, []interface{}{at}
		case 7:
			if at == 0 {
				c.Skip()
			}
			id = func(i int) string {
				if i == at {
					return txid(0)
				}
				return txid(i)
			}
			what, code, args = "a coin twice", xcore.ER_TRANSACTION_BUILDER_COIN_DUPLICATE, []interface{}{txid(0), 3}
		case 8:
			val = func(i int) uint64 {
				if i == at {
					return 1<<63 + uint64(at)
				}
				return v
			}
			what, code, args = "a coin above every amount", xcore.ER_TRANSACTION_BUILDER_AMOUNT_OVERFLOW, []interface{}{uint64(1)<<63 + uint64(at)}
		}
		if coins {
			for i := 0; i < n; i++ {
				if i > 0 {
					b.Then()
				}
				b.AddCoin(xcore.NewCoinBuilder().AddOutput(id(i), 3, val(i), lock).ToCoins()[0])
				if k := keys(i); k != nil {
					b.AddKeys(k...)
				}
			}
		}
		if payment {
			b.To(to, pay)
		}
		if change {
			b.SetChange(chg)
		}
		b.SendFees(fee).SetMaxFees(max).Sign()
		tx, err := b.BuildTransaction()
		if tx != nil && err != nil {
			c.Fail("both", "%s: a transaction and the error %v", what, err)
		}
		coded(c, what, err, xcore.Errors, code, args...)
		c.StateU(uint64(n), v, uint64(at), uint64(why))
	})
}
