package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xvm"
)

func init() { mc.Register("C13", c13) }

// shortestPush is the shortest script that pushes exactly b.
func shortestPush(b []byte) []byte {
	n := len(b)
	switch {
	case n == 0:
		return []byte{0}
	case n == 1 && b[0] >= 1 && b[0] <= 16:
		return []byte{0x50 + b[0]}
	case n == 1 && b[0] == 0x81:
		return []byte{0x4f}
	case n < 76:
		return cat([]byte{byte(n)}, b)
	case n < 256:
		return cat([]byte{0x4c, byte(n)}, b)
	case n < 65536:
		return cat([]byte{0x4d, byte(n), byte(n >> 8)}, b)
	}
	return cat([]byte{0x4e, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, b)
}

type token struct {
	what string
	op   int // opcode, or -1
	data []byte
	num  int64
	kind int // 0 op, 1 data, 2 int
}

func (t token) want() []byte {
	switch t.kind {
	case 0:
		return []byte{byte(t.op)}
	case 1:
		return shortestPush(t.data)
	}
	return shortestPush(ref.NumBytes(t.num))
}

// pushedValue is what a push instruction leaves on the stack.
func pushedValue(op byte, data []byte) []byte {
	switch {
	case op == 0:
		return nil
	case op == 0x4f:
		return []byte{0x81}
	case op >= 0x51 && op <= 0x60:
		return []byte{op - 0x50}
	}
	return data
}

var opNames = func() map[byte]string {
	m := map[byte]string{0: "OP_0", 0x4c: "OP_PUSHDATA1", 0x4d: "OP_PUSHDATA2", 0x4e: "OP_PUSHDATA4", 0x4f: "OP_1NEGATE",
		0x63: "OP_IF", 0x64: "OP_NOTIF", 0x67: "OP_ELSE", 0x68: "OP_ENDIF", 0x6a: "OP_RETURN", 0x6e: "OP_2DUP", 0x6f: "OP_3DUP",
		0x75: "OP_DROP", 0x76: "OP_DUP", 0x7c: "OP_SWAP", 0x82: "OP_SIZE", 0x87: "OP_EQUAL", 0x88: "OP_EQUALVERIFY", 0x93: "OP_ADD",
		0xa9: "OP_HASH160", 0xac: "OP_CHECKSIG", 0xad: "OP_CHECKSIGVERIFY", 0xae: "OP_CHECKMULTISIG", 0xaf: "OP_CHECKMULTISIGVERIFY"}
	for i := 1; i <= 75; i++ {
		m[byte(i)] = fmt.Sprintf("OP_DATA_%d", i)
	}
	for i := 1; i <= 16; i++ {
		m[byte(0x50+i)] = fmt.Sprintf("OP_%d", i)
	}
	return m
}()

// readBack compares the reader on a script with the reference reader.
func readBack(c *mc.Ctx, script []byte) {
	c.Step(1)
	c.Valid(1)
	in := append(make([]byte, 0, len(script)+8), script...)
	guard := in[:cap(in)]
	for i := len(script); i < len(guard); i++ {
		guard[i] = 0xe7
	}
	type got struct {
		op   byte
		data []byte
	}
	var want []got
	bad := false
	for s := script; len(s) > 0; {
		op, data, rest, ok := ref.NextOp(s)
		if !ok || !ref.Supported(op) {
			bad = true
			break
		}
		want = append(want, got{op, data})
		s = rest
	}
	rd := xvm.NewScriptReader(in)
	i := 0
	var text []string
	for {
		x, err := rd.NextInstruction()
		if err != nil {
			if !bad || i != len(want) {
				c.Fail("read", "script %s: instruction %d is an error (%v), want %d instructions, malformed = %v", hx(script), i, err, len(want), bad)
			}
			break
		}
		if x == nil {
			if bad || i != len(want) {
				c.Fail("read", "script %s: ends after %d instructions, want %d, malformed = %v", hx(script), i, len(want), bad)
			}
			break
		}
		if i >= len(want) {
			c.Fail("read", "script %s: instruction %d is %#x %s beyond the valid part", hx(script), i, x.OpCode(), hx(x.Data()))
		}
		if x.OpCode() != want[i].op || !bytes.Equal(x.Data(), want[i].data) {
			c.Fail("read", "script %s: instruction %d is %#x %s, want %#x %s", hx(script), i, x.OpCode(), hx(x.Data()), want[i].op, hx(want[i].data))
		}
		text = append(text, opNames[x.OpCode()])
		if x.OpCode() >= 1 && x.OpCode() <= 0x4e {
			if x.OpCode() < 0x4c || len(x.Data()) > 0 {
				text = append(text, hex.EncodeToString(x.Data()))
			}
		}
		i++
	}
	all, err := xvm.NewScriptReader(in).AllInstructions()
	if (err != nil) != bad || (err == nil && len(all) != len(want)) {
		c.Fail("read-all", "script %s: AllInstructions gives %d instructions and error %v, want %d, malformed = %v", hx(script), len(all), err, len(want), bad)
	}
	for j := range all {
		if all[j].OpCode() != want[j].op || !bytes.Equal(all[j].Data(), want[j].data) {
			c.Fail("read-all", "script %s: AllInstructions[%d] differs", hx(script), j)
		}
	}
	dis := xvm.DisasmString(in)
	if !bad {
		// names and data in order (an empty PUSHDATA may print an empty field)
		if a := strings.Join(strings.Fields(dis), " "); a != strings.Join(text, " ") {
			c.Fail("disasm", "script %s disassembles to %q, want %q", hx(script), dis, strings.Join(text, " "))
		}
		// removing an opcode removes exactly its instructions
		for _, op := range []byte{0xab, 0x75, 0x51, 1, 0x4c} {
			var w []byte
			for s := script; len(s) > 0; {
				o, _, rest, _ := ref.NextOp(s)
				if o != op {
					w = append(w, s[:len(s)-len(rest)]...)
				}
				s = rest
			}
			if g := xvm.RemoveOpcode(in, op); !bytes.Equal(g, w) {
				c.Fail("remove", "RemoveOpcode(%s, %#x) = %s, want %s", hx(script), op, hx(g), hx(w))
			}
		}
		c.Outcome("well-formed")
	} else {
		c.Outcome("malformed")
	}
	if !bytes.Equal(in, script) {
		c.Fail("clobber", "reading changed the script %s", hx(script))
	}
}

func c13(r *mc.Run) {
	var toks []token
	for op := 0; op < 256; op++ {
		if ref.Supported(byte(op)) && (op == 0 || op > 0x4e) {
			toks = append(toks, token{fmt.Sprintf("AddOp(%#x)", op), op, nil, 0, 0})
		}
	}
	for _, n := range []int{0, 2, 3, 74, 75, 76, 77, 255, 256, 257} {
		toks = append(toks, token{fmt.Sprintf("AddData(%d bytes)", n), -1, seq(byte(n), n), 0, 1})
	}
	for _, b := range []byte{1, 2, 15, 16, 17, 0x50, 0x7f, 0x80, 0x81, 0x82, 0xff} {
		toks = append(toks, token{fmt.Sprintf("AddData([%#x])", b), -1, []byte{b}, 0, 1})
	}
	for _, n := range []int64{0, 1, -1, 2, 15, 16, 17, -2, 127, 128, -127, -128, 129, 255, 256, -255, -256, 32767, 32768, -32768, 65535, 65536, 1<<31 - 1, -(1 << 31), 1 << 31, 1 << 40, 1<<63 - 1, -(1<<63 - 1), -1 << 63} {
		toks = append(toks, token{fmt.Sprintf("AddInt64(%d)", n), -1, nil, n, 2})
	}
	big := []token{{"AddData(65535 bytes)", -1, seq(1, 65535), 0, 1}, {"AddData(65536 bytes)", -1, seq(2, 65536), 0, 1}, {"AddData(65537 bytes)", -1, seq(3, 65537), 0, 1}, {"AddData(520 bytes)", -1, seq(4, 520), 0, 1}}
	apply := func(b *xvm.ScriptBuilder, t token) {
		switch t.kind {
		case 0:
			b.AddOp(byte(t.op))
		case 1:
			b.AddData(clone(t.data))
		case 2:
			b.AddInt64(t.num)
		}
	}
	check := func(c *mc.Ctx, seqn []token) {
		c.Step(1)
		c.Valid(1)
		b := xvm.NewScriptBuilder()
		var want []byte
		what := ""
		for _, t := range seqn {
			apply(b, t)
			want = append(want, t.want()...)
			what += t.what + " "
		}
		got, err := b.Script()
		if err != nil || !bytes.Equal(got, want) {
			c.Fail("build", "%s gives %s (%v), want %s", what, hx(got), err, hx(want))
		}
		h, err := b.Hash160()
		if err != nil || !bytes.Equal(h, ref.Hash160(want)) {
			c.Fail("hash160", "%s: Hash160 = %x", what, h)
		}
		readBack(c, got)
		// the values read back are the ones pushed
		all, _ := xvm.NewScriptReader(got).AllInstructions()
		if len(all) != len(seqn) {
			c.Fail("sequence", "%s reads back as %d instructions", what, len(all))
		}
		for i, t := range seqn {
			v := pushedValue(all[i].OpCode(), all[i].Data())
			switch {
			case t.kind == 0 && all[i].OpCode() != byte(t.op),
				t.kind == 1 && !bytes.Equal(v, t.data),
				t.kind == 2 && !bytes.Equal(v, ref.NumBytes(t.num)):
				c.Fail("value", "%s: item %d reads back as opcode %#x with %x", what, i, all[i].OpCode(), v)
			}
		}
		c.State(want)
	}
	// every sequence of up to three (four) builder calls
	r.Explore("builder", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("length", r.Q(3, 4)+1)
		var s []token
		for i := 0; i < n-1; i++ {
			s = append(s, toks[c.Pick("token", len(toks))])
		}
		if n == 0 {
			check(c, nil)
			return
		}
		for _, t := range toks {
			check(c, append(s[:len(s):len(s)], t))
		}
	})
	r.Explore("big-pushes", mc.Opts{}, func(c *mc.Ctx) {
		a := big[c.Pick("token", len(big))]
		check(c, []token{a})
		check(c, []token{a, toks[c.Pick("then", len(toks))]})
		check(c, []token{toks[1], a, a})
	})
	// pushes around every byte boundary of the four-byte length, alone and before an instruction that is removed
	r.Explore("huge-pushes", mc.Opts{}, func(c *mc.Ctx) {
		n := []int{1<<16 - 1, 1 << 16, 1<<17 + 1, 1<<24 - 1, 1 << 24, 1<<24 + 1}[c.Pick("length", 6)]
		c.StateU(uint64(n))
		check(c, []token{{fmt.Sprintf("AddData(%d bytes)", n), -1, seq(3, n), 0, 1}, toks[1]})
		readBack(c, cat([]byte{0x4e, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, rep(0xab, n), []byte{0x75, 0x51}))
	})
	r.Explore("every-length", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("length", 700)
		check(c, []token{{"AddData", -1, seq(0x20, n), 0, 1}, toks[3]})
		if n < 256 && n > 0 {
			check(c, []token{{"AddData(one byte)", -1, []byte{byte(n)}, 0, 1}})
		}
		for _, v := range []int64{int64(n), -int64(n), int64(n) * 100, int64(n) << 20} {
			check(c, []token{{"AddInt64", -1, nil, v, 2}})
		}
	})
	// one zero byte: the shortest push that pushes it is 01 00
	r.Explore("zero-byte", mc.Opts{}, func(c *mc.Ctx) {
		got, err := xvm.NewScriptBuilder().AddData([]byte{0}).Script()
		c.Step(1)
		c.Valid(1)
		if err != nil || !bytes.Equal(got, []byte{1, 0}) {
			if bytes.Equal(got, []byte{0}) {
				c.Known("add-data-zero-byte", "AddData([0x00]) gives 00, which pushes the empty string")
				return
			}
			c.Fail("build", "AddData([0x00]) gives %x (%v), want 0100", got, err)
		}
	})
	// histories with Reset; scripts already handed out stay what they were
	r.Explore("reset", mc.Opts{}, func(c *mc.Ctx) {
		b := xvm.NewScriptBuilder()
		var want []byte
		var held, heldWant [][]byte
		hist := ""
		failed := false
		few := []token{toks[0], toks[5], toks[len(toks)-1], toks[len(toks)-12], {"AddData(300)", -1, seq(0, 300), 0, 1}}
		for d := 0; d < r.Q(6, 7); d++ {
			k := c.Pick("op", len(few)+3)
			if failed && k < len(few) {
				c.Skip() // what is appended after an error is not claimed
			}
			switch {
			case k == len(few)+2:
				b.Load("OP_NOPE")
				failed = true
				hist += "Load(OP_NOPE) "
			case k < len(few):
				apply(b, few[k])
				want = append(want[:len(want):len(want)], few[k].want()...)
				hist += few[k].what + " "
			case k == len(few):
				b.Reset()
				want = nil
				failed = false
				hist += "Reset "
			default:
				s, err := b.Script()
				c.Step(1)
				c.Valid(1)
				if (err != nil) != failed || !bytes.Equal(s, want) {
					c.Fail("reset", "%s gives %s (%v), want %s, error %v", hist, hx(s), err, hx(want), failed)
				}
				held, heldWant = append(held, s), append(heldWant, want)
				hist += "Script "
			}
		}
		s, err := b.Script()
		if (err != nil) != failed || !bytes.Equal(s, want) {
			c.Fail("reset", "%s gives %s (%v), want %s", hist, hx(s), err, hx(want))
		}
		for i := range held {
			if !bytes.Equal(held[i], heldWant[i]) {
				c.Fail("handed-out", "%s: the script handed out as %s later reads %s", hist, hx(heldWant[i]), hx(held[i]))
			}
		}
		c.State(want)
	})
	// reading: every short byte string; every truncation of well-formed scripts
	r.Explore("bytes", mc.Opts{}, func(c *mc.Ctx) {
		a := byte(c.Pick("first byte", 256))
		readBack(c, nil)
		readBack(c, []byte{a})
		for b := 0; b < 256; b++ {
			readBack(c, []byte{a, byte(b)})
			for _, t := range [][]byte{{0}, {1, 2}, {0x4c}, {0x4d, 1}, rep(0x51, 75), rep(0, 260)} {
				readBack(c, cat([]byte{a, byte(b)}, t))
			}
			if !r.Quick() {
				for d := 0; d < 256; d++ {
					readBack(c, []byte{a, byte(b), byte(d)})
				}
			}
		}
		c.StateU(uint64(a))
	})
	heads := [][]byte{{0x4c}, {0x4c, 0}, {0x4c, 1}, {0x4c, 0xff}, {0x4d}, {0x4d, 0}, {0x4d, 0, 0}, {0x4d, 1, 0}, {0x4d, 0, 1}, {0x4d, 0xff, 0xff}, {0x4e}, {0x4e, 0, 0, 0}, {0x4e, 0, 0, 0, 0}, {0x4e, 1, 0, 0, 0}, {0x4e, 0, 1, 0, 0}, {0x4e, 0, 0, 1, 0}, {0x4e, 0, 0, 0, 1}, {0x4e, 0xff, 0xff, 0xff, 0x7f}, {0x4e, 0, 0, 0, 0x80}, {0x4e, 0xff, 0xff, 0xff, 0xff}, {75}, {1}, {20}, {33}, {0x51}, {0}, {0x61}, {0x4f}}
	r.Explore("truncations", mc.Opts{}, func(c *mc.Ctx) {
		h := heads[c.Pick("head", len(heads))]
		h2 := heads[c.Pick("next", len(heads))]
		for n := 0; n < 300; n++ {
			if n > 90 && n < 250 {
				continue
			}
			readBack(c, cat(h, seq(0x51, n)))
			readBack(c, cat(h, rep(0x51, n), h2, rep(3, n)))
		}
		c.State(append(clone(h), h2...))
	})
	// the text form
	words := []string{"OP_0", "OP_FALSE", "OP_1", "OP_TRUE", "OP_16", "OP_DUP", "OP_CHECKMULTISIGVERIFY", "OP_DATA_2", "OP_PUSHDATA1", "0", "1", "16", "17", "-1", "-2", "1000", "-1000", "9223372036854775807", "0x", "0x51", "0x4c0100", "0xFFee", "'ab'", "'51'", "'" + strings.Repeat("ab", 80) + "'"}
	bad := []string{"OP_NOPE", "op_1", "x", "0xg", "0x1", "9223372036854775808", "'", "1.5", "abcd", "0X51"}
	r.Explore("text", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("length", 4)
		var parts []string
		var want []byte
		fails := false
		for i := 0; i < n; i++ {
			k := c.Pick("word", len(words)+len(bad))
			if k >= len(words) {
				parts = append(parts, bad[k-len(words)])
				fails = true
				continue
			}
			w := words[k]
			parts = append(parts, w)
			if fails {
				continue
			}
			switch {
			case w == "OP_FALSE":
				want = append(want, 0)
			case w == "OP_TRUE":
				want = append(want, 0x51)
			case strings.HasPrefix(w, "OP_"):
				for b, nm := range opNames {
					if nm == w {
						want = append(want, b)
					}
				}
			case strings.HasPrefix(w, "0x"):
				want = append(want, unhex(w[2:])...)
			case strings.HasPrefix(w, "'"):
				want = append(want, shortestPush(unhex(w[1:len(w)-1]))...)
			default:
				v, _ := strconv.ParseInt(w, 10, 64)
				want = append(want, shortestPush(ref.NumBytes(v))...)
			}
		}
		if n == 0 {
			c.Skip()
		}
		// the separators of a text of three words or more alternate
		seps := []string{" ", "\n", "\t", " "}
		k := 0
		if n > 1 && n < 4-r.Q(1, 0) {
			k = c.Pick("separator", 3)
		}
		text := ""
		for i, w := range parts {
			if i > 0 {
				text += seps[(k+i-1)%3]
			}
			text += w
		}
		c.Step(1)
		c.Valid(1)
		got, err := xvm.NewScriptBuilder().Load(text).Script()
		if (err != nil) != fails {
			c.Fail("text", "Load(%q): error = %v, want success = %v", text, err, !fails)
		}
		if !bytes.Equal(got, want) {
			c.Fail("text", "Load(%q) = %x, want %x", text, got, want)
		}
		c.State(want)
	})

	// every white space between the words of longer texts
	r.Explore("separators", mc.Opts{}, func(c *mc.Ctx) {
		words := []struct {
			text string
			want []byte
		}{{"OP_DUP", []byte{0x76}}, {"17", []byte{1, 17}}, {"0x51", []byte{0x51}}, {"'aabb'", []byte{2, 0xaa, 0xbb}}, {"-1", []byte{0x4f}}}
		n := 2 + c.Pick("words", r.Q(5, 7))
		k := c.Pick("first", len(words))
		text, want := "", []byte{}
		for i := 0; i < n; i++ {
			w := words[(k+i)%len(words)]
			if i > 0 {
				text += []string{" ", "\n", "\t"}[c.Pick("separator", 3)]
			}
			text += w.text
			want = append(want, w.want...)
		}
		c.Step(1)
		c.Valid(1)
		if got, err := xvm.NewScriptBuilder().Load(text).Script(); err != nil || !bytes.Equal(got, want) {
			c.Fail("text", "Load(%q) = %x (%v), want %x", text, got, err, want)
		}
	})

	// quoted text: the data in hex, or an error
	r.Explore("quoted", mc.Opts{}, func(c *mc.Ctx) {
		n := 1 + c.Pick("length", r.Q(4, 6))
		text := ""
		for i := 0; i < n; i++ {
			text += []string{"a", "F", "1", "0", "G", "é"}[c.Pick("character", 6)]
		}
		ahead := []string{"", "OP_RETURN ", "'51' "}[c.Pick("before", 3)]
		var head []byte
		switch ahead {
		case "OP_RETURN ":
			head = []byte{0x6a}
		case "'51' ":
			head = []byte{1, 0x51}
		}
		c.Step(1)
		c.Valid(1)
		c.StateS(ahead + text)
		got, err := xvm.NewScriptBuilder().Load(ahead + "'" + text + "'").Script()
		data, herr := hex.DecodeString(text)
		if herr == nil {
			if err != nil || len(data) == 1 && data[0] == 0 {
				if err != nil {
					c.Fail("quoted", "Load(%q): error %v", ahead+"'"+text+"'", err)
				}
				return // one zero byte: add-data-zero-byte
			}
			if !bytes.Equal(got, cat(head, shortestPush(data))) {
				c.Fail("quoted", "Load(%q) = %x, want %x", ahead+"'"+text+"'", got, cat(head, shortestPush(data)))
			}
			return
		}
		if err == nil {
			if len(data) == 1 && data[0] == 0 {
				data = nil // add-data-zero-byte
			}
			if !bytes.Equal(got, cat(head, shortestPush(data))) {
				c.Fail("quoted", "Load(%q) = %x, want an error", ahead+"'"+text+"'", got)
			}
			c.Known("quoted-not-hex", "Load(%q) = %x without an error: what follows the first character that is not hex is dropped", ahead+"'"+text+"'", got)
		}
	})
}
