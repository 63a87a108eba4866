package props

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xprotocol"
	"github.com/keyfuse/tokucore/xvm"
)

func init() { mc.Register("C37", c37) }

var field37 = regexp.MustCompile(`"(\w+)":\s*("([^"]*)"|[^\s,"]+)`)

// want37 is what the printed form of a transaction must say.
type want37 struct {
	key, text string
	num       float64
	isNum     bool // to two decimals
	any       bool
}

// spent37 is what is known of an input beyond its wire form.
type spent37 struct {
	value                  uint64
	locking, final, redeem []byte
	script, code, sighash  []byte // script: the unlocking script; code: the witness script code, nil without
}

func fields37(c *mc.Ctx, what string, tx *xcore.Transaction, m *ref.Tx, sp []spent37) {
	before := tx.Serialize()
	text := tx.ToString()
	c.Step(1)
	c.Valid(1)
	if !bytes.Equal(before, tx.Serialize()) || tx.ToString() != text {
		c.Fail("changed", "%s: printing the transaction changed it", what)
	}
	var want []want37
	str := func(k, v string) { want = append(want, want37{key: k, text: v}) }
	num := func(k string, f float64) { want = append(want, want37{key: k, num: f, isNum: true}) }
	dis := func(k string, b []byte) { str(k, strings.Join(strings.Fields(xvm.DisasmString(b)), " ")) }
	str("inputs", "[")
	in, out := new(big.Int), new(big.Int)
	for i, x := range m.In {
		s := sp[i]
		in.Add(in, new(big.Int).SetUint64(s.value))
		str("hash", ref.RevHex(x.Hash))
		str("n", strconv.FormatUint(uint64(x.Index), 10))
		str("Value", strconv.FormatUint(s.value, 10))
		dis("rawlocking", s.locking)
		dis("finallocking", s.final)
		dis("rawunlocking", s.script)
		if s.redeem != nil {
			dis("redeemscript", s.redeem)
			str("redeemhex", fmt.Sprintf("%x", s.redeem))
		}
		dis("script", s.script)
		str("sighash", fmt.Sprintf("%x", s.sighash))
		if s.code != nil {
			w := ""
			if len(x.Wit) > 0 {
				w = fmt.Sprintf("%x", x.Wit[0])
			}
			str("witness", w)
			str("scriptcode", fmt.Sprintf("%x", s.code))
		}
	}
	str("outputs", "[")
	for _, o := range m.Out {
		out.Add(out, new(big.Int).SetUint64(o.Value))
		str("value", strconv.FormatUint(o.Value, 10))
		dis("script", o.Script)
	}
	base, size := len(m.Legacy()), len(m.Full())
	weight := 3*base + size
	fees := in.Sub(in, out)
	str("basesize", fmt.Sprint(base))
	str("witsize", fmt.Sprint(size-base))
	str("vsize", fmt.Sprint((weight+3)/4))
	str("size", fmt.Sprint(size))
	str("weight", fmt.Sprint(weight))
	str("fees", fees.String())
	num("feesperb", float64(fees.Int64())/float64(size))
	if !fees.IsInt64() { // amounts beyond all money: no such fee can be stated
		want[len(want)-2].any, want[len(want)-1].any = true, true
	}
	num("saving", 100*float64(size-base)/float64(size))

	got := field37.FindAllStringSubmatch(text, -1)
	for i, w := range want {
		if i >= len(got) {
			c.Fail("missing", "%s: the text ends before %q (%d fields)", what, w.key, len(got))
		}
		v := got[i][2]
		if strings.HasPrefix(v, `"`) {
			v = strings.Join(strings.Fields(got[i][3]), " ")
		}
		if got[i][1] != w.key {
			c.Fail("field", "%s: field %d of the text is %q, want %q", what, i, got[i][1], w.key)
		}
		if w.any {
			continue
		}
		if w.isNum {
			f, err := strconv.ParseFloat(v, 64)
			if err != nil || math.Abs(f-w.num) > 0.0051+math.Abs(w.num)*1e-12 {
				c.Fail("number", "%s: field %d of the text, %s, is %s, want %.4f", what, i, w.key, v, w.num)
			}
			continue
		}
		if v != w.text {
			c.Fail("value", "%s: field %d of the text, %s, is %s, want %s", what, i, w.key, v, w.text)
		}
	}
	if len(got) > len(want) {
		c.Fail("more", "%s: the text has the field %q at its end", what, got[len(want)][0])
	}
	c.StateS(text)
}

func (s *spendTx) fields37(c *mc.Ctx, what string, tx *xcore.Transaction, sighash [][]byte, attached func(i int) bool, signed bool) {
	m := s.model()
	var sp []spent37
	for i, k := range s.kinds {
		x := spent37{sighash: sighash[i]}
		if signed || attached(i) {
			x.script = k.in.RawUnlockingScript
		} else {
			x.script = m.In[i].Script
		}
		if attached(i) {
			x.value, x.locking, x.redeem, x.final = k.value, k.locking, k.redeem, k.in.FinalLockingScript
			if k.witness {
				x.code = k.code
			}
		}
		sp = append(sp, x)
	}
	fields37(c, what, tx, m, sp)
}

func c37(r *mc.Run) {
	r.Assume("the disassembly of a script is the one property C13 decides; amounts of payments and coins may be any")
	all := func(int) bool { return true }
	r.Explore("signed", mc.Opts{}, func(c *mc.Ctx) {
		s := newSpendTx()
		n := 1 + c.Pick("inputs", r.Q(2, 3))
		what := ""
		for i := 0; i < n; i++ {
			k := spendKinds[c.Pick("kind", len(spendKinds))]
			s.add(k)
			what += k.name + ","
		}
		s.outputs(c.Pick("outputs", 4))
		hashes := make([][]byte, n)
		s.fields37(c, what+" unsigned", s.tx, hashes, all, true)
		order := perms(n)[c.Pick("order", len(perms(n)))]
		for j, i := range order {
			ht := sigHashTypes[(i+n)%6]
			if int(ht)&0x1f == 3 && i >= len(s.outs) {
				ht = xcore.SigHashAll
			}
			if err := s.sign(i, ht); err != nil {
				c.Fail("sign", "%s: %v", what, err)
			}
			hashes[i] = s.sigHash(s.model(), i, uint32(ht))
			s.fields37(c, fmt.Sprintf("%s with %d inputs signed", what, j+1), s.tx, hashes, all, true)
		}
		tx := xcore.NewTransaction()
		if err := tx.Deserialize(s.model().Full()); err != nil {
			c.Fail("parse", "%s: %v", what, err)
		}
		none := make([][]byte, n)
		s.fields37(c, what+" parsed", tx, none, func(int) bool { return false }, false)
		done := map[int]bool{}
		for _, i := range order {
			k := s.kinds[i]
			if err := tx.SetTxIn(i, k.value, clone(k.locking), cloneN(k.redeem)); err != nil {
				c.Fail("attach", "%s: %v", what, err)
			}
			done[i] = true
			s.fields37(c, what+" parsed, partly re-attached", tx, none, func(i int) bool { return done[i] }, false)
		}
	})

	amounts := []uint64{0, 1, 546, 99999999, 100000000, 2099999997690000, 1 << 32, 1<<53 + 1, 1<<62 + 1, 1 << 63, 1<<64 - 1}
	r.Explore("amounts", mc.Opts{}, func(c *mc.Ctx) {
		m := &ref.Tx{Ver: uint32(c.Pick("version", 3)), Lock: []uint32{0, 1<<32 - 1}[c.Pick("lock", 2)]}
		var sp []spent37
		tx := xcore.NewTransaction()
		tx.SetVersion(m.Ver)
		tx.SetLockTime(m.Lock)
		nin, nout := c.Pick("inputs", 3), c.Pick("outputs", r.Q(2, 3))
		for i := 0; i < nin; i++ {
			v := amounts[c.Pick("coin", len(amounts))]
			idx := []uint32{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}[(uint64(i+nout)+v%5)%5]
			lock := refLocking(kPKH, rep(byte(i+1), 20))
			x, err := xcore.NewTxIn(seq(byte(7*i), 32), idx, v, clone(lock), nil)
			if err != nil {
				c.Fail("txin", "NewTxIn: %v", err)
			}
			tx.AddInput(x)
			m.In = append(m.In, ref.TxIn{Hash: seq(byte(7*i), 32), Index: idx, Seq: x.Sequence})
			sp = append(sp, spent37{value: v, locking: lock, final: x.FinalLockingScript})
		}
		for i := 0; i < nout; i++ {
			o := ref.TxOut{Value: amounts[c.Pick("payment", len(amounts))], Script: [][]byte{refLocking(i, rep(9, kindLen(i))), {}, {0x6a, 0x4c}, opReturn(seq(1, 80))}[c.Pick("script", 4)]}
			m.Out = append(m.Out, o)
			tx.AddOutput(xcore.NewTxOut(o.Value, clone(o.Script)))
		}
		fields37(c, fmt.Sprintf("%d inputs, %d outputs", nin, nout), tx, m, sp)
	})

	// The names of inventory types.
	names := map[uint32]string{0: "ERROR", 1: "MSG_TX", 2: "MSG_BLOCK", 3: "MSG_FILTERED_BLOCK"}
	r.Explore("inventory-types", mc.Opts{}, func(c *mc.Ctx) {
		k := uint32(c.Pick("type", 65536+64))
		vals := []uint32{k, k << 16, k<<16 | 0xffff}
		if k >= 65536 {
			vals = []uint32{1 << ((k - 65536) % 32), 1<<((k-65536)%32) + 3}
		}
		for _, v := range vals {
			c.Step(1)
			c.Valid(1)
			want, ok := names[v]
			got := xprotocol.InvType(v).String()
			if !ok {
				want = fmt.Sprintf("Unknown.InvType(%d)", v)
			}
			if got != want {
				c.Fail("inventory-type", "InvType(%d).String() = %q, want %q", v, got, want)
			}
		}
	})
}
