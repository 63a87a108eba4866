package props

import (
	"bytes"
	"fmt"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore"
)

func init() { mc.Register("C06", c06) }

// heldTx is a real transaction together with the pointers it was built from.
type heldTx struct {
	tx   *xcore.Transaction
	ins  []*xcore.TxIn
	outs []*xcore.TxOut
	nat  []bool
	m    *ref.Tx
}

func sameID(c *mc.Ctx, what string, tx *xcore.Transaction, m *ref.Tx) {
	c.Step(4)
	c.Valid(4)
	id, wid := m.ID(), m.WID()
	if got := tx.ID(); got != id {
		c.Fail("id", "%s: ID() = %s, want %s for %s", what, got, id, hx(m.Full()))
	}
	if got := tx.WitnessID(); got != wid {
		c.Fail("wid", "%s: WitnessID() = %s, want %s for %s", what, got, wid, hx(m.Full()))
	}
	if got := tx.Hash(); ref.RevHex(got) != id {
		c.Fail("hash", "%s: Hash() = %x, want the reverse of %s", what, got, id)
	}
	if got := tx.WitnessHash(); ref.RevHex(got) != wid {
		c.Fail("whash", "%s: WitnessHash() = %x, want the reverse of %s", what, got, wid)
	}
}

// one mutation of one field; wit tells that only witness data changes.
type txMut struct {
	name string
	wit  bool
	do   func(h *heldTx)
}

// txMuts lists every single-field mutation applicable to h. The code's object is changed through the pointers
// the caller holds and the setters, the model in step.
func txMuts(h *heldTx) []txMut {
	var o []txMut
	add := func(name string, wit bool, f func(h *heldTx)) { o = append(o, txMut{name, wit, f}) }
	add("version+1", false, func(h *heldTx) { h.m.Ver++; h.tx.SetVersion(h.m.Ver) })
	add("version^2^31", false, func(h *heldTx) { h.m.Ver ^= 1 << 31; h.tx.SetVersion(h.m.Ver) })
	add("lock+1", false, func(h *heldTx) { h.m.Lock++; h.tx.SetLockTime(h.m.Lock) })
	add("lock^2^24", false, func(h *heldTx) { h.m.Lock ^= 1 << 24; h.tx.SetLockTime(h.m.Lock) })
	for i := range h.ins {
		i := i
		n := fmt.Sprintf("in%d.", i)
		for _, b := range []int{0, 31} {
			b := b
			add(fmt.Sprintf("%shash[%d]", n, b), false, func(h *heldTx) { h.ins[i].Hash[b] ^= 1; h.m.In[i].Hash[b] ^= 1 })
		}
		add(n+"index^1", false, func(h *heldTx) { h.ins[i].Index ^= 1; h.m.In[i].Index ^= 1 })
		add(n+"index^2^31", false, func(h *heldTx) { h.ins[i].Index ^= 1 << 31; h.m.In[i].Index ^= 1 << 31 })
		add(n+"seq^1", false, func(h *heldTx) { h.ins[i].Sequence ^= 1; h.m.In[i].Seq ^= 1 })
		add(n+"seq^2^31", false, func(h *heldTx) { h.ins[i].Sequence ^= 1 << 31; h.m.In[i].Seq ^= 1 << 31 })
		if !h.nat[i] {
			add(n+"script+", false, func(h *heldTx) {
				h.ins[i].RawUnlockingScript = append(clone(h.ins[i].RawUnlockingScript), 0x51)
				h.m.In[i].Script = append(clone(h.m.In[i].Script), 0x51)
			})
			add(n+"script=", false, func(h *heldTx) {
				h.ins[i].RawUnlockingScript = []byte{0x52, 0x00}
				h.m.In[i].Script = []byte{0x52, 0x00}
			})
		} else {
			// the unlocking script of a segwit input lives in the witness
			add(n+"unlocking", true, func(h *heldTx) { h.ins[i].RawUnlockingScript = rep(0x53, 40) })
		}
		add(n+"witness+", true, func(h *heldTx) {
			h.ins[i].Witness = append(h.ins[i].Witness, []byte{9})
			h.m.In[i].Wit = append(h.m.In[i].Wit, []byte{9})
		})
		add(n+"witness-empty-item", true, func(h *heldTx) {
			h.ins[i].Witness = append(h.ins[i].Witness, []byte{})
			h.m.In[i].Wit = append(h.m.In[i].Wit, []byte{})
		})
		if len(h.ins[i].Witness) > 0 {
			add(n+"witness-bit", true, func(h *heldTx) {
				if len(h.ins[i].Witness) > 0 {
					h.ins[i].Witness[0] = append(clone(h.ins[i].Witness[0]), 1)
					h.m.In[i].Wit[0] = append(clone(h.m.In[i].Wit[0]), 1)
				}
			})
			add(n+"witness-drop", true, func(h *heldTx) { h.ins[i].Witness = nil; h.m.In[i].Wit = nil })
		}
	}
	for i := range h.outs {
		i := i
		n := fmt.Sprintf("out%d.", i)
		for _, bit := range []uint{0, 31, 32, 63} {
			bit := bit
			add(fmt.Sprintf("%svalue^2^%d", n, bit), false, func(h *heldTx) { h.outs[i].Value ^= 1 << bit; h.m.Out[i].Value ^= 1 << bit })
		}
		add(n+"script+", false, func(h *heldTx) {
			h.outs[i].Script = append(clone(h.outs[i].Script), 0)
			h.m.Out[i].Script = append(clone(h.m.Out[i].Script), 0)
		})
		add(n+"script=", false, func(h *heldTx) { h.outs[i].Script = []byte{0x6a}; h.m.Out[i].Script = []byte{0x6a} })
	}
	add("addinput", false, func(h *heldTx) {
		in := ref.TxIn{Hash: seq(0x80, 32), Index: 7, Seq: 0xfffffffd, Script: []byte{0x51}}
		x := realTxIn(in)
		h.tx.AddInput(x)
		h.ins, h.nat = append(h.ins, x), append(h.nat, false)
		h.m.In = append(h.m.In, in)
	})
	add("addoutput", false, func(h *heldTx) {
		o := ref.TxOut{Value: 77, Script: []byte{0x51}}
		y := xcore.NewTxOut(o.Value, clone(o.Script))
		h.tx.AddOutput(y)
		h.outs = append(h.outs, y)
		h.m.Out = append(h.m.Out, o)
	})
	return o
}

func newHeld(m *ref.Tx, nat []bool) *heldTx {
	h := &heldTx{m: m.Clone(), nat: append([]bool{}, nat...)}
	h.tx, h.ins, h.outs = realTx(h.m, nat)
	return h
}

func c06(r *mc.Run) {
	wits := [][][]byte{nil, {{}}, {seq(9, 71), seq(1, 33)}}
	mk := func(c *mc.Ctx, maxIn, maxOut int) *heldTx {
		m := &ref.Tx{Ver: 1, Lock: 0}
		var nat []bool
		n := c.Pick("inputs", maxIn) + 1
		for i := 0; i < n; i++ {
			in := ref.TxIn{Hash: seq(byte(i*7), 32), Index: uint32(i), Seq: 0xffffffff}
			k := c.Pick("input-kind", 5)
			switch k {
			case 0: // unsigned legacy
			case 1:
				in.Script = seq(5, 107)
			case 2, 3, 4:
				in.Wit = wits[k-2]
			}
			nat = append(nat, k >= 2)
			m.In = append(m.In, in)
		}
		for i, k := 0, c.Pick("outputs", maxOut+1); i < k; i++ {
			m.Out = append(m.Out, ref.TxOut{Value: uint64(i) * 5000000000, Script: seq(byte(i), 25*i)})
		}
		return newHeld(m, nat)
	}
	// every pair of mutations (a sequence of them; the second list is computed after the first was applied), with
	// the ids asked or not at every point, so that a digest kept from an earlier query shows.
	r.Explore("mutations", mc.Opts{}, func(c *mc.Ctx) {
		h := mk(c, 2, 2)
		ask := c.Pick("query before", 2)
		if ask == 1 {
			sameID(c, "built", h.tx, h.m)
		}
		first := txMuts(h)
		a := first[c.Pick("mutation 1", len(first))]
		id0, wid0 := h.m.ID(), h.m.WID()
		a.do(h)
		c.State(h.m.Full())
		if c.Pick("query between", 2) == 1 || !r.Quick() {
			sameID(c, "after "+a.name, h.tx, h.m)
			if (h.m.ID() == id0) != a.wit {
				c.Fail("model", "the model's id does not commit as stated: %s", a.name)
			}
			_ = wid0
		}
		second := txMuts(h)
		b := second[c.Pick("mutation 2", len(second))]
		b.do(h)
		c.State(h.m.Full())
		sameID(c, "after "+a.name+" and "+b.name, h.tx, h.m)
	})
	// outpoints and witnesses of a coinbase's look, and of nearly that look: the ids are those of the content
	r.Explore("outpoints", mc.Opts{}, func(c *mc.Ctx) {
		m := &ref.Tx{Ver: 1, Lock: []uint32{0, 0xffffffff}[c.Pick("lock", 2)]}
		var nat []bool
		hashes := [][]byte{make([]byte, 32), rep(0xff, 32), cat(make([]byte, 31), []byte{1}), cat([]byte{1}, make([]byte, 31))}
		for i, n := 0, c.Pick("inputs", 2)+1; i < n; i++ {
			in := ref.TxIn{Hash: hashes[c.Pick("hash", len(hashes))], Index: []uint32{0xffffffff, 0, 0xfffffffe}[c.Pick("index", 3)], Seq: []uint32{0xffffffff, 0}[c.Pick("sequence", 2)]}
			k := c.Pick("input-kind", 4)
			switch k {
			case 1:
				in.Script = cat([]byte{3}, seq(1, 3), rep(0, 20))
			case 2:
				in.Wit = [][]byte{make([]byte, 32)}
			case 3:
				in.Wit = [][]byte{seq(1, 70), seq(2, 33)}
			}
			nat = append(nat, k >= 2)
			m.In = append(m.In, in)
		}
		for i, n := 0, c.Pick("outputs", 2); i <= n; i++ {
			m.Out = append(m.Out, ref.TxOut{Value: []uint64{5000000000, 0}[i], Script: cat([]byte{0x6a, 36, 0xaa, 0x21, 0xa9, 0xed}, seq(1, 32))[:38*i]})
		}
		h := newHeld(m, nat)
		c.State(m.Full())
		sameID(c, "built", h.tx, h.m)
		tx := xcore.NewTransaction()
		if err := tx.Deserialize(m.Full()); err != nil {
			c.Fail("parse", "parsing %s: %v", hx(m.Full()), err)
		}
		sameID(c, "parsed", tx, m)
	})
	// counts around the changes of their encoding
	r.Explore("many", mc.Opts{}, func(c *mc.Ctx) {
		counts := []int{1, 33, 252, 253, 254, 300}
		m := &ref.Tx{Ver: 1, Lock: 9}
		var nat []bool
		n, w := counts[c.Pick("inputs", len(counts))], c.Pick("witnesses", 4)
		for i := 0; i < n; i++ {
			in := ref.TxIn{Hash: seq(byte(i*7), 32), Index: uint32(i), Seq: 0xffffffff}
			if wit := w == 1 || w == 2 && i == n-1 || w == 3 && i%2 == 0; wit {
				in.Wit = [][]byte{seq(9, 71), seq(1, 33)}
			} else {
				in.Script = seq(5, 107)
			}
			nat = append(nat, in.Wit != nil)
			m.In = append(m.In, in)
		}
		for i, k := 0, counts[c.Pick("outputs", len(counts))]; i < k; i++ {
			m.Out = append(m.Out, ref.TxOut{Value: uint64(i), Script: seq(byte(i), i%25)})
		}
		h := newHeld(m, nat)
		c.State(m.Full())
		sameID(c, "built", h.tx, h.m)
		tx := xcore.NewTransaction()
		if err := tx.Deserialize(m.Full()); err != nil {
			c.Fail("parse", "parsing %d inputs, %d outputs: %v", n, len(m.Out), err)
		}
		sameID(c, "parsed", tx, m)
	})
	// after parsing, the ids are those of the bytes; and queries do not disturb later ones.
	r.Explore("parsed", mc.Opts{}, func(c *mc.Ctx) {
		h := mk(c, r.Q(2, 3), 2)
		tx := xcore.NewTransaction()
		legacy := c.Bool("parse the stripped form")
		m := h.m
		data := m.Full()
		if legacy {
			m = stripWit(m)
			data = m.Legacy()
		}
		err := tx.Deserialize(data)
		c.Check(err == nil, "parse", "parsing %s: %v", hx(data), err)
		c.State(data)
		sameID(c, "parsed", tx, m)
		// re-attach spent outputs of every kind: nothing on the wire changes
		n := c.Pick("attach kind", 4)
		for i := range m.In {
			lock := refLocking(n, rep(7, kindLen(n)))
			red := []byte{0x51}
			if err := tx.SetTxIn(i, 5, lock, red); err == nil {
				if len(m.In[i].Script) > 0 && (n == kWPKH || n == kWSH) {
					c.Fail("attach", "a witness output was attached to an input with a scriptSig")
				}
			}
		}
		sameID(c, "parsed, attached", tx, m)
		switch c.Pick("then", 4) {
		case 0:
			m.Ver = 9
			tx.SetVersion(9)
		case 1:
			m.Lock = 9
			tx.SetLockTime(9)
		case 2:
			m.Out = append(m.Out, ref.TxOut{Value: 1})
			tx.AddOutput(xcore.NewTxOut(1, nil))
		case 3:
			in := ref.TxIn{Hash: seq(3, 32), Wit: [][]byte{{1}}}
			m.In = append(m.In, in)
			tx.AddInput(realTxIn(in))
		}
		sameID(c, "parsed, then changed", tx, m)
	})
	// signing: the id never depends on witness signatures
	r.Explore("signing", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("inputs", r.Q(2, 3)) + 1
		s := newSpendTx()
		for i := 0; i < n; i++ {
			s.add(spendKinds[c.Pick("kind", len(spendKinds))])
		}
		ht := sigHashTypes[c.Pick("hash type", len(sigHashTypes))]
		order := c.Pick("order", 2)
		s.outputs(2)
		before := s.model()
		sameID(c, "unsigned", s.tx, before)
		id := s.tx.ID()
		for j := 0; j < n; j++ {
			i := j
			if order == 1 {
				i = n - 1 - j
			}
			err := s.sign(i, ht)
			c.Check(err == nil, "sign", "signing input %d (%s): %v", i, s.kinds[i].name, err)
			m := s.model()
			sameID(c, fmt.Sprintf("signed input %d (%s)", i, s.kinds[i].name), s.tx, m)
			now := s.tx.ID()
			if (now == id) != s.kinds[i].witness {
				c.Fail("id-signing", "signing input %d (%s) with hash type %x: id %s -> %s", i, s.kinds[i].name, ht, id, now)
			}
			id = now
		}
		m := s.model()
		c.State(m.Full())
		if !bytes.Equal(s.tx.Serialize(), m.Full()) {
			c.Fail("serialize", "signed transaction serializes to %s, want %s", hx(s.tx.Serialize()), hx(m.Full()))
		}
		tx := xcore.NewTransaction()
		err := tx.Deserialize(m.Full())
		c.Check(err == nil, "parse", "parsing a signed transaction: %v", err)
		sameID(c, "reparsed", tx, m)
	})
	// id text
	r.Explore("id-text", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("length", 46)
		if n > 40 {
			n = []int{63, 64, 65, 66, 67}[n-41]
		}
		pat := c.Pick("pattern", 4)
		b := make([]byte, n)
		for i := range b {
			b[i] = []byte{0, 0xff, byte(i), byte(0xa0 + 17*i)}[pat]
		}
		in := clone(b)
		s := xbase.NewIDToString(in)
		c.Valid(3)
		c.StateS(s)
		c.Check(s == ref.RevHex(b), "to-string", "NewIDToString(%x) = %s", b, s)
		c.Check(bytes.Equal(in, b), "input-modified", "NewIDToString changed its input %x to %x", b, in)
		back, err := xbase.NewIDFromString(s)
		c.Check(err == nil && bytes.Equal(back, b), "from-string", "NewIDFromString(%s) = %x, %v, want %x", s, back, err, b)
		if n > 0 {
			for i := 0; i < len(s); i++ {
				for _, x := range []byte("g /:@`G\x00\xff") {
					t := []byte(s)
					t[i] = x
					if _, err := xbase.NewIDFromString(string(t)); err == nil {
						c.Fail("from-string-bad", "NewIDFromString(%q) accepted", t)
					}
				}
			}
			if _, err := xbase.NewIDFromString(s[1:]); err == nil {
				c.Fail("from-string-odd", "NewIDFromString(%q) accepted", s[1:])
			}
		}
	})
}
