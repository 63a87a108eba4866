package props

import (
	"fmt"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xcore"
)

func init() { mc.Register("C05", c05) }

func c05(r *mc.Run) {
	small := r.Quick()
	vers := []uint32{1, 2, 0xffffffff, 0}
	locks := []uint32{0, 500000000, 0xffffffff}
	scripts := [][]byte{nil, {0x51}, seq(3, 107), rep(0xfe, 253)}
	wits := [][][]byte{nil, {{}}, {seq(9, 71), seq(1, 33)}, {{}, {0}, rep(7, 253)}}
	outsA := []ref.TxOut{{Value: 0, Script: nil}, {Value: 1<<64 - 1, Script: seq(0x76, 25)}, {Value: 5000000000, Script: rep(0, 253)}}
	seqs := []uint32{0xffffffff, 0, 0xfffffffe}

	// receivers that already hold another transaction
	prior := []func() *xcore.Transaction{
		func() *xcore.Transaction { return xcore.NewTransaction() },
		func() *xcore.Transaction {
			tx, _, _ := realTx(&ref.Tx{Ver: 9, Lock: 9, In: []ref.TxIn{{Hash: seq(1, 32), Wit: [][]byte{{1}}}, {Hash: seq(2, 32), Script: []byte{1}}, {Hash: seq(2, 32)}, {Hash: seq(4, 32)}},
				Out: []ref.TxOut{{Value: 1}, {Value: 2}, {Value: 3, Script: []byte{2}}, {Value: 4}}}, []bool{true, false, false, true})
			_ = tx.WitnessV0SignatureHash(0, xcore.SigHashAll)
			return tx
		},
		func() *xcore.Transaction {
			tx := xcore.NewTransaction()
			_ = tx.Deserialize((&ref.Tx{Ver: 7, In: []ref.TxIn{{Hash: seq(1, 32), Wit: [][]byte{{1}, {2}}}}, Out: []ref.TxOut{{Value: 1}}}).Full())
			return tx
		},
		func() *xcore.Transaction { // a parse that failed half way
			tx := xcore.NewTransaction()
			b := (&ref.Tx{Ver: 7, In: []ref.TxIn{{Hash: seq(1, 32), Wit: [][]byte{{1}, {2}}}}, Out: []ref.TxOut{{Value: 1}, {Value: 2}}}).Full()
			_ = tx.Deserialize(b[:len(b)-9])
			return tx
		},
	}
	// roundTrips runs every parser over the encodings, into every receiver, and chains them.
	roundTrips := func(c *mc.Ctx, m *ref.Tx, full bool) {
		for pi, mk := range prior {
			if !full && pi > 1 {
				break
			}
			for enc := 0; enc < 2; enc++ {
				want, data := m, m.Full()
				if enc == 1 {
					want, data = stripWit(m), m.Legacy()
				}
				for dec := 0; dec < 2; dec++ {
					if dec == 0 && len(m.In) == 0 {
						continue // no inputs: the legacy encoding starts like a witness marker; only the legacy parser can read it
					}
					if dec == 1 && want.HasWit() {
						continue // the legacy parser is not given the witness format
					}
					what := fmt.Sprintf("receiver %d, encoding %d, parser %d", pi, enc, dec)
					tx := mk()
					in := clone(data)
					var err error
					if dec == 0 {
						err = tx.Deserialize(in)
					} else {
						err = tx.DeserializeNoWitness(in)
					}
					c.Step(1)
					c.Valid(1)
					c.Check(err == nil, "parse", "%s: parsing %s: %v", what, hx(data), err)
					for i := range in {
						in[i] ^= 0x5a // the result must not alias the caller's bytes
					}
					sameTx(c, what, tx, want)
					// and once more from what it produced, into the same object
					if full {
						again := tx.Serialize()
						if len(want.In) > 0 {
							err = tx.Deserialize(again)
						} else {
							err = tx.DeserializeNoWitness(again)
						}
						c.Check(err == nil, "reparse", "%s: parsing its own bytes again: %v", what, err)
						sameTx(c, what+", again", tx, want)
					}
				}
			}
		}
	}
	mkIn := func(c *mc.Ctx, i int, rich bool) (ref.TxIn, bool) {
		in := ref.TxIn{Hash: seq(byte(0x10+i), 32), Index: uint32(i), Seq: seqs[0]}
		kinds := 4
		k := c.Pick("witness", kinds)
		in.Wit = wits[k]
		native := c.Bool("native")
		if !native {
			n := len(scripts)
			if !rich {
				n = 2
			}
			in.Script = scripts[c.Pick("script", n)]
		}
		if rich {
			in.Seq = seqs[c.Pick("sequence", len(seqs))]
			in.Index = []uint32{0, 1, 0xffffffff}[c.Pick("index", 3)]
		}
		return in, native
	}
	r.Explore("one-input", mc.Opts{}, func(c *mc.Ctx) {
		m := &ref.Tx{Ver: vers[c.Pick("version", len(vers))], Lock: locks[c.Pick("locktime", len(locks))]}
		in, nat := mkIn(c, 0, true)
		m.In = []ref.TxIn{in}
		for i, n := 0, c.Pick("outputs", 3); i < n; i++ {
			m.Out = append(m.Out, outsA[c.Pick("output", len(outsA))])
		}
		tx, _, _ := realTx(m, []bool{nat})
		c.State(m.Full())
		sameTx(c, "built", tx, m)
		roundTrips(c, m, true)
	})
	r.Explore("inputs-and-outputs", mc.Opts{}, func(c *mc.Ctx) {
		m := &ref.Tx{Ver: 2, Lock: 3}
		var nat []bool
		n := c.Pick("inputs", 4)
		for i := 0; i < n; i++ {
			in, x := mkIn(c, i, false)
			m.In = append(m.In, in)
			nat = append(nat, x)
		}
		k := c.Pick("outputs", r.Q(3, 4))
		for i := 0; i < k; i++ {
			m.Out = append(m.Out, outsA[c.Pick("output", len(outsA))])
		}
		tx, _, _ := realTx(m, nat)
		c.State(m.Full())
		sameTx(c, "built", tx, m)
		roundTrips(c, m, true)
	})
	// every witness of up to four (five) items over small items, empty ones included, in the first or the second input
	items := [][]byte{{}, {0}, {1}, {0, 0}, seq(9, 72)}
	r.Explore("witness-shapes", mc.Opts{}, func(c *mc.Ctx) {
		m := &ref.Tx{Ver: 2, Lock: 3, In: []ref.TxIn{{Hash: seq(1, 32), Seq: 5}, {Hash: seq(2, 32), Index: 3, Seq: 6}}, Out: []ref.TxOut{{Value: 1, Script: []byte{0x51}}}}
		at := c.Pick("input", 2)
		switch c.Pick("other input", 3) {
		case 1:
			m.In[1-at].Wit = [][]byte{{}}
		case 2:
			m.In[1-at].Script = []byte{0}
		}
		for i, n := 0, c.Pick("items", r.Q(5, 6)); i < n; i++ {
			m.In[at].Wit = append(m.In[at].Wit, items[c.Pick("item", len(items))])
		}
		tx, _, _ := realTx(m, nil)
		c.State(m.Full())
		sameTx(c, "built", tx, m)
		roundTrips(c, m, false)
	})
	// the only witness of a transaction with many inputs, at every position
	r.Explore("lone-witness", mc.Opts{}, func(c *mc.Ctx) {
		n := []int{1, 2, 3, 17, 64, 252, 253, 254, 260}[c.Pick("inputs", 9)]
		w := wits[1+c.Pick("witness", 3)]
		m := &ref.Tx{Ver: 2, Lock: 3, Out: []ref.TxOut{{Value: 1, Script: []byte{0x51}}}}
		for i := 0; i < n; i++ {
			m.In = append(m.In, ref.TxIn{Hash: seq(byte(i), 32), Index: uint32(i), Seq: uint32(i)})
		}
		for i := 0; i < n; i++ {
			m.In[i].Wit = w
			tx, _, _ := realTx(m, nil)
			if i%16 == 0 {
				c.State(m.Full())
			}
			sameTx(c, "built", tx, m)
			if i < 2 || i > n-3 || n < 20 {
				roundTrips(c, m, false)
			}
			m.In[i].Wit = nil
		}
	})
	// CompactSize boundaries of every count and length, one and two at a time
	type dim struct {
		name string
		set  func(m *ref.Tx, n int)
		lim  int
	}
	dims := []dim{
		{"script-length", func(m *ref.Tx, n int) { m.In[0].Script = rep(0x33, n) }, 1 << 20},
		{"output-script-length", func(m *ref.Tx, n int) { m.Out[0].Script = rep(0x44, n) }, 1 << 20},
		{"witness-item-length", func(m *ref.Tx, n int) { m.In[0].Wit = append(m.In[0].Wit, rep(0x55, n)) }, 1 << 20},
		{"witness-items", func(m *ref.Tx, n int) {
			w := m.In[len(m.In)-1].Wit
			for i := 0; i < n; i++ {
				w = append(w, []byte{byte(i)})
			}
			m.In[len(m.In)-1].Wit = w
		}, 70000},
		{"inputs", func(m *ref.Tx, n int) {
			for len(m.In) < n {
				m.In = append(m.In, ref.TxIn{Hash: seq(byte(len(m.In)), 32), Index: uint32(len(m.In)), Seq: uint32(len(m.In))})
			}
		}, r.Q(300, 66000)},
		{"outputs", func(m *ref.Tx, n int) {
			for len(m.Out) < n {
				m.Out = append(m.Out, ref.TxOut{Value: uint64(len(m.Out)), Script: []byte{byte(len(m.Out))}})
			}
		}, r.Q(300, 66000)},
	}
	lens := []int{0, 1, 251, 252, 253, 254, 255, 256, 65534, 65535, 65536, 65537, 70000}
	r.Explore("boundaries", mc.Opts{}, func(c *mc.Ctx) {
		i := c.Pick("dimension", len(dims))
		j := i + c.Pick("second", len(dims)-i)
		ni := lens[c.Pick("size", len(lens))]
		nj := 0
		if j > i {
			nj = lens[c.Pick("size2", len(lens))]
			if small && ni > 60000 && nj > 60000 {
				c.Skip()
			}
		}
		if ni > dims[i].lim || nj > dims[j].lim {
			c.Skip()
		}
		m := &ref.Tx{Ver: 1, Lock: 0x01020304, In: []ref.TxIn{{Hash: seq(1, 32), Seq: 5}}, Out: []ref.TxOut{{Value: 1}}}
		dims[i].set(m, ni)
		if j > i {
			dims[j].set(m, nj)
		}
		tx, _, _ := realTx(m, nil)
		c.StateU(uint64(i), uint64(j), uint64(ni), uint64(nj))
		sameTx(c, "built", tx, m)
		roundTrips(c, m, false)
	})
	// parse anything else into the object in between: all sequences of parses into one object
	pool := []*ref.Tx{
		{Ver: 1, In: []ref.TxIn{{Hash: seq(1, 32), Script: []byte{1, 2}, Seq: 1}}, Out: []ref.TxOut{{Value: 1, Script: []byte{9}}}},
		{Ver: 2, Lock: 9, In: []ref.TxIn{{Hash: seq(2, 32), Seq: 2, Wit: [][]byte{{1}, {2, 3}}}, {Hash: seq(3, 32), Script: []byte{4}}}, Out: []ref.TxOut{{Value: 2}, {Value: 3}}},
		{Ver: 3, In: []ref.TxIn{{Hash: seq(4, 32)}, {Hash: seq(5, 32), Wit: [][]byte{{}}}, {Hash: seq(6, 32)}}},
		{Ver: 4, Out: []ref.TxOut{{Value: 7}}},
		{Ver: 5, Lock: 5},
		{Ver: 6, In: []ref.TxIn{{Hash: seq(8, 32), Seq: 8}}},
	}
	r.Explore("reuse-sequences", mc.Opts{}, func(c *mc.Ctx) {
		tx := xcore.NewTransaction()
		n := 1 + c.Pick("length", r.Q(4, 5))
		var m *ref.Tx
		for i := 0; i < n; i++ {
			switch op := c.Pick("op", len(pool)*2+2); {
			case op < len(pool):
				m = pool[op].Clone()
				if len(m.In) == 0 {
					c.Skip()
				}
				c.Check(tx.Deserialize(m.Full()) == nil, "parse", "step %d: Deserialize(%x) failed", i, m.Full())
			case op < 2*len(pool):
				m = stripWit(pool[op-len(pool)])
				c.Check(tx.DeserializeNoWitness(m.Legacy()) == nil, "parse", "step %d: DeserializeNoWitness(%x) failed", i, m.Legacy())
			case op == 2*len(pool):
				if m == nil {
					c.Skip()
				}
				m = m.Clone()
				in := ref.TxIn{Hash: seq(0x77, 32), Index: 7, Seq: 7, Wit: [][]byte{{7}}}
				m.In = append(m.In, in)
				tx.AddInput(realTxIn(in))
			default:
				if m == nil {
					c.Skip()
				}
				m = m.Clone()
				m.Out = append(m.Out, ref.TxOut{Value: 77, Script: []byte{7}})
				tx.AddOutput(xcore.NewTxOut(77, []byte{7}))
			}
			c.Step(1)
			sameTx(c, fmt.Sprintf("step %d", i), tx, m)
		}
		c.State(m.Full())
	})
	// truncated encodings are not transactions
	r.Explore("truncations", mc.Opts{}, func(c *mc.Ctx) {
		m := pool[c.Pick("tx", len(pool))]
		legacy := c.Bool("legacy")
		data := m.Full()
		if legacy {
			data = m.Legacy()
		} else if len(m.In) == 0 {
			c.Skip()
		}
		k := c.Pick("cut", len(data))
		tx := xcore.NewTransaction()
		var err error
		if legacy {
			err = tx.DeserializeNoWitness(data[:k])
		} else {
			err = tx.Deserialize(data[:k])
		}
		c.Step(1)
		c.Valid(1)
		c.State(data[:k])
		c.Check(err != nil, "truncated", "first %d of %d bytes of %x parsed", k, len(data), data)
	})
}
