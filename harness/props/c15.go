package props

import (
	"fmt"
	"math"
	"math/big"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xcore"
)

func init() { mc.Register("C15", c15) }

// sizesOf compares every reported size with the lengths of the encodings.
func sizesOf(c *mc.Ctx, what string, tx *xcore.Transaction, m *ref.Tx) {
	c.Step(1)
	c.Valid(1)
	full, base := len(tx.Serialize()), len(tx.SerializeNoWitness())
	if m != nil {
		if f, b := len(m.Full()), len(m.Legacy()); f != full || b != base {
			c.Fail("encoding", "%s: the encodings have %d and %d bytes, want %d and %d", what, full, base, f, b)
		}
	}
	if n := tx.BaseSize(); n != base {
		c.Fail("base", "%s: BaseSize() = %d, the witness-stripped encoding has %d bytes", what, n, base)
	}
	if n := tx.Size(); n != full {
		c.Fail("size", "%s: Size() = %d, the encoding has %d bytes", what, n, full)
	}
	if n := tx.WitnessSize(); n != full-base {
		c.Fail("witness", "%s: WitnessSize() = %d, want %d - %d", what, n, full, base)
	}
	if n := tx.Weight(); n != 3*base+full {
		c.Fail("weight", "%s: Weight() = %d, want 3*%d+%d", what, n, base, full)
	}
	if n := tx.Vsize(); n != (3*base+full+3)/4 {
		c.Fail("vsize", "%s: Vsize() = %d, want %d/4 rounded up", what, n, 3*base+full)
	}
	c.StateU(uint64(full), uint64(base))
}

func ciLen(n int) int {
	switch {
	case n < 253:
		return 1
	case n < 65536:
		return 3
	}
	return 5
}

// pinnedEstimate is the size formula whose value the existing tests pin (transaction ids and a fee of 192):
// it leaves out the change output, the length byte of every output script, the outpoint and sequence of witness
// inputs, the witness signature and key themselves, and treats every input as a one-key spend.
func pinnedEstimate(witness []bool, outLens []int, push int) int64 {
	base := 4 + ciLen(len(witness)) + ciLen(len(outLens)) + 4
	wit, any := 0, false
	for _, w := range witness {
		any = any || w
		if !w {
			base += 149
		}
	}
	for _, l := range outLens {
		base += 8 + l
	}
	if any {
		for _, w := range witness {
			if w {
				wit += 3
			} else {
				wit++
			}
		}
	}
	return int64((4*base+wit)/4 + push)
}

// ceilRate is size*rate/1000 rounded up.
func ceilRate(size, rate int64) *big.Int {
	p := new(big.Int).Mul(big.NewInt(size), big.NewInt(rate))
	p.Add(p, big.NewInt(999))
	return p.Div(p, big.NewInt(1000))
}

func c15(r *mc.Run) {
	lens := []int{0, 1, 25, 107, 252, 253, 254}
	bigLens := []int{65535, 65536}
	stacks := [][]int{nil, {}, {0}, {1, 0}, {72, 33}, {0, 72, 72, 252}, {253}, {65535, 65536}}
	r.Explore("shapes", mc.Opts{}, func(c *mc.Ctx) {
		m := &ref.Tx{Ver: 1}
		var native []bool
		nin := c.Pick("inputs", r.Q(3, 4))
		for i := 0; i < nin; i++ {
			in := ref.TxIn{Hash: rep(byte(i), 32)}
			nat := c.Bool("witness input")
			if !nat {
				k := c.Pick("script", r.Q(5, 9)-nin/3*2)
				in.Script = rep(0x51, append(append([]int{}, 0, 107, 252, 253, 65536), append(lens[1:3], bigLens...)...)[k])
			}
			for _, l := range stacks[c.Pick("stack", len(stacks))] {
				in.Wit = append(in.Wit, rep(7, l))
			}
			native = append(native, nat)
			m.In = append(m.In, in)
		}
		nout := c.Pick("outputs", 3)
		for _, l := range append(append([]int{}, lens...), bigLens...) {
			m.Out = nil
			for i := 0; i < nout; i++ {
				m.Out = append(m.Out, ref.TxOut{Value: uint64(i), Script: rep(0x52, l)})
			}
			tx, _, _ := realTx(m, native)
			sizesOf(c, fmt.Sprintf("%d inputs %v, %d outputs of %d", nin, native, nout, l), tx, m)
			if nout == 0 {
				break
			}
		}
	})
	r.Explore("counts", mc.Opts{}, func(c *mc.Ctx) {
		counts := []int{1, 2, 251, 252, 253, 254, 300}
		if !r.Quick() {
			counts = append(counts, 65535, 65536)
		}
		m := &ref.Tx{Ver: 2, Lock: 5}
		nin := counts[c.Pick("inputs", len(counts))]
		nout := counts[c.Pick("outputs", len(counts))]
		k := c.Pick("witness", 4) // none, first, last, all
		items := []int{0, 1, 252, 253}[c.Pick("items", 4)]
		if k == 0 && items > 0 {
			c.Skip()
		}
		if nin*items > 2000000 {
			c.Skip()
		}
		native := make([]bool, nin)
		for i := 0; i < nin; i++ {
			in := ref.TxIn{Hash: rep(byte(i), 32)}
			native[i] = k == 3 || k == 1 && i == 0 || k == 2 && i == nin-1
			if native[i] {
				for j := 0; j < items; j++ {
					in.Wit = append(in.Wit, []byte{byte(j)})
				}
			} else {
				in.Script = rep(1, i%5)
			}
			m.In = append(m.In, in)
		}
		for i := 0; i < nout; i++ {
			m.Out = append(m.Out, ref.TxOut{Script: rep(2, i%3)})
		}
		tx, _, _ := realTx(m, native)
		sizesOf(c, fmt.Sprintf("%d inputs, %d outputs, witness on %d, %d items", nin, nout, k, items), tx, m)
	})
	r.Explore("signing", mc.Opts{}, func(c *mc.Ctx) {
		s := newSpendTx()
		n := 1 + c.Pick("inputs", r.Q(2, 3))
		what := ""
		for i := 0; i < n; i++ {
			k := spendKinds[c.Pick("kind", len(spendKinds))]
			s.add(k)
			what += k.name + ","
		}
		s.outputs(1 + c.Pick("outputs", 2))
		sizesOf(c, what+" unsigned", s.tx, s.model())
		order := perms(n)[c.Pick("order", len(perms(n)))]
		for j, i := range order {
			ht := sigHashTypes[(i+n)%6]
			if err := s.sign(i, ht); err != nil {
				c.Fail("sign", "%s: %v", what, err)
			}
			sizesOf(c, fmt.Sprintf("%s with %d inputs signed", what, j+1), s.tx, s.model())
		}
		if err := s.tx.Verify(); err != nil {
			c.Fail("verify", "%s: %v", what, err)
		}
		sizesOf(c, what+" verified", s.tx, s.model())
		m := s.model()
		tx := xcore.NewTransaction()
		if err := tx.Deserialize(m.Full()); err != nil {
			c.Fail("parse", "%s: %v", what, err)
		}
		sizesOf(c, what+" parsed", tx, m)
		for _, i := range order {
			k := s.kinds[i]
			if err := tx.SetTxIn(i, k.value, clone(k.locking), cloneN(k.redeem)); err != nil {
				c.Fail("attach", "%s: %v", what, err)
			}
			sizesOf(c, what+" parsed, partly re-attached", tx, m)
		}
		_ = tx.ToString()
		sizesOf(c, what+" printed", tx, m)
		if tx.DeserializeNoWitness(m.Legacy()) == nil {
			sizesOf(c, what+" replaced by its stripped form", tx, stripWit(m))
		}
	})

	// multisigs whose unlocking data and scripts take more than one form of length
	r.Explore("multisig", mc.Opts{}, func(c *mc.Ctx) {
		n := []int{1, 2, 3, 4, 6, 7, 8, 15, 16, 20}[c.Pick("n", 10)]
		m := []int{1, 2, 3, (n + 1) / 2, n}[c.Pick("m", 5)]
		if m > n {
			c.Skip()
		}
		k := spendKind{fmt.Sprintf("%d-of-%d", m, n), []int{kWSH, kSH}[c.Pick("kind", 2)], c.Bool("uncompressed keys"), false, m, n}
		k.witness = k.kind == kWSH
		sp := mkSpend(0, k)
		if k.kind == kSH && len(sp.redeem) > 520 {
			c.Skip() // cannot be pushed
		}
		s := newSpendTx()
		s.addSpend(sp)
		other := c.Bool("another input")
		if other {
			s.add(spendKinds[2])
		}
		s.outputs(1)
		what := fmt.Sprintf("%s (%s)", k.name, kindNames[k.kind])
		for i := range s.kinds {
			if err := s.sign(i, 1); err != nil {
				c.Fail("sign", "%s: %v", what, err)
			}
			sizesOf(c, what+" signed", s.tx, s.model())
		}
		w := s.model()
		tx := xcore.NewTransaction()
		if err := tx.Deserialize(w.Full()); err != nil {
			c.Fail("parse", "%s: %v", what, err)
		}
		sizesOf(c, what+" parsed", tx, w)
		for i, k := range s.kinds {
			if err := tx.SetTxIn(i, k.value, clone(k.locking), cloneN(k.redeem)); err != nil {
				c.Fail("attach", "%s: %v", what, err)
			}
			sizesOf(c, what+" parsed, re-attached", tx, w)
		}
		if err := tx.Verify(); err != nil {
			c.Fail("verify", "%s: %v", what, err)
		}
		sizesOf(c, what+" verified", tx, w)
	})

	// the fee formula: never below the rate
	sizes := []int64{math.MinInt64, -1, 0, 1, 2, 3, 99, 100, 191, 192, 193, 249, 250, 251, 332, 333, 334, 499, 500, 501, 665, 666, 667, 999, 1000, 1001, 1999, 100000, 400001, 1<<31 - 1, 1 << 53, 1 << 61, math.MaxInt64}
	frates := []int64{math.MinInt64, -1, 0, 1, 2, 3, 4, 5, 7, 99, 100, 250, 333, 500, 999, 1000, 1001, 1003, 1999, 2000, 12345, 20000, 100001, 1<<31 - 1, 1<<31 + 1, 1<<40 + 3, 1<<53 - 1, 1<<53 + 1, 1<<60 + 1, math.MaxInt64}
	fee1 := func(c *mc.Ctx, size, rate int64) {
		c.Step(1)
		c.Valid(1)
		got := xcore.EstimateFees(size, rate)
		if size <= 0 || rate <= 0 {
			if got < 0 {
				c.Fail("fees-negative", "EstimateFees(%d, %d) = %d", size, rate, got)
			}
			return
		}
		want := ceilRate(size, rate)
		if !want.IsInt64() {
			want = big.NewInt(math.MaxInt64)
		}
		if big.NewInt(got).Cmp(want) < 0 {
			c.Fail("fees", "EstimateFees(%d, %d) = %d, below the rate (%v)", size, rate, got, want)
		}
	}
	r.Explore("fee-formula", mc.Opts{}, func(c *mc.Ctx) {
		k := c.Pick("size", len(sizes)+128)
		for _, rate := range frates {
			if k < len(sizes) {
				fee1(c, sizes[k], rate)
				c.StateU(uint64(k), uint64(rate))
				continue
			}
			for s := int64(k-len(sizes)) * 16; s < int64(k-len(sizes)+1)*16; s++ {
				fee1(c, s, rate)
			}
		}
		for rate := int64(0); rate < int64(r.Q(4000, 40000)); rate += 7 {
			if k >= len(sizes) {
				fee1(c, int64(k-len(sizes))*16+rate%16, rate)
			}
		}
	})

	// the builder: fee paid against the virtual size of the signed result
	var sized []spendKind
	sized = append(sized, spendKinds...)
	if !r.Quick() {
		sized = append(sized, spendKind{"P2SH 3-of-3", kSH, false, false, 3, 3}, spendKind{"P2WSH 3-of-3", kWSH, false, true, 3, 3})
	}
	datas := [][]byte{nil, {7}, seq(0, 40), rep(3, 80)}
	r.Explore("builder", mc.Opts{}, func(c *mc.Ctx) {
		n := 1 + c.Pick("inputs", 2)
		var ks []spendKind
		for i := 0; i < n; i++ {
			ks = append(ks, sized[c.Pick("kind", len(sized))])
		}
		nout := 1 + c.Pick("payments", 2)
		toKind := c.Pick("payment kind", 4)
		chg := c.Bool("change")
		push := datas[c.Pick("data", r.Q(2, 4))]
		if r.Quick() && n == 2 && toKind%2 == 1 {
			c.Skip()
		}
		what := fmt.Sprintf("%d payments (%s), change %v, data %d bytes, from", nout, kindNames[toKind], chg, len(push))
		for _, rate := range []int64{1000, 20001} {
			b := xcore.NewTransactionBuilder()
			var witness []bool
			var outLens []int
			var txins []*xcore.TxIn
			var txouts []*xcore.TxOut
			var total uint64
			for i := 0; i < n || i < nout; i++ {
				if i > 0 {
					b.Then()
				}
				if i < n {
					sp := bSpendOf2(ks[i])
					value := uint64(1 << 30)
					total += value
					b.AddCoin(xcore.NewCoinBuilder().AddOutput(bTxidText(i, false), 1, value, fmt.Sprintf("%x", sp.locking)).ToCoins()[0])
					keys := sp.keys
					if sp.n > 0 {
						keys = keys[:sp.m]
						b.SetRedeemScript(clone(sp.redeem))
					}
					b.AddKeys(keys...)
					if sp.uncompressed {
						b.SetPubKeyUncompressed()
					}
					witness = append(witness, sp.witness)
					in, err := xcore.NewTxIn(bTxid(i), 1, value, clone(sp.locking), cloneN(sp.redeem))
					if err != nil {
						c.Fail("txin", "%v", err)
					}
					txins = append(txins, in)
					if rate == 1000 {
						what += " " + sp.name
					}
				}
				if i < nout {
					v := uint64(1000)
					h := toHash(toKind, 1)
					out := xcore.NewTxOut(v, refLocking(toKind, h))
					txouts = append(txouts, out)
					outLens = append(outLens, len(out.Script))
					if i == nout-1 && !chg {
						continue // set below, once the fee is known
					}
					b.To(newAddr(toKind, h), v)
				}
			}
			_ = total
			np := 0
			if push != nil {
				b.AddPushData(push)
				np = len(push)
			}
			est := xcore.EstimateSize(txins, txouts) + int64(np)
			if !chg {
				// pay exactly what the fee leaves, so that there is no change
				fee := xcore.EstimateFees(est, rate)
				v := total - uint64(fee) - uint64(1000*(nout-1))
				// the last payment belongs to group nout-1; rebuild in order
				b = xcore.NewTransactionBuilder()
				for i := 0; i < n || i < nout; i++ {
					if i > 0 {
						b.Then()
					}
					if i < n {
						sp := bSpendOf2(ks[i])
						b.AddCoin(xcore.NewCoinBuilder().AddOutput(bTxidText(i, false), 1, 1<<30, fmt.Sprintf("%x", sp.locking)).ToCoins()[0])
						keys := sp.keys
						if sp.n > 0 {
							keys = keys[:sp.m]
							b.SetRedeemScript(clone(sp.redeem))
						}
						b.AddKeys(keys...)
						if sp.uncompressed {
							b.SetPubKeyUncompressed()
						}
					}
					if i < nout {
						w := uint64(1000)
						if i == nout-1 {
							w = v
						}
						b.To(newAddr(toKind, toHash(toKind, 1)), w)
					}
				}
				if push != nil {
					b.AddPushData(push)
				}
			}
			b.SetChange(newAddr(kWSH, bChange[3])).SetRelayFeePerKb(rate).Sign()
			tx, err := b.BuildTransaction()
			c.Step(1)
			if err != nil {
				c.Fail("build", "%s: %v", what, err)
			}
			if err := tx.Verify(); err != nil {
				c.Fail("verify", "%s: %v", what, err)
			}
			m, _ := ref.ParseTx(tx.Serialize())
			sizesOf(c, what, tx, m)
			vs := int64((3*len(m.Legacy()) + len(m.Full()) + 3) / 4)
			var out uint64
			for _, o := range m.Out {
				out += o.Value
			}
			fee := int64(total - out)
			pinned := pinnedEstimate(witness, outLens, np)
			if est < vs {
				if est == pinned {
					c.Outcome("estimate short (pinned formula)")
					c.Known("estimate-formula", "the estimated size of the transaction to be signed (%s) is %d, its virtual size when signed %d", what, est, vs)
				} else {
					c.Fail("estimate", "%s: estimated size %d, signed virtual size %d (the formula pinned by the tests gives %d)", what, est, vs, pinned)
				}
			} else {
				c.Outcome("estimate sufficient")
			}
			if big.NewInt(fee).Cmp(ceilRate(est, rate)) < 0 {
				c.Fail("rate", "%s: fee %d for an estimated size of %d at %d per kB", what, fee, est, rate)
			}
			if est >= vs && big.NewInt(fee).Cmp(ceilRate(vs, rate)) < 0 {
				c.Fail("rate-signed", "%s: fee %d for %d vbytes at %d per kB", what, fee, vs, rate)
			}
		}
	})
	// the estimate of many inputs and outputs, against the worst case of the signed transaction
	counts := []int{0, 1, 2, 3, 9, 10, 99, 251, 252, 253, 254, 255, 256, 300, 511, 512, 999, 1000, 1001}
	r.Explore("many-inputs", mc.Opts{}, func(c *mc.Ctx) {
		ins := counts[c.Pick("inputs", len(counts))]
		layout := c.Pick("witness inputs", 5) // none, the first, the last, every other, all
		script := []int{0, 1, 22, 25, 34, 35, 252, 253}[c.Pick("script length", 8)]
		p2pkh := refLocking(kPKH, toHash(kPKH, 1))
		p2wpkh := refLocking(kWPKH, toHash(kWPKH, 1))
		var txins []*xcore.TxIn
		var witness []bool
		base := 4 + ciLen(ins) + 4
		wit, any := 0, false
		for i := 0; i < ins; i++ {
			w := layout == 4 || layout == 1 && i == 0 || layout == 2 && i == ins-1 || layout == 3 && i%2 == 1
			witness = append(witness, w)
			any = any || w
			lock := p2pkh
			if w {
				lock = p2wpkh
				base += 32 + 4 + 1 + 4
				wit += 1 + 1 + 72 + 1 + 33
			} else {
				base += 32 + 4 + 1 + 1 + 72 + 1 + 33 + 4
				wit++
			}
			in, err := xcore.NewTxIn(bTxid(i), uint32(i), 1, clone(lock), nil)
			if err != nil {
				c.Fail("txin", "%v", err)
			}
			txins = append(txins, in)
		}
		for _, outs := range counts {
			var txouts []*xcore.TxOut
			var outLens []int
			b := base + ciLen(outs) + outs*(8+ciLen(script)+script)
			for i := 0; i < outs; i++ {
				txouts = append(txouts, xcore.NewTxOut(1, make([]byte, script)))
				outLens = append(outLens, script)
			}
			vs := int64(b)
			if any {
				vs = int64((4*b + 2 + wit + 3) / 4)
			}
			c.Step(1)
			c.Valid(1)
			c.StateU(uint64(ins), uint64(outs), uint64(layout), uint64(script))
			est := xcore.EstimateSize(txins, txouts)
			if est >= vs {
				c.Outcome("estimate sufficient")
				continue
			}
			what := fmt.Sprintf("%d inputs (witness layout %d), %d outputs with scripts of %d bytes", ins, layout, outs, script)
			if est == pinnedEstimate(witness, outLens, 0) {
				c.Outcome("estimate short (pinned formula)")
				c.Known("estimate-formula", "the estimated size of the transaction to be signed (%s) is %d, its virtual size when signed at most %d", what, est, vs)
			} else {
				c.Fail("estimate", "%s: estimated size %d, signed virtual size up to %d (the formula pinned by the tests gives %d)", what, est, vs, pinnedEstimate(witness, outLens, 0))
			}
		}
	})
	// the stand-alone estimate by counts
	r.Explore("normal-size", mc.Opts{}, func(c *mc.Ctx) {
		ins := c.Pick("inputs", 8) + c.Pick("many inputs", 2)*249
		outs := c.Pick("outputs", 8) + c.Pick("many outputs", 2)*249
		// worst case: 72-byte signature with hash type, compressed key
		actual := int64(4 + ciLen(ins) + ins*(32+4+1+1+72+1+33+4) + ciLen(outs) + outs*34 + 4)
		est := xcore.EstimateNormalSize(ins, outs)
		c.Step(1)
		c.Valid(1)
		c.StateU(uint64(ins), uint64(outs))
		if est < actual {
			if est == int64(4+ciLen(ins)+149*ins+ciLen(outs)+33*outs+4) {
				c.Known("estimate-normal-formula", "EstimateNormalSize(%d, %d) = %d, a signed P2PKH transaction of that shape has %d bytes", ins, outs, est, actual)
			} else {
				c.Fail("normal-size", "EstimateNormalSize(%d, %d) = %d, a signed transaction of that shape has %d bytes", ins, outs, est, actual)
			}
		}
	})
}

// bSpendOf2 prepares a spend of a kind outside the standard table as well.
func bSpendOf2(k spendKind) *spendIn {
	for _, s := range bSpends() {
		if s.name == k.name {
			return s
		}
	}
	return mkSpend(1, k)
}
