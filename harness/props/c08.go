package props

import (
	"bytes"
	"fmt"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
)

func init() { mc.Register("C08", c08) }

// attach re-attaches the spent outputs to a parsed transaction.
func (s *spendTx) attach(tx *xcore.Transaction, order []int) error {
	for _, i := range order {
		k := s.kinds[i]
		if err := tx.SetTxIn(i, k.value, clone(k.locking), cloneN(k.redeem)); err != nil {
			return fmt.Errorf("SetTxIn(%d) %s: %v", i, k.name, err)
		}
	}
	return nil
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var o [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			o = append(o, q)
		}
	}
	return o
}

// verifies checks that the signed transaction verifies, now and after a round trip, with the same id and bytes.
func (s *spendTx) verifies(c *mc.Ctx, what string, orders [][]int) {
	c.Valid(1)
	c.Step(1)
	if err := s.tx.Verify(); err != nil {
		c.Fail("verify", "%s: signed transaction does not verify: %v", what, err)
	}
	m := s.model()
	data := s.tx.Serialize()
	c.State(m.Full())
	if !bytes.Equal(data, m.Full()) {
		c.Fail("serialize", "%s: serializes to %s, want %s", what, hx(data), hx(m.Full()))
	}
	id := s.tx.ID()
	for _, o := range orders {
		tx := xcore.NewTransaction()
		if err := tx.Deserialize(data); err != nil {
			c.Fail("parse", "%s: parsing the signed transaction: %v", what, err)
		}
		if err := s.attach(tx, o); err != nil {
			c.Fail("attach", "%s: %v", what, err)
		}
		c.Step(1)
		c.Valid(1)
		if err := tx.Verify(); err != nil {
			c.Fail("verify-parsed", "%s: parsed and re-attached in order %v it does not verify: %v", what, o, err)
		}
		if tx.ID() != id {
			c.Fail("id", "%s: id changes from %s to %s", what, id, tx.ID())
		}
		if !bytes.Equal(tx.Serialize(), data) {
			c.Fail("reserialize", "%s: bytes change over a round trip and verification", what)
		}
	}
}

func kindsOf(s *spendTx) string {
	t := ""
	for _, k := range s.kinds {
		t += k.name + ","
	}
	return t
}

func c08(r *mc.Run) {
	// every vector of input kinds; one hash type for all inputs; every order of signing
	r.Explore("vectors", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("inputs", 3) + 1
		ht := sigHashTypes[c.Pick("hash type", len(sigHashTypes))]
		ps := perms(n)
		if r.Quick() && n == 3 {
			ps = ps[2:3]
		}
		order := ps[c.Pick("signing order", len(ps))]
		s := newSpendTx()
		for i := 0; i < n; i++ {
			s.add(spendKinds[c.Pick("kind", len(spendKinds))])
		}
		s.outputs(2)
		for _, i := range order {
			if err := s.sign(i, ht); err != nil {
				c.Fail("sign", "%s: signing input %d with hash type %#x: %v", kindsOf(s), i, ht, err)
			}
		}
		at := order
		s.verifies(c, fmt.Sprintf("%s hash type %#x", kindsOf(s), ht), [][]int{at})
	})
	// every value of every field that the user sets, one at a time, with an ordinary second input
	r.Explore("field-values", mc.Opts{}, func(c *mc.Ctx) {
		k := spendKinds[c.Pick("kind", len(spendKinds))]
		ht := sigHashTypes[c.Pick("hash type", len(sigHashTypes))]
		at := c.Pick("input", 2)
		s := newSpendTx()
		if at == 1 {
			s.add(spendKinds[0])
		}
		sp := mkSpend(at, k)
		u32 := []uint32{0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}
		u64 := []uint64{0, 1, 0xffffffff, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}
		field := c.Pick("field", 8)
		n := []int{6, 6, 6, 6, 7, 7, 5, 4}[field]
		v := c.Pick("value", n)
		if field == 4 {
			sp.value = u64[v]
		}
		s.addSpend(sp)
		if at == 0 {
			s.add(spendKinds[0])
		}
		s.outputs(2)
		switch field {
		case 0:
			s.ver = u32[v]
			s.tx.SetVersion(s.ver)
		case 1:
			s.lock = u32[v]
			s.tx.SetLockTime(s.lock)
		case 2:
			sp.in.Sequence = u32[v]
		case 3:
			sp.in.Index = u32[v]
		case 5:
			s.outs[at].Value = u64[v]
		case 6:
			s.outs[at].Script = [][]byte{{}, {0x6a}, rep(0x51, 252), rep(0x51, 253), rep(0x51, 0x10000)}[v]
		case 7:
			sp.in.Hash = [][]byte{rep(0, 32), rep(0xff, 32), cat(rep(0, 31), []byte{1}), s.kinds[1-at].in.Hash}[v]
		}
		for i := range s.kinds {
			if err := s.sign(i, ht); err != nil {
				c.Fail("sign", "%s: signing input %d with hash type %#x: %v", kindsOf(s), i, ht, err)
			}
		}
		s.verifies(c, fmt.Sprintf("%s hash type %#x field %d value %d", kindsOf(s), ht, field, v), [][]int{{0, 1}})
	})
	// a hash type per input, with fewer, as many and more outputs than inputs
	r.Explore("mixed-hash-types", mc.Opts{}, func(c *mc.Ctx) {
		s := newSpendTx()
		a, b := c.Pick("kind", len(spendKinds)), c.Pick("kind", len(spendKinds))
		if r.Quick() && a > b {
			c.Skip()
		}
		s.add(spendKinds[a])
		s.add(spendKinds[b])
		s.outputs([]int{0, 2, 1, 3}[c.Pick("outputs", r.Q(2, 4))])
		h0, h1 := sigHashTypes[c.Pick("hash type 0", 6)], sigHashTypes[c.Pick("hash type 1", 6)]
		for i, h := range []xcore.SigHashType{h0, h1} {
			if err := s.sign(i, h); err != nil {
				c.Fail("sign", "%s: signing input %d with hash type %#x: %v", kindsOf(s), i, h, err)
			}
		}
		s.verifies(c, fmt.Sprintf("%s hash types %#x,%#x, %d outputs", kindsOf(s), h0, h1, len(s.outs)), [][]int{{1, 0}})
	})
	// every multisig, every sufficient subset of keys in the order of the redeem script
	r.Explore("multisig", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("n", r.Q(4, 5)) + 1
		m := c.Pick("m", n) + 1
		k := spendKind{fmt.Sprintf("%d-of-%d", m, n), []int{kSH, kWSH}[c.Pick("kind", 2)], c.Bool("uncompressed keys"), false, m, n}
		k.witness = k.kind == kWSH
		mask := c.Pick("keys", 1<<uint(n))
		var keys []int
		for j := 0; j < n; j++ {
			if mask>>uint(j)&1 == 1 {
				keys = append(keys, j)
			}
		}
		if len(keys) != m {
			c.Skip()
		}
		s := newSpendTx()
		s.add(k)
		s.add(spendKinds[c.Pick("other input", 3)])
		s.outputs(1)
		ht := sigHashTypes[c.Pick("hash type", r.Q(2, 6))*(5/r.Q(5, 1))%6]
		var ps []*xcrypto.PrvKey
		for _, j := range keys {
			ps = append(ps, s.kinds[0].keys[j])
		}
		if err := s.tx.SignIndex(0, !k.uncompressed, ht, ps...); err != nil {
			c.Fail("sign", "%s with keys %v: %v", k.name, keys, err)
		}
		if err := s.sign(1, 1); err != nil {
			c.Fail("sign", "other input: %v", err)
		}
		s.verifies(c, fmt.Sprintf("%s (%s) with keys %v", k.name, kindNames[k.kind], keys), [][]int{{0, 1}})
	})
	// multisigs of up to 20 keys, the script made by the library
	r.Explore("many-keys", mc.Opts{}, func(c *mc.Ctx) {
		n := 1 + c.Pick("n", 20)
		m := []int{1, 2, (n + 1) / 2, n - 1, n}[c.Pick("m", 5)]
		if m < 1 || m > n {
			c.Skip()
		}
		k := spendKind{fmt.Sprintf("%d-of-%d", m, n), []int{kWSH, kSH}[c.Pick("kind", 2)], c.Bool("uncompressed keys"), false, m, n}
		k.witness = k.kind == kWSH
		sp := mkSpend(0, k)
		if k.kind == kSH && len(sp.redeem) > 520 {
			c.Skip() // cannot be pushed
		}
		script, err := xcore.NewPayToMultiSigScript(m, sp.redeemKeyBytes...).GetLockingScriptBytes()
		if err != nil || !bytes.Equal(script, sp.redeem) {
			c.Fail("redeem", "%s: the library's script is %x (%v), want %x", k.name, script, err, sp.redeem)
		}
		s := newSpendTx()
		s.addSpend(sp)
		s.outputs(1)
		// the first keys, the last ones, or every other
		from := c.Pick("keys", 3)
		var ps []*xcrypto.PrvKey
		for j := 0; j < m; j++ {
			x := j
			switch from {
			case 1:
				x = n - m + j
			case 2:
				x = j * n / m
			}
			ps = append(ps, sp.keys[x])
		}
		if err := s.tx.SignIndex(0, !k.uncompressed, 1, ps...); err != nil {
			c.Fail("sign", "%s: %v", k.name, err)
		}
		s.verifies(c, fmt.Sprintf("%s (%s)", k.name, kindNames[k.kind]), [][]int{{0}})
	})
	// multisigs in which a key appears more than once: it signs once for each appearance
	r.Explore("repeated-keys", mc.Opts{}, func(c *mc.Ctx) {
		n := 2 + c.Pick("n", r.Q(4, 5))
		m := 1 + c.Pick("m", n)
		k := spendKind{fmt.Sprintf("%d-of-%d", m, n), []int{kWSH, kSH}[c.Pick("kind", 2)], false, false, m, n}
		k.witness = k.kind == kWSH
		sp := mkSpend(0, k)
		for j := 1; j < n; j++ {
			if c.Bool("same as the one before") {
				sp.keys[j], sp.redeemKeyBytes[j] = sp.keys[j-1], sp.redeemKeyBytes[j-1]
			}
		}
		sp.redeem = multisigScript(m, sp.redeemKeyBytes)
		sp.code = sp.redeem
		sp.locking = refLocking(kSH, ref.Hash160(sp.redeem))
		if k.witness {
			sp.locking = refLocking(kWSH, ref.Sha256(sp.redeem))
		}
		s := newSpendTx()
		s.addSpend(sp)
		s.outputs(1)
		from := c.Pick("keys", 2) * (n - m)
		if err := s.tx.SignIndex(0, true, 1, sp.keys[from:from+m]...); err != nil {
			c.Fail("sign", "%s: %v", k.name, err)
		}
		s.verifies(c, fmt.Sprintf("%s (%s) with repeated keys", k.name, kindNames[k.kind]), [][]int{{0}})
	})
	// signing continues on the parsed transaction; signing again; verification in between
	r.Explore("staged", mc.Opts{}, func(c *mc.Ctx) {
		s := newSpendTx()
		a, b := c.Pick("kind", len(spendKinds)), c.Pick("kind", len(spendKinds))
		s.add(spendKinds[a])
		s.add(spendKinds[b])
		s.outputs(2)
		ht := sigHashTypes[c.Pick("hash type", r.Q(1, 6))]
		first := c.Pick("first", 2)
		if err := s.sign(first, ht); err != nil {
			c.Fail("sign", "%v", err)
		}
		if c.Bool("verify before complete") {
			if s.tx.Verify() == nil {
				c.Fail("half-signed", "%s: verifies with only input %d signed", kindsOf(s), first)
			}
		}
		mode := c.Pick("mode", 3)
		switch mode {
		case 0: // sign everything again, with another hash type first
			if err := s.sign(1-first, 0x83); err != nil {
				c.Fail("sign", "%v", err)
			}
			if err := s.sign(1-first, ht); err != nil {
				c.Fail("sign", "%v", err)
			}
			if err := s.sign(first, ht); err != nil {
				c.Fail("sign", "%v", err)
			}
			s.verifies(c, "signed again: "+kindsOf(s), [][]int{{0, 1}})
		default:
			data := s.tx.Serialize()
			tx := xcore.NewTransaction()
			if err := tx.Deserialize(data); err != nil {
				c.Fail("parse", "half signed: %v", err)
			}
			order := []int{0, 1}
			if mode == 2 {
				order = []int{1, 0}
			}
			if err := s.attach(tx, order); err != nil {
				c.Fail("attach", "half signed: %v", err)
			}
			s2 := *s
			s2.tx = tx
			if err := s2.sign(1-first, ht); err != nil {
				c.Fail("sign", "after parsing: %v", err)
			}
			if err := tx.Verify(); err != nil {
				c.Fail("verify-staged", "%s: signed in two stages it does not verify: %v", kindsOf(s), err)
			}
			c.Valid(1)
			full := tx.Serialize()
			c.State(full)
			tx3 := xcore.NewTransaction()
			if err := tx3.Deserialize(full); err != nil {
				c.Fail("parse", "staged: %v", err)
			}
			if err := s.attach(tx3, order); err != nil {
				c.Fail("attach", "staged: %v", err)
			}
			if err := tx3.Verify(); err != nil {
				c.Fail("verify-staged", "%s: signed in two stages, parsed, it does not verify: %v", kindsOf(s), err)
			}
			if tx3.ID() != tx.ID() {
				c.Fail("id", "staged: id changes over a round trip")
			}
		}
	})
	// an unsigned transaction is parsed; what is attached at first is wrong (and perhaps signed for); then the right
	// thing is attached and signed for: the result is the one of attaching the right thing at once
	r.Explore("attached-again", mc.Opts{}, func(c *mc.Ctx) {
		s := newSpendTx()
		right := spendKinds[c.Pick("kind", len(spendKinds))]
		s.add(right)
		two := c.Bool("two inputs")
		if two {
			s.add(spendKinds[0])
		}
		s.outputs(2)
		ht := sigHashTypes[c.Pick("hash type", r.Q(2, 6))]
		unsigned := s.tx.Serialize()
		for i := range s.kinds {
			if err := s.sign(i, ht); err != nil {
				c.Fail("sign", "%v", err)
			}
		}
		want := s.tx.Serialize()
		tx := xcore.NewTransaction()
		if err := tx.Deserialize(unsigned); err != nil {
			c.Fail("parse", "unsigned: %v", err)
		}
		wk := spendKinds[c.Pick("attached first", len(spendKinds))]
		wrong := mkSpend(3, wk)
		wrong.value = []uint64{0, 7}[c.Pick("value", 2)]
		s2 := &spendTx{tx: tx, kinds: append([]*spendIn{wrong}, s.kinds[1:]...), outs: s.outs, ver: s.ver, lock: s.lock}
		if err := s2.attach(tx, []int{0}); err != nil {
			c.Fail("attach", "%v", err)
		}
		signed := c.Bool("signed for it")
		if signed {
			if err := s2.sign(0, ht); err != nil {
				c.Fail("sign", "as %s: %v", wk.name, err)
			}
		}
		zero := c.Bool("right kind, value zero, in between")
		if zero {
			if err := tx.SetTxIn(0, 0, clone(s.kinds[0].locking), cloneN(s.kinds[0].redeem)); err != nil {
				if signed {
					return // signatures for another kind are in the way
				}
				c.Fail("attach", "%s after %s: %v", right.name, wk.name, err)
			}
		}
		s2.kinds = s.kinds
		for i := range s.kinds {
			if err := s2.attach(tx, []int{i}); err != nil {
				if signed {
					return
				}
				c.Fail("attach", "%s after %s: %v", right.name, wk.name, err)
			}
		}
		c.Step(1)
		c.Valid(1)
		for i := range s.kinds {
			if err := s2.sign(i, ht); err != nil {
				c.Fail("sign", "%s after %s: %v", right.name, wk.name, err)
			}
		}
		if err := tx.Verify(); err != nil {
			c.Fail("verify-again", "%s attached after %s (signed for it: %v): the signed transaction does not verify: %v", right.name, wk.name, signed, err)
		}
		got := tx.Serialize()
		c.State(got)
		if !bytes.Equal(got, want) {
			c.Fail("again-bytes", "%s attached after %s (signed for it: %v): the signed transaction is %s, want %s", right.name, wk.name, signed, hx(got), hx(want))
		}
	})
	// signatures made outside and embedded
	r.Explore("embedded", mc.Opts{}, func(c *mc.Ctx) {
		k := spendKinds[c.Pick("kind", len(spendKinds))]
		s := newSpendTx()
		s.add(k)
		s.add(spendKinds[2])
		s.outputs(2)
		ht := sigHashTypes[c.Pick("hash type", 6)]
		how := c.Pick("how", 3)
		m := s.model()
		sp := s.kinds[0]
		h := s.sigHash(m, 0, uint32(ht))
		n := 1
		if k.n > 0 {
			n = k.m
		}
		var signs []xcore.PubKeySign
		for j := 0; j < n; j++ {
			var sig []byte
			var err error
			switch how {
			case 0: // over the model's hash
				sig, err = xcrypto.EcdsaSign(sp.keys[j], h)
				sig = append(sig, byte(ht))
			default:
				if k.witness {
					sig, err = s.tx.WitnessSignature(0, ht, sp.keys[j])
				} else {
					sig, err = s.tx.RawSignature(0, ht, sp.keys[j])
				}
			}
			if err != nil {
				c.Fail("sign", "%v", err)
			}
			pub := sp.keys[j].PubKey().SerializeCompressed()
			if k.uncompressed {
				pub = sp.keys[j].PubKey().SerializeUncompressed()
			}
			signs = append(signs, xcore.PubKeySign{PubKey: pub, Signature: sig})
		}
		if how == 2 && k.n == 0 && !k.uncompressed {
			raw := signs[0].Signature[:len(signs[0].Signature)-1]
			if err := s.tx.EmbedIdxEcdsaSignature(0, sp.keys[0].PubKey(), clone(raw), ht); err != nil {
				c.Fail("embed", "%v", err)
			}
		} else if err := s.tx.EmbedIdxSignature(0, signs); err != nil {
			c.Fail("embed", "%v", err)
		}
		if err := s.sign(1, 1); err != nil {
			c.Fail("sign", "%v", err)
		}
		s.verifies(c, "embedded: "+k.name, [][]int{{1, 0}})
	})
	// every key at the ends of the range, through each single-key kind
	r.Explore("keys", mc.Opts{}, func(c *mc.Ctx) {
		key := testKeys[c.Pick("key", len(testKeys))]
		k := spendKinds[c.Pick("kind", 3)]
		pub := key.PubKey().SerializeCompressed()
		if k.uncompressed {
			pub = key.PubKey().SerializeUncompressed()
		}
		h := ref.Hash160(pub)
		s := newSpendTx()
		s.addSpend(&spendIn{spendKind: k, keys: []*xcrypto.PrvKey{key}, locking: refLocking(k.kind, h), code: pkhCode(h), value: []uint64{0, 1, 1<<64 - 1}[c.Pick("value", 3)]})
		s.outputs(1)
		if err := s.sign(0, sigHashTypes[c.Pick("hash type", 6)]); err != nil {
			c.Fail("sign", "%v", err)
		}
		s.verifies(c, "keys: "+k.name, [][]int{{0}})
	})
	// through the transaction builder
	r.Explore("builder", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("inputs", 2) + 1
		b := xcore.NewTransactionBuilder()
		s := newSpendTx()
		for i := 0; i < n; i++ {
			k := spendKinds[c.Pick("kind", len(spendKinds))]
			sp := mkSpend(i, k)
			ht := sigHashTypes[c.Pick("hash type", r.Q(2, 6))]
			if i > 0 {
				b.Then()
			}
			keys := sp.keys
			if k.n > 0 {
				keys = keys[:k.m]
			}
			cb := xcore.NewCoinBuilder().AddOutput(ref.RevHex(seq(byte(i+1), 32)), uint32(i), sp.value, fmt.Sprintf("%x", sp.locking))
			b.AddCoin(cb.ToCoins()[0]).AddKeys(keys...).SetSigHashType(ht)
			if sp.redeem != nil {
				b.SetRedeemScript(sp.redeem)
			}
			if k.uncompressed {
				b.SetPubKeyUncompressed()
			}
			s.kinds = append(s.kinds, sp)
		}
		to := c.Pick("to", 4)
		b.To(newAddr(to, rep(3, kindLen(to))), 5000)
		_ = b.SetChange(newAddr(kPKH, rep(9, 20))).SendFees(1000).Sign()
		tx, err := b.BuildTransaction()
		if err != nil {
			c.Fail("build", "%s: %v", kindsOf(s), err)
		}
		if err := tx.Verify(); err != nil {
			c.Fail("verify-built", "%s: the built and signed transaction does not verify: %v", kindsOf(s), err)
		}
		c.Valid(1)
		data := tx.Serialize()
		c.State(data)
		tx2 := xcore.NewTransaction()
		if err := tx2.Deserialize(data); err != nil {
			c.Fail("parse", "%v", err)
		}
		order := []int{0, 1}[:n]
		if err := s.attach(tx2, order); err != nil {
			c.Fail("attach", "%v", err)
		}
		if err := tx2.Verify(); err != nil {
			c.Fail("verify-built-parsed", "%s: built, signed, parsed: does not verify: %v", kindsOf(s), err)
		}
		if tx2.ID() != tx.ID() {
			c.Fail("id", "id changes over a round trip")
		}
	})
}
