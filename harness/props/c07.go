package props

import (
	"bytes"
	"fmt"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xcore"
)

func init() { mc.Register("C07", c07) }

// hashKinds are the kinds of spent output for which signature hashes are compared; the payloads contain bytes that
// are opcodes (0xab is OP_CODESEPARATOR) inside pushes.
func hashSpend(i, kind int) *spendIn {
	h := seq(byte(0xa0+i), 20)
	s := &spendIn{spendKind: spendKind{name: kindNames[kind], kind: kind, witness: kind == kWPKH || kind == kWSH}, value: uint64(i)*0x1_0000_0001 + 5}
	switch kind {
	case kPKH, kWPKH:
		s.locking = refLocking(kind, h)
		s.code = pkhCode(h)
	default:
		s.redeem = multisigScript(1, [][]byte{cat([]byte{2}, seq(byte(i), 32)), cat([]byte{3}, rep(0xab, 32))})
		if kind == kSH {
			s.locking = refLocking(kSH, ref.Hash160(s.redeem))
		} else {
			s.locking = refLocking(kWSH, ref.Sha256(s.redeem))
		}
		s.code = s.redeem
	}
	return s
}

// compareHashes checks the signature hash of every input against the model.
func compareHash(c *mc.Ctx, what string, s *spendTx, m *ref.Tx, i int, ht uint32) {
	k := s.kinds[i]
	c.Step(1)
	c.Valid(1)
	var got []byte
	algo := "RawSignatureHash"
	if k.witness {
		algo = "WitnessV0SignatureHash"
		got = s.tx.WitnessV0SignatureHash(i, xcore.SigHashType(ht))
	} else {
		got = s.tx.RawSignatureHash(i, xcore.SigHashType(ht))
	}
	if want := s.sigHash(m, i, ht); !bytes.Equal(got, want) {
		c.Fail(algo, "%s: %s(%d, 0x%02x) = %x, want %x (%s, %d inputs, %d outputs)", what, algo, i, ht, got, want, k.name, len(m.In), len(m.Out))
	}
}

func c07(r *mc.Run) {
	r.Assume("script codes are those of the standard outputs the library can parse (P2PKH, P2SH/P2WSH redeem scripts without OP_CODESEPARATOR, which its script engine does not support, P2WPKH)")
	seqAlpha := []uint32{0xffffffff, 0, 0x80000001}
	build := func(c *mc.Ctx, nIn, nOut int) *spendTx {
		s := newSpendTx()
		s.ver = []uint32{1, 0x80000002}[c.Pick("version", 2)]
		s.lock = []uint32{0, 0xfedcba98}[c.Pick("lock", 2)]
		s.tx.SetVersion(s.ver)
		s.tx.SetLockTime(s.lock)
		seqPat := c.Pick("sequences", 2)
		for i := 0; i < nIn; i++ {
			sp := hashSpend(i, c.Pick("kind", 4))
			s.addSpend(sp)
			sp.in.Sequence = seqAlpha[(i*seqPat+seqPat)%3]
		}
		pat := c.Pick("outputs", 2)
		for i := 0; i < nOut; i++ {
			o := xcore.NewTxOut([]uint64{uint64(i + 1), 1<<64 - 1 - uint64(i)}[pat], [][]byte{seq(byte(i), 25), rep(byte(i), i*260)}[pat])
			s.outs = append(s.outs, o)
			s.tx.AddOutput(o)
		}
		return s
	}
	// every shape, every index, every hash type byte that means something, plus ones that are not standard
	hts := []uint32{1, 2, 3, 0x81, 0x82, 0x83, 0, 4, 0x1f, 0x22, 0x43, 0x80, 0x84, 0xa2, 0xc3, 0xff}
	r.Explore("shapes", mc.Opts{}, func(c *mc.Ctx) {
		nIn := c.Pick("inputs", 3) + 1
		nOut := c.Pick("outputs", 4)
		s := build(c, nIn, nOut)
		m := s.model()
		c.State(m.Full())
		for i := range s.kinds {
			for _, ht := range hts {
				compareHash(c, "built", s, m, i, ht)
			}
		}
		// the hashes are the same after the signing material was attached
		for i, k := range s.kinds {
			k.in.RawUnlockingScript = rep(0x51, 30)
			if k.witness {
				k.in.Witness = [][]byte{{1, 2, 3}}
			}
			_ = i
		}
		for i := range s.kinds {
			for _, ht := range hts[:6] {
				compareHash(c, "with unlocking data", s, m, i, ht)
			}
		}
		// and after parsing and attaching the spent outputs in either order
		tx := xcore.NewTransaction()
		wire := m
		if err := tx.Deserialize(wire.Full()); err != nil {
			c.Fail("parse", "parsing %s: %v", hx(wire.Full()), err)
		}
		s.tx = tx
		rev := c.Bool("attach in reverse")
		for j := range s.kinds {
			i := j
			if rev {
				i = nIn - 1 - j
			}
			k := s.kinds[i]
			if err := tx.SetTxIn(i, k.value, clone(k.locking), cloneN(k.redeem)); err != nil {
				c.Fail("attach", "SetTxIn(%d) %s: %v", i, k.name, err)
			}
			for _, ht := range hts[:6] {
				compareHash(c, "parsed and partly attached", s, m, i, ht)
			}
		}
		for i := range s.kinds {
			for _, ht := range hts {
				compareHash(c, "parsed and attached", s, m, i, ht)
			}
		}
	})
	// a redeem script that does not belong to the spent output is not a script code: the one of a P2PKH or P2WPKH
	// output comes from the output alone
	r.Explore("foreign-redeem", mc.Opts{}, func(c *mc.Ctx) {
		kind := []int{kPKH, kWPKH}[c.Pick("kind", 2)]
		rd := [][]byte{{}, {0x51}, multisigScript(1, [][]byte{cat([]byte{2}, seq(7, 32))}), pkhCode(seq(1, 20)), rep(0x51, 20), refLocking(kSH, seq(3, 20))}[c.Pick("redeem", 6)]
		s := newSpendTx()
		for i := 0; i < 2; i++ {
			sp := hashSpend(i, kind)
			sp.redeem = rd
			s.addSpend(sp)
		}
		s.outputs(c.Pick("outputs", 3))
		m := s.model()
		for i := range s.kinds {
			for _, ht := range hts {
				compareHash(c, fmt.Sprintf("with redeem script %x", rd), s, m, i, ht)
			}
		}
		tx := xcore.NewTransaction()
		if err := tx.Deserialize(m.Full()); err != nil {
			c.Fail("parse", "parsing %s: %v", hx(m.Full()), err)
		}
		s.tx = tx
		for i, k := range s.kinds {
			if err := tx.SetTxIn(i, k.value, clone(k.locking), cloneN(rd)); err != nil {
				c.Fail("attach", "SetTxIn(%d) %s: %v", i, k.name, err)
			}
		}
		for i := range s.kinds {
			for _, ht := range hts {
				compareHash(c, fmt.Sprintf("attached with redeem script %x", rd), s, m, i, ht)
			}
		}
	})
	r.Explore("all-hash-type-bytes", mc.Opts{}, func(c *mc.Ctx) {
		ht := uint32(c.Pick("hash type", 256))
		kind := c.Pick("kind", 4)
		s := newSpendTx()
		for i := 0; i < 2; i++ {
			s.addSpend(hashSpend(i, kind))
		}
		s.outputs(c.Pick("outputs", 3))
		m := s.model()
		for i := range s.kinds {
			compareHash(c, "built", s, m, i, ht)
		}
	})
	// histories: changes and queries interleaved; whatever was asked before, the answer is that of the content
	r.Explore("histories", mc.Opts{}, func(c *mc.Ctx) {
		s := newSpendTx()
		for i, n := 0, c.Pick("inputs", 2)+1; i < n; i++ {
			s.addSpend(hashSpend(i, []int{kPKH, kWPKH, kWSH}[c.Pick("kind", 3)]))
		}
		s.outputs(1)
		depth := r.Q(4, 5)
		for d := 0; d < depth; d++ {
			op := c.Pick("op", 13)
			what := ""
			switch op {
			case 0, 1, 2, 3, 4, 5:
				i := len(s.kinds) - 1
				if d%2 == 1 {
					i = 0
				}
				compareHash(c, fmt.Sprintf("query at step %d", d), s, s.model(), i, uint32(sigHashTypes[op]))
				continue
			case 6:
				what = "AddInput"
				s.addSpend(hashSpend(len(s.kinds), kWPKH))
			case 7:
				what = "AddOutput"
				o := xcore.NewTxOut(77, rep(0x51, len(s.outs)))
				s.outs = append(s.outs, o)
				s.tx.AddOutput(o)
			case 8:
				what = "SetVersion/SetLockTime"
				s.ver++
				s.lock += 0x10000
				s.tx.SetVersion(s.ver)
				s.tx.SetLockTime(s.lock)
			case 9:
				what = "SetTxIn"
				k := s.kinds[0]
				n := hashSpend(9, k.kind)
				if err := s.tx.SetTxIn(0, n.value, clone(n.locking), cloneN(n.redeem)); err != nil {
					c.Fail("attach", "SetTxIn: %v", err)
				}
				n.in = k.in
				s.kinds[0] = n
			case 10:
				what = "output edit"
				s.outs[0].Value += 1 << 33
				s.outs[len(s.outs)-1].Script = append(clone(s.outs[len(s.outs)-1].Script), 1)
			case 11:
				what = "input edit"
				s.kinds[0].in.Sequence ^= 0xff
				s.kinds[len(s.kinds)-1].in.Index += 5
			case 12:
				what = "outpoint edit"
				s.kinds[0].in.Hash = seq(byte(0xb0+d), 32)
			}
			c.Step(1)
			_ = what
		}
		m := s.model()
		c.State(m.Full())
		for i := range s.kinds {
			for _, ht := range sigHashTypes {
				compareHash(c, "after the history", s, m, i, uint32(ht))
			}
		}
	})
	// more inputs and outputs than one would write by hand, around the changes of the counts' encoding
	r.Explore("many", mc.Opts{}, func(c *mc.Ctx) {
		counts := []int{0, 1, 9, 12, 17, 33, 252, 253, 254, 300}
		nIn := counts[1+c.Pick("inputs", len(counts)-1)]
		nOut := counts[c.Pick("outputs", len(counts))]
		kind := c.Pick("kind", 4)
		s := newSpendTx()
		for i := 0; i < nIn; i++ {
			sp := hashSpend(i&0x7f, kind)
			s.addSpend(sp)
			sp.in.Index = uint32(i)
			sp.in.Sequence = 0xfffffff0 - uint32(i)
		}
		for i := 0; i < nOut; i++ {
			o := xcore.NewTxOut(uint64(i)+7, cat([]byte{0x51}, rep(byte(i), i%7)))
			s.outs = append(s.outs, o)
			s.tx.AddOutput(o)
		}
		m := s.model()
		c.State(m.Full())
		at := map[int]bool{0: true, 1: true, nIn / 2: true, nIn - 2: true, nIn - 1: true, nOut - 1: true, nOut: true, 8: true, 16: true, 32: true}
		for i := 0; i < nIn; i++ {
			if !at[i] {
				continue
			}
			for _, ht := range sigHashTypes {
				compareHash(c, "many", s, m, i, uint32(ht))
			}
		}
	})
	// one output object in several places, and inputs that look alike
	r.Explore("alike", mc.Opts{}, func(c *mc.Ctx) {
		s := newSpendTx()
		kind := c.Pick("kind", 4)
		for i, n := 0, c.Pick("inputs", 3)+1; i < n; i++ {
			sp := hashSpend(0, kind)
			s.addSpend(sp)
			sp.in.Hash, sp.in.Sequence = seq(3, 32), 0xfffffffd
			if c.Bool("same outpoint") {
				sp.in.Index = 0
			}
		}
		same := c.Bool("one output object")
		o := xcore.NewTxOut(77, rep(0x51, 3))
		for i, n := 0, c.Pick("outputs", 4); i < n; i++ {
			if !same {
				o = xcore.NewTxOut(77, rep(0x51, 3))
			}
			s.outs = append(s.outs, o)
			s.tx.AddOutput(o)
		}
		m := s.model()
		c.State(m.Full())
		for i := range s.kinds {
			for _, ht := range hts {
				compareHash(c, "alike", s, m, i, ht)
			}
		}
	})
	// the forms a redeem or witness script may take: empty, one opcode, bytes of no meaning, longer than the encodings
	// of its length
	r.Explore("redeem-forms", mc.Opts{}, func(c *mc.Ctx) {
		rds := [][]byte{{}, {0x51}, {0}, {0xae}, rep(0x51, 20), rep(0x61, 252), rep(0x61, 253), rep(0x61, 520), rep(0x61, 70000), {2, 1, 1}, cat([]byte{0xab - 0x80}, rep(0xab, 0x2b)), pkhCode(seq(1, 20)), refLocking(kWPKH, seq(1, 20)), refLocking(kSH, seq(1, 20)), refLocking(kWSH, seq(1, 32))}
		rd := rds[c.Pick("redeem", len(rds))]
		k := hashSpend(0, []int{kSH, kWSH}[c.Pick("kind", 2)])
		k.redeem, k.code = rd, rd
		if k.kind == kSH {
			k.locking = refLocking(kSH, ref.Hash160(rd))
		} else {
			k.locking = refLocking(kWSH, ref.Sha256(rd))
		}
		s := newSpendTx()
		s.addSpend(k)
		s.outputs(c.Pick("outputs", 2))
		m := s.model()
		c.State(rd)
		for _, ht := range hts {
			compareHash(c, fmt.Sprintf("redeem script of %d bytes", len(rd)), s, m, 0, ht)
		}
	})
	// what is known about the spent output replaced by something else, of the same kind or another: the hash is that
	// of the last one attached
	r.Explore("attached-again", mc.Opts{}, func(c *mc.Ctx) {
		s := newSpendTx()
		n := c.Pick("inputs", 2) + 1
		for i := 0; i < n; i++ {
			s.addSpend(hashSpend(i, []int{kWSH, kPKH}[i]))
		}
		s.outputs(n)
		if c.Bool("parsed") {
			tx := xcore.NewTransaction()
			if err := tx.Deserialize(s.tx.Serialize()); err != nil {
				c.Fail("parse", "unsigned transaction: %v", err)
			}
			s.tx = tx
		}
		values := []uint64{0, 5, 1<<64 - 1}
		for step, steps := 0, r.Q(2, 3); step < steps; step++ {
			for i := range s.kinds {
				if i > 0 && step > 0 {
					continue
				}
				k := s.kinds[i]
				if i == 0 {
					k = hashSpend(c.Pick("id", 2)*7+1, c.Pick("kind", 4))
					k.value = values[c.Pick("value", len(values))]
					k.in = s.kinds[0].in
					s.kinds[0] = k
				}
				if err := s.tx.SetTxIn(i, k.value, clone(k.locking), cloneN(k.redeem)); err != nil {
					c.Fail("attach", "SetTxIn(%d) %s, time %d: %v", i, k.name, step+1, err)
				}
			}
			m := s.model()
			c.State(m.Full())
			for i := range s.kinds {
				for _, ht := range sigHashTypes {
					compareHash(c, fmt.Sprintf("attached for time %d", step+1), s, m, i, uint32(ht))
				}
			}
		}
	})
	// the hash that the engine asks for is the one of the type byte at the end of the signature: covered by C08/C09
}
