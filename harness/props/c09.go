package props

import (
	"bytes"
	"fmt"
	"sync"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
)

func init() { mc.Register("C09", c09) }

// auth is the abstract signature oracle: a signature is valid for a key and a hash if and only if it was made so.
type auth struct {
	made map[string][][2]string // DER -> (compressed key, hash)
	keys map[string]string      // any encoding of a known key -> compressed
}

func newAuth() *auth { return &auth{made: map[string][][2]string{}, keys: map[string]string{}} }

func (a *auth) key(p *xcrypto.PrvKey) {
	comp := p.PubKey().SerializeCompressed()
	unc := p.PubKey().SerializeUncompressed()
	hyb := clone(unc)
	hyb[0] = 6 | comp[0]&1
	a.keys[string(comp)], a.keys[string(unc)], a.keys[string(hyb)] = string(comp), string(comp), string(comp)
}

// note records that the DER signature was made by p over hash.
func (a *auth) note(p *xcrypto.PrvKey, hash, der []byte) {
	a.key(p)
	a.made[string(der)] = append(a.made[string(der)], [2]string{string(p.PubKey().SerializeCompressed()), string(hash)})
}

// sigCache holds signatures made by the library, by key and hash, so that exhaustive loops do not make them again.
var sigCache sync.Map

func (a *auth) sig(p *xcrypto.PrvKey, hash []byte, ht byte) []byte {
	ck := string(p.Serialize()) + string(hash)
	var der []byte
	if x, ok := sigCache.Load(ck); ok {
		der = x.([]byte)
	} else {
		var err error
		if der, err = xcrypto.EcdsaSign(p, hash); err != nil {
			panic(err)
		}
		sigCache.Store(ck, clone(der))
	}
	a.note(p, hash, der)
	return append(clone(der), ht)
}

func (a *auth) valid(sig, pub, hash []byte) bool {
	k, ok := a.keys[string(pub)]
	if !ok {
		return false
	}
	for _, m := range a.made[string(sig[:len(sig)-1])] {
		if m[0] == k && m[1] == string(hash) {
			return true
		}
	}
	return false
}

// spent is the output an input spends, as attached by the verifying user.
type spent struct {
	value   uint64
	locking []byte
	redeem  []byte
}

// accepts is the model's verdict: every input's unlocking data is a valid authorisation of this transaction.
func (a *auth) accepts(m *ref.Tx, sp []spent) bool {
	for i := range m.In {
		if !a.acceptsIn(m, sp, i) {
			return false
		}
	}
	return true
}

func (a *auth) acceptsIn(m *ref.Tx, sp []spent, i int) bool {
	in, o := m.In[i], sp[i]
	vm := &ref.VM{}
	if ref.IsWitnessProgram(o.locking) {
		vm.Sig = func(sig, pub []byte) bool {
			return a.valid(sig, pub, m.WitnessSigHash(i, vm.Code, o.value, uint32(sig[len(sig)-1])))
		}
		return len(in.Script) == 0 && o.locking[0] == 0 && vm.VerifyWitness(o.locking[2:], in.Wit)
	}
	vm.Sig = func(sig, pub []byte) bool {
		return a.valid(sig, pub, m.LegacySigHash(i, vm.Code, uint32(sig[len(sig)-1])))
	}
	return len(in.Wit) == 0 && vm.Verify(in.Script, o.locking)
}

func (s *spendTx) spents() []spent {
	var o []spent
	for _, k := range s.kinds {
		o = append(o, spent{k.value, k.locking, k.redeem})
	}
	return o
}

// realVerdict parses the wire bytes, attaches the spent outputs, verifies.
func realVerdict(data []byte, sp []spent) error {
	tx := xcore.NewTransaction()
	if err := tx.Deserialize(clone(data)); err != nil {
		return fmt.Errorf("parse: %v", err)
	}
	for i, o := range sp {
		if err := tx.SetTxIn(i, o.value, clone(o.locking), cloneN(o.redeem)); err != nil {
			return fmt.Errorf("SetTxIn: %v", err)
		}
	}
	return tx.Verify()
}

// judge compares the verdicts on a wire-level transaction. exact: a rejection of what the model accepts is a failure too.
func (a *auth) judge(c *mc.Ctx, what string, m *ref.Tx, sp []spent, exact bool) bool {
	data := m.Full()
	want := a.accepts(m, sp)
	err := realVerdict(data, sp)
	c.Step(1)
	c.Valid(1)
	c.State(data)
	if err == nil && !want {
		c.Fail("accepted", "%s: the transaction verifies although it is not authorised: %s", what, hx(data))
	}
	if err != nil && want && exact {
		c.Fail("refused", "%s: the transaction is authorised but does not verify (%v): %s", what, err, hx(data))
	}
	if want {
		c.Outcome("authorised")
	} else {
		c.Outcome("unauthorised")
	}
	return want
}

// signNote signs input i through the library and records what was signed.
func (s *spendTx) signNote(a *auth, i int, ht xcore.SigHashType) error {
	if err := s.sign(i, ht); err != nil {
		return err
	}
	h := s.sigHash(s.model(), i, uint32(ht))
	k := s.kinds[i]
	n := 1
	if k.n > 0 {
		n = k.m
	}
	for j := 0; j < n; j++ {
		a.sig(k.keys[j], h, byte(ht))
	}
	for _, p := range k.keys {
		a.key(p)
	}
	return nil
}

type fieldMut struct {
	name string
	f    func(m *ref.Tx, sp []spent) (*ref.Tx, []spent)
}

func fieldMuts() []fieldMut {
	keep := func(f func(m *ref.Tx)) func(m *ref.Tx, sp []spent) (*ref.Tx, []spent) {
		return func(m *ref.Tx, sp []spent) (*ref.Tx, []spent) { f(m); return m, sp }
	}
	var o []fieldMut
	add := func(n string, f func(m *ref.Tx)) { o = append(o, fieldMut{n, keep(f)}) }
	add("nothing", func(m *ref.Tx) {})
	add("version+1", func(m *ref.Tx) { m.Ver++ })
	add("version high bit", func(m *ref.Tx) { m.Ver ^= 1 << 31 })
	add("locktime low", func(m *ref.Tx) { m.Lock ^= 1 })
	add("locktime high", func(m *ref.Tx) { m.Lock ^= 1 << 24 })
	for i := 0; i < 2; i++ {
		i := i
		add(fmt.Sprintf("input %d hash first byte", i), func(m *ref.Tx) { m.In[i].Hash[0] ^= 1 })
		add(fmt.Sprintf("input %d hash last byte", i), func(m *ref.Tx) { m.In[i].Hash[31] ^= 0x80 })
		add(fmt.Sprintf("input %d index low", i), func(m *ref.Tx) { m.In[i].Index ^= 1 })
		add(fmt.Sprintf("input %d index high", i), func(m *ref.Tx) { m.In[i].Index ^= 1 << 30 })
		add(fmt.Sprintf("input %d sequence low", i), func(m *ref.Tx) { m.In[i].Seq ^= 1 })
		add(fmt.Sprintf("input %d sequence high", i), func(m *ref.Tx) { m.In[i].Seq ^= 1 << 31 })
		add(fmt.Sprintf("output %d value low", i), func(m *ref.Tx) { m.Out[i].Value++ })
		add(fmt.Sprintf("output %d value high", i), func(m *ref.Tx) { m.Out[i].Value ^= 1 << 63 })
		add(fmt.Sprintf("output %d script byte", i), func(m *ref.Tx) { m.Out[i].Script[3] ^= 4 })
		add(fmt.Sprintf("output %d script longer", i), func(m *ref.Tx) { m.Out[i].Script = append(m.Out[i].Script, 0) })
		add(fmt.Sprintf("output %d script shorter", i), func(m *ref.Tx) { m.Out[i].Script = m.Out[i].Script[:len(m.Out[i].Script)-1] })
		for _, d := range []uint64{1, 1 << 40} {
			d := d
			o = append(o, fieldMut{fmt.Sprintf("input %d spent value ^%d", i, d), func(m *ref.Tx, sp []spent) (*ref.Tx, []spent) {
				sp[i].value ^= d
				return m, sp
			}})
		}
		o = append(o, fieldMut{fmt.Sprintf("input %d spends another output of the same kind", i), func(m *ref.Tx, sp []spent) (*ref.Tx, []spent) {
			sp[i].locking[len(sp[i].locking)-3] ^= 1
			return m, sp
		}}, fieldMut{fmt.Sprintf("input %d other redeem script", i), func(m *ref.Tx, sp []spent) (*ref.Tx, []spent) {
			if sp[i].redeem != nil {
				sp[i].redeem[0] ^= 3
				for _, l := range [][]byte{m.In[i].Script} {
					if n := len(l); n > 0 {
						l[n-len(sp[i].redeem)] ^= 3
					}
				}
				if n := len(m.In[i].Wit); n > 0 {
					m.In[i].Wit[n-1][0] ^= 3
				}
			} else {
				m.In[i].Seq ^= 2
			}
			return m, sp
		}}, fieldMut{fmt.Sprintf("input %d unlocking data removed", i), func(m *ref.Tx, sp []spent) (*ref.Tx, []spent) {
			m.In[i].Script, m.In[i].Wit = nil, nil
			return m, sp
		}}, fieldMut{fmt.Sprintf("input %d removed", i), func(m *ref.Tx, sp []spent) (*ref.Tx, []spent) {
			m.In = append(m.In[:i:i], m.In[i+1:]...)
			return m, append(sp[:i:i], sp[i+1:]...)
		}}, fieldMut{fmt.Sprintf("input %d spent twice", i), func(m *ref.Tx, sp []spent) (*ref.Tx, []spent) {
			m.In = append(m.In, m.In[i])
			return m, append(sp, sp[i])
		}})
	}
	add("output removed", func(m *ref.Tx) { m.Out = m.Out[:1] })
	add("first output removed", func(m *ref.Tx) { m.Out = m.Out[1:] })
	add("all outputs removed", func(m *ref.Tx) { m.Out = nil })
	add("output added", func(m *ref.Tx) { m.Out = append(m.Out, ref.TxOut{Value: 0, Script: nil}) })
	add("output inserted", func(m *ref.Tx) { m.Out = append([]ref.TxOut{{Value: 1, Script: []byte{0x51}}}, m.Out...) })
	add("outputs swapped", func(m *ref.Tx) { m.Out[0], m.Out[1] = m.Out[1], m.Out[0] })
	add("output values swapped", func(m *ref.Tx) { m.Out[0].Value, m.Out[1].Value = m.Out[1].Value, m.Out[0].Value })
	add("unlocking data swapped", func(m *ref.Tx) {
		m.In[0].Script, m.In[1].Script = m.In[1].Script, m.In[0].Script
		m.In[0].Wit, m.In[1].Wit = m.In[1].Wit, m.In[0].Wit
	})
	add("sequences swapped", func(m *ref.Tx) { m.In[0].Seq, m.In[1].Seq = m.In[1].Seq, m.In[0].Seq })
	add("outpoints swapped", func(m *ref.Tx) { m.In[0].Hash, m.In[1].Hash = m.In[1].Hash, m.In[0].Hash })
	o = append(o, fieldMut{"inputs swapped", func(m *ref.Tx, sp []spent) (*ref.Tx, []spent) {
		m.In[0], m.In[1] = m.In[1], m.In[0]
		sp[0], sp[1] = sp[1], sp[0]
		return m, sp
	}}, fieldMut{"spent values swapped", func(m *ref.Tx, sp []spent) (*ref.Tx, []spent) {
		sp[0].value, sp[1].value = sp[1].value, sp[0].value
		return m, sp
	}})
	return o
}

func cloneSpents(sp []spent) []spent {
	var o []spent
	for _, x := range sp {
		o = append(o, spent{x.value, clone(x.locking), cloneN(x.redeem)})
	}
	return o
}

// setReal writes the model's content into the real transaction's own inputs and outputs (same counts).
func (s *spendTx) setReal(m *ref.Tx, sp []spent) {
	s.tx.SetVersion(m.Ver)
	s.tx.SetLockTime(m.Lock)
	for i, k := range s.kinds {
		in := m.In[i]
		k.in.Hash, k.in.Index, k.in.Sequence, k.in.Value = clone(in.Hash), in.Index, in.Seq, sp[i].value
		if !k.witness {
			k.in.RawUnlockingScript = clone(in.Script)
		}
		k.in.Witness = nil
		for _, w := range in.Wit {
			k.in.Witness = append(k.in.Witness, clone(w))
		}
	}
	for i, o := range s.outs {
		o.Value, o.Script = m.Out[i].Value, clone(m.Out[i].Script)
	}
}

func c09(r *mc.Run) {
	r.Assume("forging a signature is impossible: a signature is valid for a key and a hash only if it was made by that key over that hash (the ECDSA arithmetic itself is C19's)")
	muts := fieldMuts()
	// every single change of a signed transaction, on the wire and in place
	r.Explore("field-changes", mc.Opts{}, func(c *mc.Ctx) {
		s, a := newSpendTx(), newAuth()
		k0, k1 := c.Pick("kind", len(spendKinds)), c.Pick("other kind", len(spendKinds))
		if r.Quick() && k1 != (k0+3)%len(spendKinds) && k1 != k0 {
			c.Skip()
		}
		s.add(spendKinds[k0])
		s.add(spendKinds[k1])
		s.outputs(2)
		h0 := sigHashTypes[c.Pick("hash type", 6)]
		h1 := []xcore.SigHashType{0x82, 1, 3, 0x83, 2, 0x81}[c.Pick("other hash type", r.Q(1, 6))]
		for i, h := range []xcore.SigHashType{h0, h1} {
			if err := s.signNote(a, i, h); err != nil {
				c.Fail("sign", "%v", err)
			}
		}
		for _, mu := range muts {
			m, sp := mu.f(s.model(), cloneSpents(s.spents()))
			what := fmt.Sprintf("%s signed with %#x,%#x, %s", kindsOf(s), h0, h1, mu.name)
			want := a.judge(c, what, m, sp, true)
			if mu.name == "nothing" && !want {
				c.Fail("model", "the model refuses the signed transaction: %s", what)
			}
			if len(m.In) == 2 && len(m.Out) == 2 && bytes.Equal(sp[0].locking, s.kinds[0].locking) && bytes.Equal(sp[1].locking, s.kinds[1].locking) &&
				bytes.Equal(sp[0].redeem, s.kinds[0].redeem) && bytes.Equal(sp[1].redeem, s.kinds[1].redeem) {
				orig, osp := s.model(), s.spents()
				s.setReal(m, sp)
				err := s.tx.Verify()
				c.Step(1)
				c.Valid(1)
				if (err == nil) != want {
					c.Fail("in-place", "%s (in place): Verify() = %v, authorised = %v", what, errStr(err), want)
				}
				s.setReal(orig, osp)
			}
		}
	})
	// the signature presented under every hash type byte
	r.Explore("hash-type-byte", mc.Opts{}, func(c *mc.Ctx) {
		s, a := newSpendTx(), newAuth()
		k := spendKinds[c.Pick("kind", len(spendKinds))]
		s.add(k)
		s.add(spendKinds[0])
		s.outputs(c.Pick("outputs", 3))
		ht := sigHashTypes[c.Pick("hash type", 6)]
		if err := s.signNote(a, 0, ht); err != nil {
			c.Fail("sign", "%v", err)
		}
		if err := s.signNote(a, 1, 0x82); err != nil {
			c.Fail("sign", "%v", err)
		}
		n := 256
		if r.Quick() {
			n = 24
		}
		for b := 0; b < n; b++ {
			x := byte(b)
			if r.Quick() {
				x = append([]byte{1, 2, 3, 0x81, 0x82, 0x83, 0, 4, 0x80, 0x84, 0x1f, 0x9f}, 0x21, 0x22, 0x23, 0x41, 0x43, 0x61, 0xa1, 0xc1, 0xc3, 0xe2, 0xff, 0x7f)[b]
			}
			m := s.model()
			in := &m.In[0]
			if k.witness {
				for j := range in.Wit {
					if l := len(in.Wit[j]); l > 60 && l < 75 && in.Wit[j][0] == 0x30 {
						in.Wit[j][l-1] = x
						break
					}
				}
			} else {
				p := 0
				if in.Script[0] == 0 {
					p = 1
				}
				in.Script[p+int(in.Script[p])] = x
			}
			a.judge(c, fmt.Sprintf("%s signed with %#x presented as %#x", k.name, ht, x), m, s.spents(), true)
		}
	})
	// every bit of the signed transaction's bytes
	r.Explore("bit-flips", mc.Opts{}, func(c *mc.Ctx) {
		k := spendKinds[c.Pick("kind", len(spendKinds))]
		ht := sigHashTypes[c.Pick("hash type", r.Q(1, 6))]
		s, a := newSpendTx(), newAuth()
		s.add(k)
		s.outputs(1)
		if err := s.signNote(a, 0, ht); err != nil {
			c.Fail("sign", "%v", err)
		}
		data := s.model().Full()
		part := c.Pick("part", 8)
		for p := part; p < len(data); p += 8 {
			for b := uint(0); b < 8; b++ {
				if r.Quick() && b != 0 && b != 7 && b != uint(p/8)%8 {
					continue
				}
				d := clone(data)
				d[p] ^= 1 << b
				m, ok := ref.ParseTx(d)
				if !ok || len(m.In) != 1 {
					continue
				}
				a.judge(c, fmt.Sprintf("%s, bit %d of byte %d of the signed transaction flipped", k.name, b, p), m, s.spents(), false)
			}
		}
	})
	// multisig inputs with every assignment of signatures to slots
	r.Explore("multisig-slots", mc.Opts{}, func(c *mc.Ctx) {
		mn := [][2]int{{2, 3}, {1, 2}, {2, 2}, {1, 1}, {3, 3}, {2, 4}}[c.Pick("m-of-n", r.Q(4, 6))]
		k := spendKind{fmt.Sprintf("%d-of-%d", mn[0], mn[1]), []int{kSH, kWSH}[c.Pick("kind", 2)], false, false, mn[0], mn[1]}
		k.witness = k.kind == kWSH
		s, a := newSpendTx(), newAuth()
		sp := s.add(k)
		s.outputs(1)
		h := s.sigHash(s.model(), 0, 1)
		other := ref.Sha256(h)
		var cands [][]byte
		for _, p := range sp.keys {
			cands = append(cands, a.sig(p, h, 1))
		}
		cands = append(cands, a.sig(testKeys[5], h, 1), a.sig(sp.keys[0], other, 1), []byte{})
		slots := c.Pick("slots", mn[0]+2)
		var items [][]byte
		names := ""
		for i := 0; i < slots; i++ {
			j := c.Pick("signature", len(cands))
			items = append(items, cands[j])
			names += fmt.Sprint(j, ",")
		}
		what := fmt.Sprintf("%s %s with signatures %s", kindNames[k.kind], k.name, names)
		dummy := c.Pick("dummy", 2) == 0
		st := items
		if dummy {
			st = append([][]byte{{}}, items...)
		}
		m := s.model()
		setUnlock(m, 0, k.witness, append(st, sp.redeem))
		a.judge(c, what, m, s.spents(), true)
		if slots > 0 && dummy {
			// and through the library's own embedding
			var signs []xcore.PubKeySign
			for i, it := range items {
				signs = append(signs, xcore.PubKeySign{PubKey: sp.keys[i%len(sp.keys)].PubKey().SerializeCompressed(), Signature: clone(it)})
			}
			want := a.accepts(m, s.spents())
			err := s.tx.EmbedIdxSignature(0, signs)
			if err == nil {
				err = s.tx.Verify()
			}
			c.Valid(1)
			if err == nil && !want {
				c.Fail("embedded", "%s, embedded: verifies although it is not authorised", what)
			}
			if err != nil && want {
				c.Fail("embedded-refused", "%s, embedded: does not verify: %v", what, err)
			}
		}
	})
	// signing with every sequence of keys through the library
	r.Explore("sign-with-keys", mc.Opts{}, func(c *mc.Ctx) {
		k := spendKinds[c.Pick("kind", len(spendKinds))]
		s, a := newSpendTx(), newAuth()
		sp := s.add(k)
		s.outputs(1)
		n := c.Pick("keys", 4)
		var keys []*xcrypto.PrvKey
		what := ""
		comp := c.Bool("compressed")
		h := s.sigHash(s.model(), 0, 1)
		for i := 0; i < n; i++ {
			j := c.Pick("key", len(sp.keys)+1)
			p := testKeys[6]
			if j < len(sp.keys) {
				p = sp.keys[j]
			}
			keys = append(keys, p)
			a.sig(p, h, 1)
			what += fmt.Sprint(j, ",")
		}
		err := s.tx.SignIndex(0, comp, 1, keys...)
		m := s.model()
		want := a.accepts(m, s.spents())
		if err == nil {
			err = s.tx.Verify()
		}
		c.Valid(1)
		if err == nil && !want {
			c.Fail("signed", "%s signed with keys %s (compressed=%v): verifies although it is not authorised", k.name, what, comp)
		}
		if err != nil && want {
			c.Fail("signed-refused", "%s signed with keys %s (compressed=%v): %v", k.name, what, comp, err)
		}
		if want {
			c.Outcome("authorised")
		} else {
			c.Outcome("unauthorised")
		}
	})
	// the attached redeem script is another than the one unlocked with, and the signatures are made for it
	r.Explore("attached-redeem", mc.Opts{}, func(c *mc.Ctx) {
		k := spendKinds[c.Pick("kind", len(spendKinds))]
		s, a := newSpendTx(), newAuth()
		sp := s.add(k)
		s.outputs(1)
		pubs := [][]byte{sp.keys[0].PubKey().SerializeCompressed(), testKeys[6].PubKey().SerializeCompressed()}
		rd := [][]byte{multisigScript(1, pubs[:1]), multisigScript(1, pubs[1:]), multisigScript(1, pubs), multisigScript(2, pubs), {0x51}, {}, sp.code,
			cat(sp.code, []byte{0x51}), append(pushBytes(pubs[0]), 0xac)}[c.Pick("attached", 9)]
		ht := sigHashTypes[c.Pick("hash type", r.Q(2, 6))]
		m := s.model()
		sps := s.spents()
		sps[0].redeem = rd
		over := [][]byte{rd, sp.code, {}, sp.locking, ref.Hash160(rd)}[c.Pick("signed script", 5)]
		var h []byte
		if sp.witness {
			h = m.WitnessSigHash(0, over, sp.value, uint32(ht))
		} else {
			h = m.LegacySigHash(0, over, uint32(ht))
		}
		signers := sp.keys
		if c.Bool("other signer") {
			signers = testKeys[6:]
		}
		var items [][]byte
		if k.n == 0 {
			items = [][]byte{a.sig(signers[0], h, byte(ht)), pubs[0]}
			if k.uncompressed {
				items[1] = sp.keys[0].PubKey().SerializeUncompressed()
			}
		} else {
			items = [][]byte{{}}
			for j := 0; j < k.m; j++ {
				items = append(items, a.sig(signers[j%len(signers)], h, byte(ht)))
			}
			if c.Bool("unlock with the attached one") {
				items = append(items, rd)
			} else {
				items = append(items, sp.redeem)
			}
		}
		if c.Bool("extra item") {
			items = append(items, rd)
		}
		setUnlock(m, 0, k.witness, items)
		a.judge(c, fmt.Sprintf("%s with redeem script %x attached, signatures over script code %x", k.name, rd, over), m, sps, false)
	})
	// redeem scripts other than multisig: every short script
	r.Explore("redeem-scripts", mc.Opts{}, func(c *mc.Ctx) {
		s, a := newSpendTx(), newAuth()
		kind := []int{kSH, kWSH}[c.Pick("kind", 2)]
		p := testKeys[0]
		pub := p.PubKey().SerializeCompressed()
		alpha := [][]byte{append(pushBytes(pub), 0xac), append(pushBytes(pub), 0xad), {0x51}, {0x00}, {0x6a}, {0x75}, {0x76}, {0x69}, {0x63}, {0x68}, {0x67}, {0x87}, {0x88}, {0x91}, {0xac}, {0xae}, {0x61}, {0x01, 0x80}, {0x7c}, {0x6b}}
		var redeem []byte
		n := c.Pick("length", r.Q(3, 4)+1)
		for i := 0; i < n; i++ {
			redeem = append(redeem, alpha[c.Pick("op", len(alpha))]...)
		}
		if redeem == nil {
			redeem = []byte{}
		}
		sp := &spendIn{spendKind: spendKind{name: kindNames[kind], kind: kind, witness: kind == kWSH}, keys: []*xcrypto.PrvKey{p}, redeem: redeem, code: redeem, value: 5}
		if kind == kSH {
			sp.locking = refLocking(kSH, ref.Hash160(redeem))
		} else {
			sp.locking = refLocking(kWSH, ref.Sha256(redeem))
		}
		s.addSpend(sp)
		s.outputs(1)
		m := s.model()
		sig := a.sig(p, s.sigHash(m, 0, 1), 1)
		for _, st := range [][][]byte{nil, {sig}, {{1}}, {{}}, {{1}, sig}, {sig, pub}, {sig, sig}, {{1}, {1}}, {{}, sig}, {sig, {}}, {{1}, {}},
			{{1}, {1}, {1}}, {{}, {1}, {1}, sig}, {{1}, {1}, {1}, {1}, {1}, {1}}, {{0}}, {{1}, {0}}, {{1}, {1}, {0}}, {{1}, {0x80}}, {{0}, sig}} {
			setUnlock(m, 0, sp.witness, append(st[:len(st):len(st)], redeem))
			a.judge(c, fmt.Sprintf("%s of %x with items %x", sp.name, redeem, st), m, s.spents(), true)
		}
	})
	// arbitrary unlocking data: every short sequence of instructions and items
	r.Explore("unlocking-data", mc.Opts{}, func(c *mc.Ctx) {
		kind := c.Pick("kind", len(spendKinds)+1)
		s, a := newSpendTx(), newAuth()
		var sp *spendIn
		if kind < len(spendKinds) {
			sp = s.add(spendKinds[kind])
		} else {
			// P2SH of a version 0 witness program
			p := testKeys[3]
			prog := refLocking(kWPKH, ref.Hash160(p.PubKey().SerializeCompressed()))
			sp = &spendIn{spendKind: spendKind{name: "P2SH-P2WPKH", kind: kSH}, keys: []*xcrypto.PrvKey{p}, redeem: prog, locking: refLocking(kSH, ref.Hash160(prog)), code: pkhCode(prog[2:]), value: 5}
			s.addSpend(sp)
		}
		s.outputs(1)
		h := s.sigHash(s.model(), 0, 1)
		own := a.sig(sp.keys[0], h, 1)
		wrong := a.sig(testKeys[6], h, 1)
		pub := sp.keys[0].PubKey().SerializeCompressed()
		unc := sp.keys[0].PubKey().SerializeUncompressed()
		if sp.uncompressed {
			pub, unc = unc, pub
		}
		hyb := clone(sp.keys[0].PubKey().SerializeUncompressed())
		hyb[0] = 6 | sp.keys[0].PubKey().SerializeCompressed()[0]&1
		redeem := sp.redeem
		if redeem == nil {
			redeem = sp.code
		}
		other := multisigScript(1, [][]byte{testKeys[6].PubKey().SerializeCompressed()})
		items := [][]byte{own, pub, redeem, {}, wrong, testKeys[6].PubKey().SerializeCompressed(), other, {0x51}, {1}, unc, hyb, {0}}
		ops := []byte{0x76, 0x63, 0x64, 0x67, 0x68, 0x6a, 0x75, 0x7c, 0x88, 0x87, 0x51, 0x6e, 0xae, 0xff, 0x61}
		depth := r.Q(4, 5)
		nit := len(items)
		alpha := nit + len(ops)
		mode := 0
		if sp.witness {
			alpha = nit
			mode = c.Pick("scriptSig", 3)
		}
		var st [][]byte
		var script []byte
		n := c.Pick("length", depth+1)
		if !sp.witness && n > r.Q(3, 4) {
			// longer scripts over the first part of the alphabet
			alpha = 7
			ops = []byte{0x76, 0x63, 0x68}
			items = items[:4]
			nit = 4
			if n == 4 {
				alpha = 7
			}
		} else if sp.witness && n > 3 {
			alpha = 6
		}
		for i := 0; i < n; i++ {
			j := c.Pick("item", alpha)
			if j < nit {
				st = append(st, items[j])
				if len(items[j]) == 0 {
					script = append(script, 0)
				} else {
					script = append(script, pushBytes(items[j])...)
				}
			} else {
				script = append(script, ops[j-nit])
			}
		}
		m := s.model()
		sps := s.spents()
		if sp.witness {
			m.In[0].Wit = nil
			for _, x := range st {
				m.In[0].Wit = append(m.In[0].Wit, clone(x))
			}
			m.In[0].Script = [][]byte{nil, {0x51}, script}[mode]
		} else {
			m.In[0].Script = script
			wits := [][][]byte{nil, {own, pub}, {{}}, {{}, {1}}, {{}, {}, {}}, {{1}}}
			if n > 2 {
				wits = wits[:r.Q(2, 4)]
			}
			m.In[0].Wit = wits[c.Pick("witness", len(wits))]
		}
		a.judge(c, fmt.Sprintf("%s with unlocking script %s and witness %x", sp.name, hx(m.In[0].Script), m.In[0].Wit), m, sps, true)
		// the attached redeem script is not what is unlocked with
		if sp.kind == kSH || sp.kind == kWSH {
			for _, rd := range [][]byte{other, nil} {
				if n > 2 && r.Quick() && rd == nil {
					continue
				}
				x := cloneSpents(sps)
				x[0].redeem = rd
				a.judge(c, fmt.Sprintf("%s with redeem script %x attached, unlocking script %s and witness %x", sp.name, rd, hx(m.In[0].Script), m.In[0].Wit), m, x, false)
			}
		}
	})
	// many inputs, one of which is not authorised
	r.Explore("many-inputs", mc.Opts{}, func(c *mc.Ctx) {
		n := []int{1, 2, 3, 4, 5, 8, 16, 17, 33}[c.Pick("inputs", r.Q(8, 9))]
		k := spendKinds[c.Pick("kind", len(spendKinds))]
		mixed := c.Bool("mixed kinds")
		s, a := newSpendTx(), newAuth()
		for i := 0; i < n; i++ {
			if mixed && i%2 == 1 {
				s.add(spendKinds[(i/2)%len(spendKinds)])
			} else {
				s.add(k)
			}
		}
		s.outputs(1)
		for i := 0; i < n; i++ {
			if err := s.signNote(a, i, 1); err != nil {
				c.Fail("sign", "%v", err)
			}
		}
		if !a.judge(c, fmt.Sprintf("%d inputs %s", n, kindsOf(s)), s.model(), s.spents(), true) {
			c.Fail("model", "the model refuses the signed transaction")
		}
		good := s.model()
		bad := func(i int) [][]byte {
			if k := s.kinds[i]; k.witness {
				return good.In[i].Wit
			}
			return nil
		}
		for i := 0; i < n; i++ {
			for how := 0; how < 4; how++ {
				m := s.model()
				switch how {
				case 0:
					m.In[i].Script, m.In[i].Wit = nil, nil
				case 1: // one byte of a signature
					if w := bad(i); w != nil {
						for j := range m.In[i].Wit {
							if l := len(m.In[i].Wit[j]); l > 60 && m.In[i].Wit[j][0] == 0x30 {
								m.In[i].Wit[j][l-3] ^= 1
								break
							}
						}
					} else {
						q := 0
						if m.In[i].Script[0] == 0 {
							q = 1
						}
						m.In[i].Script[q+int(m.In[i].Script[q])-2] ^= 1
					}
				case 2: // the unlocking data of the next input of the same kind
					j := (i + 1) % n
					if j == i {
						continue
					}
					m.In[i].Script, m.In[i].Wit = clone(good.In[j].Script), good.In[j].Wit
				case 3: // an unlocking script that is true, or a witness that is
					if s.kinds[i].witness {
						m.In[i].Script, m.In[i].Wit = nil, [][]byte{{1}}
					} else {
						m.In[i].Script, m.In[i].Wit = []byte{0x51}, nil
					}
				}
				a.judge(c, fmt.Sprintf("%d inputs %s, input %d spoilt (%d)", n, kindsOf(s), i, how), m, s.spents(), false)
			}
		}
	})
	// inputs that spend the same outpoint or the same kind of output of the same key, each with its own unlocking data,
	// a neighbour's, a spoilt one or none: each of them must be authorised
	r.Explore("alike-inputs", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("inputs", r.Q(2, 3)) + 2
		ks := append([]spendKind{{"P2WSH 2-of-3", kWSH, false, true, 2, 3}}, spendKinds...)
		k := ks[c.Pick("kind", len(ks))]
		hts := []byte{1, 0x82, 3, 0x81, 2, 0x83}
		if n == 3 && r.Quick() {
			hts = hts[:2]
		}
		ht := hts[c.Pick("hash type", len(hts))]
		point := c.Pick("outpoints", 3)
		s, a := newSpendTx(), newAuth()
		for i := 0; i < n; i++ {
			sp := mkSpend(0, k)
			s.addSpend(sp)
			if i > 0 && point > 0 {
				sp.in.Hash, sp.in.Sequence = clone(s.kinds[0].in.Hash), s.kinds[0].in.Sequence
				if point == 2 {
					sp.in.Index = s.kinds[0].in.Index
				}
			}
		}
		s.outputs(1)
		for i := 0; i < n; i++ {
			if err := s.signNote(a, i, xcore.SigHashType(ht)); err != nil {
				c.Fail("sign", "%v", err)
			}
		}
		good := s.model()
		m := s.model()
		what := fmt.Sprintf("%d inputs %s signed with %#x, outpoints alike %d:", n, k.name, ht, point)
		for i := 0; i < n; i++ {
			from := c.Pick("unlocking", n+3)
			what += fmt.Sprint(" ", from)
			switch {
			case from < n:
				m.In[i].Script, m.In[i].Wit = clone(good.In[from].Script), nil
				for _, w := range good.In[from].Wit {
					m.In[i].Wit = append(m.In[i].Wit, clone(w))
				}
			case from == n:
				m.In[i].Script, m.In[i].Wit = nil, nil
			case from == n+1: // one byte of the last signature
				for j := range m.In[i].Wit {
					if l := len(m.In[i].Wit[j]); l > 60 && m.In[i].Wit[j][0] == 0x30 {
						m.In[i].Wit[j][l-3] ^= 1
						break
					}
				}
				if !k.witness {
					q := 0
					if m.In[i].Script[0] == 0 {
						q = 1
					}
					m.In[i].Script[q+int(m.In[i].Script[q])-2] ^= 1
				}
			default: // anything that is true by itself
				m.In[i].Script, m.In[i].Wit = []byte{0x51}, nil
				if k.witness {
					m.In[i].Script, m.In[i].Wit = nil, [][]byte{{1}}
				}
			}
		}
		a.judge(c, what, m, s.spents(), true)
	})
}

// setUnlock sets the unlocking data of input i: pushes of the items or the witness stack.
func setUnlock(m *ref.Tx, i int, witness bool, items [][]byte) {
	m.In[i].Script, m.In[i].Wit = nil, nil
	for _, x := range items {
		if witness {
			m.In[i].Wit = append(m.In[i].Wit, clone(x))
		} else if len(x) == 0 {
			m.In[i].Script = append(m.In[i].Script, 0)
		} else {
			m.In[i].Script = append(m.In[i].Script, pushBytes(x)...)
		}
	}
}
