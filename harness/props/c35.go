package props

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net"
	"strings"
	"time"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xprotocol"
	"github.com/keyfuse/tokucore/xvm"
)

func init() { mc.Register("C35", c35) }

// txPicture is all that can be seen of a transaction under construction.
func txPicture(s *spendTx) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%x %x %s %s %v %d\n", s.tx.Serialize(), s.tx.SerializeNoWitness(), s.tx.ID(), s.tx.WitnessID(), s.tx.HasWitness(), s.tx.Fees())
	for i, k := range s.kinds {
		in := k.in
		fmt.Fprintf(&b, "input %d: hash %x index %d value %d seq %x redeem %x code %x lock %x final %x unlock %x wit %x\n", i, in.Hash, in.Index, in.Value, in.Sequence, in.RedeemScript, in.WitnessScriptCode, in.RawLockingScript, in.FinalLockingScript, in.RawUnlockingScript, in.Witness)
	}
	for i, o := range s.outs {
		fmt.Fprintf(&b, "output %d: %d %x\n", i, o.Value, o.Script)
	}
	return b.String()
}

func diffAt(a, b string) string { return around(a, b) + " / " + around(b, a) }

// failCall is a call that the documentation says is refused; it may leave no mark.
type failCall struct {
	name string
	do   func(s *spendTx) error
}

func failCalls35(n int) []failCall {
	var o []failCall
	add := func(name string, f func(s *spendTx) error) { o = append(o, failCall{name, f}) }
	k := testKeys
	sig := xcore.PubKeySign{PubKey: rep(2, 33), Signature: rep(0x30, 71)}
	for _, i := range []int{-1, n, math.MaxInt64} {
		i := i
		nm := func(f string) string { return fmt.Sprintf("%s(%d)", f, i) }
		add(nm("SignIndex"), func(s *spendTx) error { return s.tx.SignIndex(i, true, 1, k[0]) })
		add(nm("SetTxIn"), func(s *spendTx) error { return s.tx.SetTxIn(i, 9, pkhCode(rep(1, 20)), nil) })
		add(nm("EmbedIdxSignature"), func(s *spendTx) error { return s.tx.EmbedIdxSignature(i, []xcore.PubKeySign{sig}) })
		add(nm("EmbedIdxEcdsaSignature"), func(s *spendTx) error { return s.tx.EmbedIdxEcdsaSignature(i, k[0].PubKey(), rep(0x30, 70), 1) })
		add(nm("RawSignature"), func(s *spendTx) error { _, e := s.tx.RawSignature(i, 1, k[0]); return e })
		add(nm("WitnessSignature"), func(s *spendTx) error { _, e := s.tx.WitnessSignature(i, 1, k[0]); return e })
	}
	for i := 0; i < n; i++ {
		i := i
		nm := func(f string) string { return fmt.Sprintf("%s of input %d", f, i) }
		add(nm("SignIndex without keys"), func(s *spendTx) error {
			if s.kinds[i].redeem != nil {
				return nil
			}
			return s.tx.SignIndex(i, true, 1)
		})
		add(nm("EmbedIdxSignature without signatures"), func(s *spendTx) error {
			if s.kinds[i].redeem != nil {
				return nil
			}
			return s.tx.EmbedIdxSignature(i, nil)
		})
		add(nm("SignIndex with three keys and no redeem script"), func(s *spendTx) error {
			if s.kinds[i].redeem != nil {
				return nil
			}
			return s.tx.SignIndex(i, true, 1, k[0], k[1], k[2])
		})
		add(nm("EmbedIdxSignature with two signatures and no redeem script"), func(s *spendTx) error {
			if s.kinds[i].redeem != nil {
				return nil
			}
			return s.tx.EmbedIdxSignature(i, []xcore.PubKeySign{sig, sig})
		})
		for _, bad := range [][]byte{nil, {0x51}, rep(0, 50)} {
			bad := bad
			// the redeem script is taken away for the call and given back
			with := func(f func(s *spendTx) error) func(s *spendTx) error {
				return func(s *spendTx) error {
					if s.kinds[i].kind != kWSH {
						return nil
					}
					in := s.kinds[i].in
					keep := in.RedeemScript
					in.RedeemScript = bad
					err := f(s)
					in.RedeemScript = keep
					return err
				}
			}
			add(nm(fmt.Sprintf("SignIndex with the redeem script %x", bad)), with(func(s *spendTx) error { return s.tx.SignIndex(i, true, 1, s.kinds[i].keys[0]) }))
			add(nm(fmt.Sprintf("EmbedIdxSignature with the redeem script %x", bad)), with(func(s *spendTx) error { return s.tx.EmbedIdxSignature(i, []xcore.PubKeySign{sig}) }))
		}
		for _, l := range [][]byte{nil, {0x51}, {0x4c}, {0x4d, 9}, {0xff}, pkhCode(rep(3, 20))[:24], cat([]byte{0}, pushBytes(rep(1, 19))), cat(pkhCode(rep(3, 20)), []byte{0x61})} {
			l := l
			add(nm(fmt.Sprintf("SetTxIn with the script %x", l)), func(s *spendTx) error { return s.tx.SetTxIn(i, 12345, l, rep(7, 3)) })
		}
		add(nm("SetTxIn with a witness program"), func(s *spendTx) error {
			if s.kinds[i].witness {
				return nil
			}
			return s.tx.SetTxIn(i, 12345, refLocking(kWPKH, rep(3, 20)), nil)
		})
		add(nm("WitnessSignature"), func(s *spendTx) error {
			if s.kinds[i].witness {
				return nil
			}
			_, e := s.tx.WitnessSignature(i, 1, k[0])
			return e
		})
	}
	for _, d := range []int{0, 1, 5, 40, 60} {
		d := d
		add(fmt.Sprintf("Deserialize of its own first %d bytes", d), func(s *spendTx) error { return s.tx.Deserialize(s.tx.Serialize()[:d]) })
		add(fmt.Sprintf("DeserializeNoWitness of its own without the last %d bytes", d+1), func(s *spendTx) error {
			b := s.tx.SerializeNoWitness()
			if d+1 > len(b) {
				return nil
			}
			return s.tx.DeserializeNoWitness(b[:len(b)-d-1])
		})
	}
	return o
}

func c35(r *mc.Run) {
	r.Assume("TxIn.SignatureHash, the hash last computed, is not counted as part of what a failed signing call may not change")
	shapes := [][]int{{0}, {2}, {4}, {6}, {0, 2}, {4, 6}, {2, 0, 6}, {5, 1}, {3, 4, 5}}
	nf := make([]int, 4)
	for n := 1; n <= 3; n++ {
		nf[n] = len(failCalls35(n))
	}
	// one call to make and sign, with refused calls between its steps
	walk := func(c *mc.Ctx, shape []int, at, count int) {
		n := len(shape)
		calls := failCalls35(n)
		var picked []failCall
		for i := 0; i < count; i++ {
			picked = append(picked, calls[c.Pick("refused call", len(calls))])
		}
		s := newSpendTx()
		for _, k := range shape {
			s.add(spendKinds[k])
		}
		s.outputs(2)
		refuse := func(where string) {
			for _, f := range picked {
				before := txPicture(s)
				err := f.do(s)
				c.Step(1)
				if err == nil {
					c.Skip() // not a refused call: nothing to say
				}
				c.Valid(1)
				if after := txPicture(s); after != before {
					c.Fail("changed", "%v: %s, %s, is refused (%v) and changes the transaction: %s", shape, f.name, where, err, diffAt(before, after))
				}
			}
		}
		if at == 0 {
			refuse("before signing")
		}
		for i := range shape {
			if err := s.sign(i, sigHashTypes[i%3]); err != nil {
				c.Fail("sign", "%v: signing input %d after the refused call %s: %v", shape, i, picked[0].name, err)
			}
			if at == i+1 {
				refuse(fmt.Sprintf("after signing input %d", i))
			}
		}
		if err := s.tx.Verify(); err != nil {
			c.Fail("verify", "%v: with the refused call %s the signed transaction does not verify: %v", shape, picked[0].name, err)
		}
		// what it would be without
		u := newSpendTx()
		for _, k := range shape {
			u.add(spendKinds[k])
		}
		u.outputs(2)
		for i := range shape {
			if err := u.sign(i, sigHashTypes[i%3]); err != nil {
				c.Fail("sign", "%v: signing input %d: %v", shape, i, err)
			}
		}
		if a, b := txPicture(s), txPicture(u); a != b {
			c.Fail("differs", "%v: with the refused call %s: %s", shape, picked[0].name, diffAt(a, b))
		}
		c.StateS(fmt.Sprint(shape, at, picked[0].name))
	}
	r.Explore("signing", mc.Opts{}, func(c *mc.Ctx) {
		shape := shapes[c.Pick("inputs", len(shapes))]
		walk(c, shape, c.Pick("after", len(shape)+1), 1)
	})
	r.Explore("signing-pairs", mc.Opts{}, func(c *mc.Ctx) {
		sh := [][]int{{2}, {4}, {6}, {0}}
		shape := sh[c.Pick("inputs", r.Q(2, 4))]
		walk(c, shape, 1, 2)
	})

	// a parse that is refused leaves the transaction it was called on alone
	r.Explore("parse", mc.Opts{}, func(c *mc.Ctx) {
		shape := shapes[c.Pick("inputs", len(shapes))]
		s := newSpendTx()
		for _, k := range shape {
			s.add(spendKinds[k])
		}
		s.outputs(2)
		signed := c.Bool("signed")
		if signed {
			for i := range shape {
				if err := s.sign(i, 1); err != nil {
					c.Fail("sign", "%v", err)
				}
			}
		}
		// what is parsed: another transaction, cut or with a count spoiled
		o := newSpendTx()
		for _, k := range shapes[6] {
			o.add(spendKinds[k])
		}
		o.outputs(3)
		for i := range shapes[6] {
			if err := o.sign(i, 1); err != nil {
				c.Fail("sign", "%v", err)
			}
		}
		stripped := c.Bool("without witness")
		raw := o.tx.Serialize()
		if stripped {
			raw = o.tx.SerializeNoWitness()
		}
		parse := func(b []byte) error {
			if stripped {
				return s.tx.DeserializeNoWitness(b)
			}
			return s.tx.Deserialize(b)
		}
		before := txPicture(s)
		refused := 0
		for n := 0; n < len(raw); n++ {
			for _, b := range [][]byte{raw[:n], cat(raw[:n], []byte{0xff}, rep(0xff, 8), raw[n:])} {
				c.Step(1)
				if err := parse(clone(b)); err == nil {
					// accepted: another transaction now
					s = newSpendTx()
					for _, k := range shape {
						s.add(spendKinds[k])
					}
					s.outputs(2)
					if signed {
						for i := range shape {
							_ = s.sign(i, 1)
						}
					}
					continue
				}
				refused++
				c.Valid(1)
				if after := txPicture(s); after != before {
					c.Fail("parse", "%v: parsing %x is refused and changes the transaction: %s", shape, b, diffAt(before, after))
				}
			}
		}
		if signed {
			if err := s.tx.Verify(); err != nil {
				c.Fail("parse-verify", "%v: after %d refused parses the signed transaction does not verify: %v", shape, refused, err)
			}
		}
		if err := parse(clone(raw)); err != nil {
			c.Fail("parse-good", "%v: after %d refused parses a good one is refused: %v", shape, refused, err)
		}
		if got := s.tx.Serialize(); !bytes.Equal(got, raw) {
			c.Fail("parse-good", "%v: after %d refused parses a good one gives %x, want %x", shape, refused, got, raw)
		}
		c.StateS(fmt.Sprint(shape, signed, stripped))
	})
	builder35(r)
	messages35(r)
	stream35(r)
	r.Explore("stack", mc.Opts{}, func(c *mc.Ctx) { stackRefusals35(c, r.Q(4, 5)) })
	withPool(func() { mpc35(r) })
}

// builder35: a build that is refused, put right, gives what a builder that was right from the start gives.
func builder35(r *mc.Run) {
	key := testKeys[0]
	pub := key.PubKey()
	lock := hex.EncodeToString(pkhCode(pub.Hash160()))
	to := xcore.NewPayToPubKeyHashAddress(rep(5, 20))
	to2 := xcore.NewPayToScriptHashAddress(rep(8, 20))
	chg := xcore.NewPayToPubKeyHashAddress(rep(6, 20))
	coin := func(i int, v uint64) *xcore.Coin {
		return xcore.NewCoinBuilder().AddOutput(strings.Repeat(fmt.Sprintf("%02x", 0x10+i), 32), uint32(i), v, lock).ToCoins()[0]
	}
	badCoin := func(id, script string) *xcore.Coin {
		return xcore.NewCoinBuilder().AddOutput(id, 0, 5000, script).ToCoins()[0]
	}
	good := strings.Repeat("11", 32)
	type fault struct {
		name    string
		spoil   func(b *xcore.TransactionBuilder)
		correct func(b *xcore.TransactionBuilder)
	}
	faults := []fault{
		{"no change address", func(b *xcore.TransactionBuilder) { b.SetChange(nil) }, func(b *xcore.TransactionBuilder) { b.SetChange(chg) }},
		{"a fee above the maximum", func(b *xcore.TransactionBuilder) { b.SendFees(900000).SetMaxFees(1000) }, func(b *xcore.TransactionBuilder) { b.SendFees(800).SetMaxFees(1000) }},
		{"a fee above what is left", func(b *xcore.TransactionBuilder) { b.SendFees(99000) }, func(b *xcore.TransactionBuilder) { b.SendFees(800) }},
		{"a huge fee", func(b *xcore.TransactionBuilder) { b.SendFees(math.MaxUint64) }, func(b *xcore.TransactionBuilder) { b.SendFees(800) }},
		{"a fee rate above the maximum", func(b *xcore.TransactionBuilder) { b.SetRelayFeePerKb(math.MaxInt32) }, func(b *xcore.TransactionBuilder) { b.SetRelayFeePerKb(0) }},
		{"a payment above the coins", func(b *xcore.TransactionBuilder) { b.To(to, 1000000) }, func(b *xcore.TransactionBuilder) { b.To(to, 3000) }},
		{"a payment that overflows", func(b *xcore.TransactionBuilder) { b.To(to, math.MaxUint64) }, func(b *xcore.TransactionBuilder) { b.To(to, 3000) }},
		{"a coin twice", func(b *xcore.TransactionBuilder) { b.AddCoin(coin(0, 4000)) }, func(b *xcore.TransactionBuilder) { b.AddCoin(coin(9, 4000)) }},
		{"a coin of no transaction", func(b *xcore.TransactionBuilder) { b.AddCoin(badCoin("zz", lock)) }, func(b *xcore.TransactionBuilder) { b.AddCoin(coin(9, 4000)) }},
		{"a coin with a strange script", func(b *xcore.TransactionBuilder) { b.AddCoin(badCoin(good, "51")) }, func(b *xcore.TransactionBuilder) { b.AddCoin(coin(9, 4000)) }},
		{"a coin with no script", func(b *xcore.TransactionBuilder) { b.AddCoin(badCoin(good, "5")) }, func(b *xcore.TransactionBuilder) { b.AddCoin(coin(9, 4000)) }},
		{"a coin that overflows", func(b *xcore.TransactionBuilder) { b.AddCoin(coin(9, math.MaxUint64)) }, func(b *xcore.TransactionBuilder) { b.AddCoin(coin(9, 4000)) }},
		{"no keys", func(b *xcore.TransactionBuilder) { b.AddKeys() }, func(b *xcore.TransactionBuilder) { b.AddKeys(key) }},
		{"two keys and no redeem script", func(b *xcore.TransactionBuilder) { b.AddKeys(key, testKeys[1]) }, func(b *xcore.TransactionBuilder) { b.AddKeys(key) }},
	}
	base := func(groups int, data bool) *xcore.TransactionBuilder {
		b := xcore.NewTransactionBuilder()
		for g := 0; g < groups; g++ {
			if g > 0 {
				b.Then()
			}
			b.AddCoin(coin(g, 20000+uint64(g))).AddKeys(key)
			if g%2 == 0 {
				b.To(to2, 1500+uint64(g))
			}
		}
		// the group that is spoiled and put right
		b.Then().AddCoin(coin(9, 4000)).AddKeys(key).To(to, 3000)
		b.SetChange(chg).SendFees(800).SetMaxFees(1000).SetLockTime(77).Sign()
		if data {
			b.AddPushData([]byte("data"))
		}
		return b
	}
	r.Explore("builder", mc.Opts{}, func(c *mc.Ctx) {
		groups := 1 + c.Pick("groups", 3)
		data := c.Bool("data output")
		b := base(groups, data)
		// what it gives without a refused build
		w := base(groups, data)
		var names []string
		built := c.Bool("built once before")
		if built {
			if _, err := b.BuildTransaction(); err != nil {
				c.Fail("build", "the builder is refused: %v", err)
			}
		}
		for n := r.Q(2, 3); n > 0; n-- {
			f := faults[c.Pick("fault", len(faults))]
			names = append(names, f.name)
			f.spoil(b)
			for k := 1 + c.Pick("builds", 2); k > 0; k-- {
				tx, err := b.BuildTransaction()
				c.Step(1)
				c.Valid(1)
				if err == nil {
					c.Fail("accepted", "a build with %s is accepted", f.name)
				}
				if tx != nil {
					c.Fail("both", "a build with %s gives an error and a transaction", f.name)
				}
			}
			f.correct(b)
			f.correct(w) // to have made the same calls that succeed
		}
		tx, err := b.BuildTransaction()
		ux, uerr := w.BuildTransaction()
		if uerr != nil {
			c.Fail("build", "the builder is refused: %v", uerr)
		}
		if err != nil {
			c.Fail("corrected", "%d groups: after refused builds (%s), put right, the build is still refused: %v", groups, strings.Join(names, "; "), err)
		}
		if got, want := tx.Serialize(), ux.Serialize(); !bytes.Equal(got, want) {
			c.Fail("corrected", "%d groups: after refused builds (%s), put right, the transaction is %x, want %x", groups, strings.Join(names, "; "), got, want)
		}
		if err := tx.Verify(); err != nil {
			c.Fail("corrected", "%d groups: after refused builds (%s), put right, the transaction does not verify: %v", groups, strings.Join(names, "; "), err)
		}
		c.StateS(fmt.Sprint(groups, data, names))
	})
}

// messages35: a list that is full stays as it was.
func messages35(r *mc.Run) {
	r.Explore("message-limits", mc.Opts{}, func(c *mc.Ctx) {
		kind := c.Pick("message", 3)
		max := []int{xprotocol.MaxInvPerMsg, xprotocol.MaxInvPerMsg, xprotocol.MaxBlockHeadersPerMsg}[kind]
		have := []int{0, 1, max - 2, max - 1, max}[c.Pick("have", 5)]
		var enc func() []byte
		var add func(n int) error
		iv := func(n int) []*xprotocol.InvVect { l, _ := invs(n, 1); return l }
		hd := func(n int) (o []*xprotocol.BlockHeader) {
			for i := 0; i < n; i++ {
				o = append(o, hdr(i, 1))
			}
			return o
		}
		switch kind {
		case 0:
			m := xprotocol.NewMsgInv()
			enc, add = m.Encode, func(n int) error { return m.AddInvVect(iv(n)...) }
		case 1:
			m := xprotocol.NewMsgGetData()
			enc, add = m.Encode, func(n int) error { return m.AddInvVect(iv(n)...) }
		case 2:
			m := xprotocol.NewMsgHeaders()
			enc, add = m.Encode, func(n int) error { return m.AddBlockHeader(hd(n)...) }
		}
		if err := add(have); err != nil {
			c.Fail("limit", "%d items are refused: %v", have, err)
		}
		for _, n := range []int{max - have + 1, max - have + 2, max + 1, 2 * max} {
			before := enc()
			err := add(n)
			c.Step(1)
			c.Valid(1)
			if err == nil {
				c.Fail("limit", "kind %d: %d items added to %d are accepted", kind, n, have)
			}
			if !bytes.Equal(enc(), before) {
				c.Fail("limit-changed", "kind %d: adding %d items to %d is refused and changes the message", kind, n, have)
			}
		}
		if err := add(max - have); err != nil {
			c.Fail("limit-after", "kind %d: after refusals, %d items added to %d are refused: %v", kind, max-have, have, err)
		}
		before := enc()
		if add(1) == nil || !bytes.Equal(enc(), before) {
			c.Fail("limit-full", "kind %d: adding one item to a full message", kind)
		}
		c.StateU(uint64(kind), uint64(have))
	})
	// a message whose decoding was refused decodes a good payload as a fresh one does
	msgs := protoMsgs()
	r.Explore("message-decode", mc.Opts{}, func(c *mc.Ctx) {
		p := msgs[c.Pick("message", len(msgs))]
		step := 1
		if len(p.payload) > 400 {
			step = len(p.payload) / 200
		}
		m := p.fresh()
		refused := 0
		for n := 0; n < len(p.payload); n += step {
			c.Step(1)
			if err := m.Decode(clone(p.payload[:n])); err != nil {
				refused++
			}
		}
		c.Valid(1)
		f := p.fresh()
		if err := f.Decode(clone(p.payload)); err != nil {
			return // not a payload that is accepted
		}
		if err := m.Decode(clone(p.payload)); err != nil {
			c.Fail("decode", "%s: after %d refused payloads a good one is refused: %v", p.name, refused, err)
		}
		if err := sameMsg(m, f); err != nil {
			c.Fail("decode", "%s: after %d refused payloads a good one decodes differently: %v", p.name, refused, err)
		}
		if !bytes.Equal(m.Encode(), f.Encode()) {
			c.Fail("decode", "%s: after %d refused payloads a good one encodes as %s", p.name, refused, cut(hx(m.Encode())))
		}
		c.StateS(p.name)
	})
}

// wireConn records what is written; writes fail when told to.
type wireConn struct {
	net.Conn
	out      bytes.Buffer
	deadline error
}

func (w *wireConn) Write(p []byte) (int, error)        { return w.out.Write(p) }
func (w *wireConn) SetWriteDeadline(t time.Time) error { return w.deadline }
func (w *wireConn) SetReadDeadline(t time.Time) error  { return nil }
func (w *wireConn) Close() error                       { return nil }

// rawMsg is a message of any command and payload.
type rawMsg struct {
	cmd  string
	data []byte
}

func (m *rawMsg) Encode() []byte        { return m.data }
func (m *rawMsg) Decode(b []byte) error { m.data = b; return nil }
func (m *rawMsg) Size() int             { return len(m.data) }
func (m *rawMsg) Command() string       { return m.cmd }

func stream35(r *mc.Run) {
	magic := []byte{0xf9, 0xbe, 0xb4, 0xd9}
	big := make([]byte, 32*1024*1024+1)
	var _ xprotocol.Message = &rawMsg{}
	ping := pPing(77)
	inv := pInv(700, 1)
	r.Explore("stream", mc.Opts{}, func(c *mc.Ctx) {
		w := &wireConn{}
		s := xprotocol.NewStream(w, magic)
		var want []byte
		var hist []string
		for d := r.Q(4, 5); d > 0; d-- {
			var err error
			refused := true
			switch c.Pick("message", 6) {
			case 0:
				hist = append(hist, "ping")
				err, refused = s.WriteMessage(ping.msg), false
				want = append(want, ping.frame(magic)...)
			case 1:
				hist = append(hist, "inv of 700")
				err, refused = s.WriteMessage(inv.msg), false
				want = append(want, inv.frame(magic)...)
			case 2:
				hist = append(hist, "a command of 13 bytes")
				err = s.WriteMessage(&rawMsg{"thirteenchars", rep(9, 40)})
			case 3:
				hist = append(hist, "a command of 200 bytes")
				err = s.WriteMessage(&rawMsg{strings.Repeat("c", 200), nil})
			case 4:
				hist = append(hist, "no deadline can be set")
				w.deadline = errors.New("closed")
				err = s.WriteMessage(ping.msg)
				w.deadline = nil
			case 5:
				if len(hist) > 1 {
					c.Skip() // once is enough: it is slow
				}
				hist = append(hist, "a payload above the maximum")
				err = s.WriteMessage(&rawMsg{"big", big})
			}
			c.Step(1)
			c.Valid(1)
			if refused && err == nil {
				c.Fail("accepted", "%v: the message is sent", hist)
			}
			if !refused && err != nil {
				c.Fail("refused", "%v: the message is refused: %v", hist, err)
			}
			if !bytes.Equal(w.out.Bytes(), want) {
				c.Fail("written", "%v: %d bytes are on the wire, want %d", hist, w.out.Len(), len(want))
			}
		}
		c.StateS(strings.Join(hist, ","))
	})
}

// stackRefusals35: every sequence of stack operations; those refused for lack of items or a bad count leave the stack.
func stackRefusals35(c *mc.Ctx, depth int) {
	s := xvm.NewStack()
	var m []string
	var hist []string
	fails := []struct {
		name string
		do   func() error
		need int
	}{
		{"DropN(1)", func() error { return s.DropN(1) }, 1},
		{"DropN(2)", func() error { return s.DropN(2) }, 2},
		{"DropN(3)", func() error { return s.DropN(3) }, 3},
		{"DropN(max)", func() error { return s.DropN(math.MaxInt32) }, math.MaxInt32},
		{"DupN(1)", func() error { return s.DupN(1) }, 1},
		{"DupN(3)", func() error { return s.DupN(3) }, 3},
		{"DupN(max)", func() error { return s.DupN(math.MaxInt64) }, math.MaxInt64},
		{"SwapN(1)", func() error { return s.SwapN(1) }, 2},
		{"SwapN(2)", func() error { return s.SwapN(2) }, 4},
		{"SwapN(2^30)", func() error { return s.SwapN(1 << 30) }, 1 << 31},
		{"SwapN(max)", func() error { return s.SwapN(math.MaxInt32) }, math.MaxInt64},
		{"PeekByteArray(3)", func() error { _, e := s.PeekByteArray(3); return e }, 4},
		{"PeekByteArray(max)", func() error { _, e := s.PeekByteArray(math.MaxInt64); return e }, math.MaxInt64},
		{"PeekByteArray(-1)", func() error { _, e := s.PeekByteArray(-1); return e }, math.MaxInt64},
		{"DropN(0)", func() error { return s.DropN(0) }, math.MaxInt64},
		{"DropN(-1)", func() error { return s.DropN(-1) }, math.MaxInt64},
		{"DropN(min)", func() error { return s.DropN(math.MinInt32) }, math.MaxInt64},
		{"DupN(0)", func() error { return s.DupN(0) }, math.MaxInt64},
		{"DupN(min)", func() error { return s.DupN(math.MinInt64) }, math.MaxInt64},
		{"SwapN(0)", func() error { return s.SwapN(0) }, math.MaxInt64},
		{"SwapN(min)", func() error { return s.SwapN(math.MinInt32) }, math.MaxInt64},
		{"PopByteArray", func() error { _, e := s.PopByteArray(); return e }, 1},
		{"PopInt", func() error { _, e := s.PopInt(); return e }, 1},
		{"PopBool", func() error { _, e := s.PopBool(); return e }, 1},
	}
	same := func() {
		if s.Depth() != len(m) {
			c.Fail("stack", "%v: depth %d, want %d", hist, s.Depth(), len(m))
		}
		for i := range m {
			b, err := s.PeekByteArray(i)
			if err != nil || string(b) != m[len(m)-1-i] {
				c.Fail("stack", "%v: item %d from the top is %x (%v), want %x", hist, i, b, err, m[len(m)-1-i])
			}
		}
	}
	for d := 0; d < depth; d++ {
		op := c.Pick("op", 5)
		n := len(m)
		switch op {
		case 0:
			hist = append(hist, "push")
			b := []byte{byte(d), 9}
			s.PushByteArray(b)
			m = append(m, string(b))
		case 1:
			hist = append(hist, "pushbool")
			s.PushBool(false)
			m = append(m, "")
		case 2:
			if n < 1 {
				c.Skip()
			}
			hist = append(hist, "dup1")
			if err := s.DupN(1); err != nil {
				c.Fail("stack", "%v: %v", hist, err)
			}
			m = append(m, m[n-1])
		case 3:
			if n < 2 {
				c.Skip()
			}
			hist = append(hist, "swap1")
			if err := s.SwapN(1); err != nil {
				c.Fail("stack", "%v: %v", hist, err)
			}
			m[n-1], m[n-2] = m[n-2], m[n-1]
		case 4:
			if n < 1 {
				c.Skip()
			}
			hist = append(hist, "drop1")
			if err := s.DropN(1); err != nil {
				c.Fail("stack", "%v: %v", hist, err)
			}
			m = m[:n-1]
		}
		same()
		for _, f := range fails {
			if len(m) >= f.need {
				continue
			}
			hist = append(hist, f.name)
			c.Step(1)
			c.Valid(1)
			if f.do() == nil {
				c.Fail("stack-accepted", "%v: accepted on %d items", hist, len(m))
			}
			same()
			hist = hist[:len(hist)-1]
		}
		c.StateS(strings.Join(hist, ","))
	}
}

// mpc35: messages a party refuses leave it able to take the right one.
func mpc35(r *mc.Run) {
	k1, k2 := testKeys[2], testKeys[3]
	h := ref.Sha256([]byte("mpc"))
	bads := func(nn *big.Int) []*big.Int {
		return []*big.Int{nil, big.NewInt(0), big.NewInt(-1), new(big.Int).Neg(nn), nn, new(big.Int).Add(nn, big.NewInt(5))}
	}
	// joint private key
	dd := new(big.Int).Mul(k1.D, k2.D)
	dd.Mod(dd, curveN)
	joint := xcrypto.PrvKeyFromBytes(dd.Bytes()).PubKey()
	r.Explore("two-party", mc.Opts{}, func(c *mc.Ctx) {
		s := newSession(k1, k2, h, h)
		for ph := 1; ph <= 3; ph++ {
			s[0].do(ph)
			s[1].do(ph)
		}
		who := c.Pick("party", 2)
		p, q := s[who], s[1-who]
		b4 := c.Pick("bad encrypted key", 7)
		b5 := c.Pick("bad signature", 4)
		times := 1 + c.Pick("times", 2)
		for t := 0; t < times; t++ {
			if b4 < 6 {
				bad := bads(q.encpub.NN)[b4]
				ct, err := p.p.Phase4(bad, q.encpub, p.shareR)
				c.Step(1)
				c.Logf("phase 4 with %v: %v", b4, err)
				if err != nil && ct != nil {
					c.Fail("both", "Phase4 gives a value and an error")
				}
				c.Outcome(fmt.Sprintf("phase 4 bad %d refused: %v", b4, err != nil))
			}
		}
		s[0].do(4)
		s[1].do(4)
		for t := 0; t < times; t++ {
			if b5 < 3 {
				sig, err := p.p.Phase5(p.shareR, bads(p.encpub.NN)[b5])
				c.Step(1)
				if err != nil && sig != nil {
					c.Fail("both", "Phase5 gives a value and an error")
				}
				c.Outcome(fmt.Sprintf("phase 5 bad %d refused: %v", b5, err != nil))
			}
		}
		s[0].do(5)
		s[1].do(5)
		for i, x := range s {
			c.Valid(1)
			if x.err != nil {
				c.Fail("stuck", "after refused messages party %d fails: %v", i+1, x.err)
			}
			if err := xcrypto.EcdsaVerify(joint, h, x.sig); err != nil {
				c.Fail("signature", "after refused messages party %d's signature %x does not verify under the joint key: %v", i+1, x.sig, err)
			}
		}
		if !bytes.Equal(s[0].sig, s[1].sig) {
			c.Fail("signature", "after refused messages the parties' signatures differ")
		}
		c.StateU(uint64(who), uint64(b4), uint64(b5), uint64(times))
	})
	r.Explore("adaptor", mc.Opts{}, func(c *mc.Ctx) {
		secret := big.NewInt(0x5ec2e7)
		a := newAdaptor(k1, k2, secret, h)
		for ph := 1; ph <= 3; ph++ {
			a.do(false, ph)
			a.do(true, ph)
		}
		b4 := c.Pick("bad encrypted key", 7)
		b5 := c.Pick("bad signature", 4)
		if b4 < 6 {
			if ct, err := a.alice.ScriptlessPhase4(bads(a.pb.NN)[b4], a.pb, a.sa); err != nil && ct != nil {
				c.Fail("both", "ScriptlessPhase4 gives a value and an error")
			}
			if ct, err := a.bob.ScriptlessPhase4(bads(a.pa.NN)[b4], a.pa, a.sb); err != nil && ct != nil {
				c.Fail("both", "ScriptlessPhase4 gives a value and an error")
			}
			c.Step(2)
		}
		a.do(false, 4)
		a.do(true, 4)
		if b5 < 3 {
			if sig, err := a.alice.ScriptlessPhase5(a.sa, bads(a.pa.NN)[b5]); err != nil && sig != nil {
				c.Fail("both", "ScriptlessPhase5 gives a value and an error")
			}
			if sig, err := a.bob.ScriptlessPhase5(a.sb, bads(a.pb.NN)[b5]); err != nil && sig != nil {
				c.Fail("both", "ScriptlessPhase5 gives a value and an error")
			}
			if sig, err := a.bob.ScriptlessPhase6(a.sb, big.NewInt(0)); err == nil || sig != nil {
				c.Fail("zero", "ScriptlessPhase6 of zero: %x, %v", sig, err)
			}
			c.Step(3)
		}
		a.do(false, 5)
		a.do(true, 5)
		a.do(true, 6)
		c.Valid(1)
		if a.erra != nil || a.errb != nil {
			c.Fail("stuck", "after refused messages: %v, %v", a.erra, a.errb)
		}
		if err := xcrypto.EcdsaVerify(joint, h, a.der); err != nil {
			c.Fail("signature", "after refused messages the signature %x does not verify under the joint key: %v", a.der, err)
		}
		c.StateU(uint64(b4), uint64(b5))
	})
	_ = network.MainNet
}
