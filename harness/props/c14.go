package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"sync"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xcore"
)

func init() { mc.Register("C14", c14) }

// bGroup is one group of a build: at most one coin and one payment.
type bGroup struct {
	coin, pay  bool
	value      uint64 // of the coin
	tx, n      int    // outpoint: which transaction id, which output
	upper      bool   // transaction id written in upper case
	kind       spendKind
	to         uint64 // payment
	toKind     int
	toTag      byte
	noKeys     bool
	sigHash    xcore.SigHashType
	overCoin   bool // another coin was added to the group before
	overTo     bool // another payment was set in the group before
	toNil      bool
	badID      bool
	keysFirst  bool
	afterCoins int
}

// bSpec is a whole build.
type bSpec struct {
	groups    []bGroup
	fee       *uint64
	rate      *int64
	maxFees   *int64
	change    int // 0 none, 1 set, 2 set to nil
	chKind    int
	push      [][]byte
	lock      uint32
	sign      bool
	tailThen  bool
	setFirst  bool // the global settings come before the first group
	overSets  bool // the global settings were given another value before
	setMiddle bool
}

func (s *bSpec) String() string {
	var b strings.Builder
	for _, g := range s.groups {
		b.WriteString("{")
		if g.coin {
			fmt.Fprintf(&b, "coin %d (tx%d:%d %s) ", g.value, g.tx, g.n, g.kind.name)
		}
		if g.pay {
			fmt.Fprintf(&b, "pay %d (%s)", g.to, kindNames[g.toKind])
		}
		b.WriteString("} ")
	}
	if s.fee != nil {
		fmt.Fprintf(&b, "fee=%d ", *s.fee)
	}
	if s.rate != nil {
		fmt.Fprintf(&b, "rate=%d ", *s.rate)
	}
	if s.maxFees != nil {
		fmt.Fprintf(&b, "max=%d ", *s.maxFees)
	}
	fmt.Fprintf(&b, "change=%d push=%d lock=%d sign=%v", s.change, len(s.push), s.lock, s.sign)
	return b.String()
}

// spends prepared once per kind: keys and scripts
var bSpends = sync.OnceValue(func() []*spendIn {
	var o []*spendIn
	for i, k := range spendKinds {
		o = append(o, mkSpend(i, k))
	}
	return o
})

func bSpendOf(k spendKind) *spendIn {
	for _, s := range bSpends() {
		if s.name == k.name {
			return s
		}
	}
	return bSpends()[0]
}

func bTxid(i int) []byte { return seq(byte(0x33*i+5), 32) }

func bTxidText(i int, upper bool) string {
	t := ref.RevHex(bTxid(i))
	if upper {
		t = strings.ToUpper(t)
	}
	return t
}

var (
	bChange  = [4][]byte{rep(0xc0, 20), rep(0xc1, 20), rep(0xc2, 20), rep(0xc3, 32)}
	satLimit = new(big.Int).SetUint64(2100000000000000)
)

func toHash(kind int, tag byte) []byte { return rep(0x10+tag, kindLen(kind)) }

// builder feeds the specification to a real builder.
func (s *bSpec) builder() *xcore.TransactionBuilder {
	b := xcore.NewTransactionBuilder()
	global := func() {
		if s.overSets {
			if s.fee != nil {
				b.SendFees(77)
			}
			if s.rate != nil {
				b.SetRelayFeePerKb(123456)
			}
			if s.maxFees != nil {
				b.SetMaxFees(88)
			}
			if s.change == 1 {
				b.SetChange(newAddr(kPKH, rep(0x99, 20)))
			}
		}
		if s.fee != nil {
			b.SendFees(*s.fee)
		}
		if s.rate != nil {
			b.SetRelayFeePerKb(*s.rate)
		}
		if s.maxFees != nil {
			b.SetMaxFees(*s.maxFees)
		}
		switch s.change {
		case 1:
			b.SetChange(newAddr(s.chKind, bChange[s.chKind]))
		case 2:
			b.SetChange(nil)
		}
		b.SetLockTime(s.lock)
		if s.sign {
			b.Sign()
		}
		for _, p := range s.push {
			b.AddPushData(p)
		}
	}
	if s.setFirst {
		global()
	}
	for i, g := range s.groups {
		if i > 0 {
			b.Then()
		}
		if i == 1 && s.setMiddle {
			global()
		}
		sp := bSpendOf(g.kind)
		keys := sp.keys
		if sp.n > 0 {
			keys = keys[:sp.m]
		}
		if g.keysFirst && g.coin && !g.noKeys {
			b.AddKeys(keys...)
		}
		if g.pay && g.overTo {
			b.To(newAddr(kPKH, rep(0x98, 20)), 31337)
		}
		if g.pay && g.afterCoins == 1 {
			b.To(newAddr(g.toKind, toHash(g.toKind, g.toTag)), g.to)
		}
		if g.coin {
			if g.overCoin {
				b.AddCoin(xcore.NewCoinBuilder().AddOutput(bTxidText(9, false), 9, 4242, hex.EncodeToString(sp.locking)).ToCoins()[0])
			}
			id := bTxidText(g.tx, g.upper)
			if g.badID {
				id = "zz" + id[2:]
			}
			b.AddCoin(xcore.NewCoinBuilder().AddOutput(id, uint32(g.n), g.value, hex.EncodeToString(sp.locking)).ToCoins()[0])
			if !g.noKeys && !g.keysFirst {
				b.AddKeys(keys...)
			}
			if sp.redeem != nil {
				b.SetRedeemScript(clone(sp.redeem))
			}
			if sp.uncompressed {
				b.SetPubKeyUncompressed()
			}
			if g.sigHash != 0 {
				b.SetSigHashType(g.sigHash)
			}
		}
		if g.pay && g.afterCoins == 0 {
			if g.toNil {
				b.To(nil, g.to)
			} else {
				b.To(newAddr(g.toKind, toHash(g.toKind, g.toTag)), g.to)
			}
		}
	}
	if s.tailThen {
		b.Then()
	}
	if !s.setFirst && !(s.setMiddle && len(s.groups) > 1) {
		global()
	}
	return b
}

// opReturn is the locking script of a data output.
func opReturn(d []byte) []byte { return cat([]byte{0x6a}, shortestPush(d)) }

// check builds and compares with the exact arithmetic.
func (s *bSpec) check(c *mc.Ctx) *xcore.Transaction {
	c.Step(1)
	b := s.builder()
	tx, err := b.BuildTransaction()
	if c.Want() {
		c.Logf("build %s -> err=%v", s, err)
	}

	// what must come out
	in, pay := new(big.Int), new(big.Int)
	nin, nout, dup, bad, large := 0, 0, false, false, false
	seen := map[string]bool{}
	var wantOut []ref.TxOut
	for _, g := range s.groups {
		if g.coin {
			nin++
			v := new(big.Int).SetUint64(g.value)
			in.Add(in, v)
			k := fmt.Sprint(g.tx, ":", g.n)
			dup = dup || seen[k]
			seen[k] = true
			bad = bad || g.badID
		}
		if g.pay {
			nout++
			pay.Add(pay, new(big.Int).SetUint64(g.to))
			wantOut = append(wantOut, ref.TxOut{Value: g.to, Script: refLocking(g.toKind, toHash(g.toKind, g.toTag))})
			bad = bad || g.toNil
		}
	}
	large = in.Cmp(satLimit) > 0 || pay.Cmp(satLimit) > 0
	max := big.NewInt(100000000)
	if s.maxFees != nil {
		max = big.NewInt(*s.maxFees)
	}
	byRate := s.rate != nil && *s.rate > 0
	fee := big.NewInt(1000)
	if s.fee != nil {
		fee.SetUint64(*s.fee)
	}
	if byRate {
		// the rate-derived fee is the library's own estimate of the transaction to be signed (C15 judges the estimate)
		var ti []*xcore.TxIn
		var to []*xcore.TxOut
		for _, g := range s.groups {
			if g.coin {
				sp := bSpendOf(g.kind)
				t, e := xcore.NewTxIn(bTxid(g.tx), uint32(g.n), g.value, clone(sp.locking), cloneN(sp.redeem))
				if e != nil {
					c.Fail("txin", "%s: NewTxIn: %v", s, e)
				}
				ti = append(ti, t)
			}
		}
		for _, o := range wantOut {
			to = append(to, xcore.NewTxOut(o.Value, o.Script))
		}
		push := 0
		for _, p := range s.push {
			push += len(p)
		}
		fee = big.NewInt(xcore.EstimateFees(xcore.EstimateSize(ti, to)+int64(push), *s.rate))
	}
	rest := new(big.Int).Sub(in, pay)
	rest.Sub(rest, fee)
	why := ""
	switch {
	case nin == 0 || nout == 0:
		why = "there is no coin or no payment"
	case bad:
		why = "an argument is invalid"
	case dup:
		why = "a coin is spent twice"
	case fee.Cmp(max) > 0:
		why = "the fee exceeds the maximum"
	case rest.Sign() < 0:
		why = "the coins do not cover payments and fee"
	case rest.Sign() > 0 && s.change != 1:
		why = "there is change but no change address"
	}
	if s.sign {
		for _, g := range s.groups {
			if g.coin && g.noKeys {
				why = "a key is missing"
			}
		}
	}
	if err != nil {
		if tx != nil {
			c.Fail("error-and-tx", "%s: a transaction and the error %v", s, err)
		}
		if why == "" && !large {
			c.Fail("spurious-error", "%s: %v, although coins %v cover payments %v and fee %v (max %v)", s, err, in, pay, fee, max)
		}
		c.Outcome("refused: " + why)
		return nil
	}
	if why != "" {
		c.Fail("built", "%s: a transaction was built although %s (in %v, payments %v, fee %v, max %v)", s, why, in, pay, fee, max)
	}
	c.Valid(1)
	c.Outcome("built")
	if rest.Sign() > 0 {
		wantOut = append(wantOut, ref.TxOut{Value: rest.Uint64(), Script: refLocking(s.chKind, bChange[s.chKind])})
	}
	for _, p := range s.push {
		wantOut = append(wantOut, ref.TxOut{Script: opReturn(p)})
	}
	raw := tx.Serialize()
	got, perr := ref.ParseTx(raw)
	if !perr {
		c.Fail("parse", "%s: built transaction does not parse", s)
	}
	// every coin exactly once
	want := map[string]int{}
	for _, g := range s.groups {
		if g.coin {
			want[fmt.Sprintf("%x:%d", bTxid(g.tx), g.n)]++
		}
	}
	for _, i := range got.In {
		want[fmt.Sprintf("%x:%d", i.Hash, i.Index)]--
	}
	for k, n := range want {
		if n != 0 {
			c.Fail("inputs", "%s: coin %s is spent %d times too few", s, k, n)
		}
	}
	// every payment, the change and the data outputs: as a multiset
	outs := map[string]int{}
	sum := new(big.Int)
	for _, o := range wantOut {
		outs[fmt.Sprintf("%d to %x", o.Value, o.Script)]++
	}
	for _, o := range got.Out {
		outs[fmt.Sprintf("%d to %x", o.Value, o.Script)]--
		sum.Add(sum, new(big.Int).SetUint64(o.Value))
	}
	for k, n := range outs {
		if n > 0 {
			c.Fail("outputs", "%s: the output %s is missing (%d); coins %v payments %v fee %v", s, k, n, in, pay, fee)
		}
		if n < 0 {
			c.Fail("outputs", "%s: there is an output %s nobody asked for; coins %v payments %v fee %v", s, k, in, pay, fee)
		}
	}
	if sum.Add(sum, fee).Cmp(in) != 0 {
		c.Fail("conservation", "%s: outputs plus fee are %v, inputs %v", s, sum, in)
	}
	if f := tx.Fees(); big.NewInt(int64(f)).Cmp(fee) != 0 {
		c.Fail("fees", "%s: Fees() = %d, want %v", s, f, fee)
	}
	if got.Lock != s.lock {
		c.Fail("locktime", "%s: lock time %d", s, got.Lock)
	}
	// building again gives the same transaction (up to the signatures, which are deterministic)
	tx2, err2 := b.BuildTransaction()
	if err2 != nil || !bytes.Equal(tx2.Serialize(), raw) {
		c.Fail("build-again", "%s: building again: %v", s, err2)
	}
	if s.sign {
		if err := tx.Verify(); err != nil {
			c.Fail("verify", "%s: the signed transaction does not verify: %v", s, err)
		}
	}
	c.State(raw)
	return tx
}

var bAmounts = []uint64{0, 1, 1000, 5000, 21e14, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1, 546, 1001, 999, 1<<53 + 1, 1 << 31}

func c14(r *mc.Run) {
	r.Assume("the rate-derived fee is EstimateFees(EstimateSize(inputs, payments) + data length, rate), as the public estimation functions compute it; property C15 judges the estimate itself")
	r.Assume("one coin per group: a second AddCoin or To in a group replaces the first")
	r.Assume("amounts above 21e14 satoshi may also be refused")
	u := func(v uint64) *uint64 { return &v }
	i6 := func(v int64) *int64 { return &v }
	fees := []*uint64{nil, u(0), u(1), u(1000), u(100000000), u(100000001), u(1<<63 - 1), u(1 << 63), u(1<<64 - 1)}
	rates := []*int64{nil, i6(0), i6(1), i6(20000), i6(1 << 40), i6(1<<63 - 1), i6(-1), i6(-1 << 63)}
	maxs := []*int64{nil, i6(0), i6(1000), i6(1<<63 - 1), i6(-1)}
	p2pkh := spendKinds[0]

	r.Explore("one-group", mc.Opts{}, func(c *mc.Ctx) {
		g := bGroup{kind: p2pkh}
		if k := c.Pick("coin", len(bAmounts)+1); k > 0 {
			g.coin, g.value = true, bAmounts[k-1]
		}
		if k := c.Pick("payment", len(bAmounts)+1); k > 0 {
			g.pay, g.to = true, bAmounts[k-1]
		}
		ch := c.Pick("change", 3)
		for _, f := range fees {
			for _, m := range maxs {
				for _, rt := range rates {
					if rt != nil && f != nil && *f > 1 {
						continue
					}
					s := &bSpec{groups: []bGroup{g}, fee: f, maxFees: m, rate: rt, change: ch}
					s.check(c)
				}
			}
		}
	})

	na := r.Q(7, 9)
	r.Explore("two-groups", mc.Opts{}, func(c *mc.Ctx) {
		var gs []bGroup
		for i := 0; i < 2; i++ {
			g := bGroup{kind: p2pkh, tx: i, toTag: byte(i)}
			if k := c.Pick("coin", na+1); k > 0 {
				g.coin, g.value = true, bAmounts[9-k]
			}
			gs = append(gs, g)
		}
		ch := c.Pick("change", 2)
		for a := 0; a <= na; a++ {
			for b := 0; b <= na; b++ {
				for k, v := range []int{a, b} {
					gs[k].pay = v > 0
					if v > 0 {
						gs[k].to = bAmounts[9-v]
					}
				}
				for _, f := range []*uint64{nil, fees[1], fees[6], fees[7], fees[8]} {
					for _, m := range []*int64{nil, maxs[3]} {
						(&bSpec{groups: gs, fee: f, maxFees: m, change: ch}).check(c)
					}
				}
				(&bSpec{groups: gs, rate: rates[3], change: ch}).check(c)
			}
		}
	})

	three := []uint64{0, 1000, 1 << 62, 1<<63 - 1, 1 << 63}
	r.Explore("three-groups", mc.Opts{}, func(c *mc.Ctx) {
		gs := make([]bGroup, 3)
		for i := range gs {
			gs[i] = bGroup{kind: p2pkh, tx: i, toTag: byte(i)}
			if k := c.Pick("coin", len(three)+1); k > 0 {
				gs[i].coin, gs[i].value = true, three[k-1]
			}
		}
		n := len(three) + 1
		for v := 0; v < n*n*n; v++ {
			for i, k := range []int{v % n, v / n % n, v / n / n} {
				gs[i].pay = k > 0
				if k > 0 {
					gs[i].to = three[k-1]
				}
			}
			(&bSpec{groups: gs, change: 1, fee: fees[1]}).check(c)
			if !r.Quick() {
				(&bSpec{groups: gs, change: 0, fee: fees[1]}).check(c)
				(&bSpec{groups: gs, change: 1}).check(c)
				(&bSpec{groups: gs, change: 1, fee: fees[6], maxFees: maxs[3]}).check(c)
			}
		}
	})

	// totals right at, just below and just above what is needed
	pays := [][]uint64{{0}, {1}, {5000}, {1000, 2000}, {1, 1, 1}, {21e14 - 100000000}, {1<<62 - 1, 1<<62 - 1}, {1<<63 - 100000001}, {1<<63 - 1 - 1000, 0}, {1000, 1<<63 - 2001}}
	deltas := []int64{-2, -1, 0, 1, 2, 545, 546, 547, 1000}
	r.Explore("boundaries", mc.Opts{}, func(c *mc.Ctx) {
		pay := pays[c.Pick("payments", len(pays))]
		f := c.Pick("fee", 9+6)
		d := deltas[c.Pick("difference", len(deltas))]
		ncoin := 1 + c.Pick("coins", 3)
		s := &bSpec{}
		kinds := []spendKind{p2pkh, spendKinds[2], spendKinds[4]}
		for i := 0; i < ncoin || i < len(pay); i++ {
			g := bGroup{kind: kinds[i%3], tx: i, toTag: byte(i)}
			g.coin = i < ncoin
			if i < len(pay) {
				g.pay, g.to = true, pay[i]
			}
			s.groups = append(s.groups, g)
		}
		var need uint64
		for _, p := range pay {
			need += p
		}
		s.maxFees = maxs[3]
		var fee uint64
		if f < 9 {
			s.fee = fees[f]
			fee = 1000
			if s.fee != nil {
				fee = *s.fee
			}
		} else {
			s.rate = []*int64{i6(1), i6(999), i6(1000), i6(1001), i6(20000), i6(1 << 30)}[f-9]
			var ti []*xcore.TxIn
			var to []*xcore.TxOut
			for _, g := range s.groups {
				if g.coin {
					sp := bSpendOf(g.kind)
					t, _ := xcore.NewTxIn(bTxid(g.tx), 0, 0, clone(sp.locking), cloneN(sp.redeem))
					ti = append(ti, t)
				}
				if g.pay {
					to = append(to, xcore.NewTxOut(g.to, refLocking(g.toKind, toHash(g.toKind, g.toTag))))
				}
			}
			fee = uint64(xcore.EstimateFees(xcore.EstimateSize(ti, to), *s.rate))
		}
		total := need + fee + uint64(d)
		if d < 0 && need+fee < uint64(-d) {
			c.Skip()
		}
		for i := 0; i < ncoin; i++ {
			v := total / uint64(ncoin-i)
			if i == 0 && ncoin > 1 {
				v = total / 3
			}
			total -= v
			s.groups[i].value = v
		}
		for ch := 0; ch < 3; ch++ {
			s.change = ch
			for k := 0; k < 4; k++ {
				s.chKind = k
				s.check(c)
				if ch != 1 {
					break
				}
			}
		}
		// the maximum around the fee
		s.change = 1
		for e := int64(-1); e <= 1; e++ {
			s.maxFees = i6(int64(fee) + e)
			s.check(c)
		}
	})

	// the same coin twice, in every position and spelling; different outputs of one transaction
	r.Explore("outpoints", mc.Opts{}, func(c *mc.Ctx) {
		s := &bSpec{change: 1}
		n := 2 + c.Pick("coins", 2)
		for i := 0; i < n; i++ {
			g := bGroup{kind: p2pkh, coin: true, value: 100000, pay: true, to: 10, toTag: byte(i)}
			g.tx, g.n, g.upper = c.Pick("tx", 2), c.Pick("index", 2), c.Bool("upper case")
			if c.Bool("empty group before") {
				s.groups = append(s.groups, bGroup{})
			}
			s.groups = append(s.groups, g)
		}
		s.check(c)
	})

	// two coins whose outpoints differ in one bit of the transaction id or in the index only, and the same coin twice
	r.Explore("near-outpoints", mc.Opts{}, func(c *mc.Ctx) {
		bit := c.Pick("bit of the id", 257) // the last: the same id
		idx := []uint32{0, 1, 2, 127, 128, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}
		p := c.Pick("index", len(idx))
		q := p
		if bit == 256 {
			q = c.Pick("other index", len(idx))
		}
		id := [2][]byte{seq(7, 32), seq(7, 32)}
		if bit < 256 {
			id[1][bit/8] ^= 1 << (bit % 8)
		}
		n := [2]uint32{idx[p], idx[q]}
		b := xcore.NewTransactionBuilder()
		lock := hex.EncodeToString(refLocking(kPKH, toHash(kPKH, 1)))
		for k := 0; k < 2; k++ {
			if k > 0 {
				b.Then()
			}
			b.AddCoin(xcore.NewCoinBuilder().AddOutput(ref.RevHex(id[k]), n[k], 100000, lock).ToCoins()[0])
			b.To(newAddr(kPKH, toHash(kPKH, byte(k))), 99500)
		}
		tx, err := b.BuildTransaction()
		c.Step(1)
		c.Valid(1)
		c.StateU(uint64(bit), uint64(p), uint64(q))
		what := fmt.Sprintf("coins %x:%d and %x:%d", id[0], n[0], id[1], n[1])
		if bit == 256 && p == q {
			if err == nil {
				c.Fail("built", "%s: the same coin is spent twice", what)
			}
			return
		}
		if err != nil {
			c.Fail("spurious-error", "%s: %v", what, err)
		}
		m, ok := ref.ParseTx(tx.Serialize())
		if !ok || len(m.In) != 2 {
			c.Fail("parse", "%s: the built transaction has %d inputs", what, len(m.In))
		}
		for k := 0; k < 2; k++ {
			if !bytes.Equal(m.In[k].Hash, id[k]) || m.In[k].Index != n[k] {
				c.Fail("outpoint", "%s: input %d spends %x:%d", what, k, m.In[k].Hash, m.In[k].Index)
			}
		}
	})

	// who gets what: kinds, order of calls, data outputs, lock times
	datas := [][]byte{{}, {1}, {7}, {0x81}, {0xff}, seq(1, 2), seq(0, 40), seq(9, 75), seq(9, 76), seq(9, 80), rep(0, 255), rep(1, 256)}
	r.Explore("call-orders", mc.Opts{}, func(c *mc.Ctx) {
		s := &bSpec{change: 1, chKind: c.Pick("change kind", 4)}
		n := 1 + c.Pick("groups", 3)
		sh := c.Pick("shape", 6)
		for i := 0; i < n; i++ {
			g := bGroup{kind: spendKinds[(i+sh)%len(spendKinds)], coin: true, value: 1000000, pay: true, to: uint64(100 * (i + 1)), tx: i, toKind: (i + sh) % 4, toTag: byte(i)}
			switch sh {
			case 1:
				g.coin = i == 0
			case 2:
				g.pay = i == n-1
			case 3:
				g.coin, g.pay = i == n-1, i == 0
			case 4:
				g.to, g.toTag = 100, 1 // the same payment repeatedly
				g.toKind = 0
			case 5:
				g.toKind = s.chKind
			}
			g.afterCoins = c.Pick("payment first", 2)
			g.overTo = c.Bool("payment replaced")
			g.overCoin = c.Bool("coin replaced")
			s.groups = append(s.groups, g)
		}
		for w := 0; w < 32; w++ {
			s.setFirst, s.setMiddle, s.overSets, s.tailThen = w&1 > 0, w&1 == 0 && w&2 > 0, w&4 > 0, w&8 > 0
			s.fee, s.rate = u(500), nil
			if w&16 > 0 {
				s.rate = i6(5000)
			}
			s.lock = uint32(w) * 0x08040201
			s.push = nil
			for k := 0; k < w%3; k++ {
				s.push = append(s.push, datas[(w*5+k*7+sh)%len(datas)])
			}
			s.check(c)
		}
	})
	r.Explore("data-outputs", mc.Opts{}, func(c *mc.Ctx) {
		s := &bSpec{groups: []bGroup{{kind: spendKinds[c.Pick("coin kind", 7)], coin: true, value: 100000, pay: true, to: 7}}, change: c.Pick("change", 2)}
		n := c.Pick("data outputs", 4)
		for i := 0; i < n; i++ {
			s.push = append(s.push, datas[c.Pick("data", len(datas))])
		}
		s.fee = u(99993)
		s.check(c)
		s.fee, s.rate = nil, i6(20000)
		s.check(c)
	})
	// every maximum fee near the fee that a rate gives, with data outputs and change
	r.Explore("maximum-and-rate", mc.Opts{}, func(c *mc.Ctx) {
		s := &bSpec{change: 1}
		s.rate = i6([]int64{1, 999, 1000, 1001, 10000, 54321}[c.Pick("rate", 6)])
		n := 1 + c.Pick("groups", 2)
		for i := 0; i < n; i++ {
			s.groups = append(s.groups, bGroup{kind: spendKinds[c.Pick("coin kind", r.Q(3, 7))], coin: true, value: 100000, pay: true, to: 7, tx: i})
		}
		for i := c.Pick("data outputs", 3); i > 0; i-- {
			s.push = append(s.push, rep(0x5a, []int{0, 1, 60, 200}[c.Pick("data", 4)]))
		}
		s.maxFees = i6(1 << 40)
		tx := s.check(c)
		if tx == nil {
			return
		}
		fee := int64(tx.Fees())
		size := int64(len(tx.Serialize()))
		for _, d := range []int64{-1, 0, 1} {
			for _, m := range []int64{fee, 0, 1, fee / 2, fee * 2, size, fee - 60**s.rate/1000, fee - 200**s.rate/1000} {
				if m+d >= 0 {
					s.maxFees = i6(m + d)
					s.check(c)
				}
			}
		}
		for k := int64(1); k < 20; k++ {
			s.maxFees = i6(fee * k / 20)
			s.check(c)
		}
	})
	r.Explore("invalid-arguments", mc.Opts{}, func(c *mc.Ctx) {
		s := &bSpec{change: c.Pick("change", 3), sign: c.Bool("sign")}
		n := 1 + c.Pick("groups", 2)
		for i := 0; i < n; i++ {
			g := bGroup{kind: p2pkh, coin: true, value: 100000, pay: true, to: 7, tx: i}
			g.toNil = c.Bool("payment to nil")
			g.badID = c.Bool("bad id")
			g.noKeys = c.Bool("no keys")
			s.groups = append(s.groups, g)
		}
		s.check(c)
	})

	// signed builds, all kinds
	r.Explore("signed", mc.Opts{}, func(c *mc.Ctx) {
		s := &bSpec{change: c.Pick("change", 2), sign: true, fee: u(1000), lock: 7}
		n := 1 + c.Pick("groups", r.Q(2, 3))
		for i := 0; i < n; i++ {
			g := bGroup{kind: spendKinds[c.Pick("coin kind", 7)], coin: true, value: 1000 * uint64(i+1), pay: true, to: 1000*uint64(i+1) - 1, tx: i, toKind: i % 4, toTag: byte(i)}
			if i == 0 {
				g.to = 0
				if s.change == 1 {
					g.value = 10000
				} else {
					g.value = 1001 - uint64(n)
				}
			}
			g.keysFirst = i == 1 && !g.kind.uncompressed
			s.groups = append(s.groups, g)
		}
		s.groups[n-1].sigHash = sigHashTypes[c.Pick("hash type", r.Q(2, 6))]
		s.check(c)
	})
	c14b(r)
}
