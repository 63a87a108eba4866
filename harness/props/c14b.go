package props

import (
	"encoding/hex"
	"fmt"
	"sync"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
)

// bSettings is what is set on one group with a coin.
type bSettings struct {
	kind, redeem, keys int  // redeem, keys: 0 those of the coin, 1 others, 2 none
	flip               bool // the other key format than the coin's
}

func (s bSettings) apply(b *xcore.TransactionBuilder, i int) {
	sp := bSpends()[s.kind]
	b.AddCoin(xcore.NewCoinBuilder().AddOutput(bTxidText(i, false), uint32(i), 100000, hex.EncodeToString(sp.locking)).ToCoins()[0])
	other := bSpends()[3]
	if s.kind == 3 {
		other = bSpends()[4]
	}
	keys := func(p *spendIn) []*xcrypto.PrvKey {
		if p.n > 0 {
			return p.keys[:p.m]
		}
		return p.keys
	}
	switch s.keys {
	case 0:
		b.AddKeys(keys(sp)...)
	case 1:
		b.AddKeys(keys(other)...)
	}
	switch s.redeem {
	case 0:
		if sp.redeem != nil {
			b.SetRedeemScript(clone(sp.redeem))
		}
	case 1:
		b.SetRedeemScript(clone(other.redeem))
	}
	if sp.uncompressed != s.flip {
		b.SetPubKeyUncompressed()
	}
	b.To(newAddr(kPKH, toHash(kPKH, byte(i))), 99000)
}

// fate tells what becomes of a build: 0 it fails unsigned, 1 it fails when it signs, 2 the result does not verify, 3 it does.
func fate14(ss ...bSettings) int {
	mk := func(sign bool) (*xcore.Transaction, error) {
		b := xcore.NewTransactionBuilder()
		for i, s := range ss {
			if i > 0 {
				b.Then()
			}
			s.apply(b, i)
		}
		b.SendFees(uint64(1000 * len(ss)))
		if sign {
			b.Sign()
		}
		return b.BuildTransaction()
	}
	if _, err := mk(false); err != nil {
		return 0
	}
	tx, err := mk(true)
	if err != nil {
		return 1
	}
	if tx.Verify() != nil {
		return 2
	}
	return 3
}

var fateNames = []string{"fails", "fails when it signs", "does not verify", "verifies"}

func c14b(r *mc.Run) {
	// What is set on a group counts for that group only: a build of two groups fares as the worse of the two alone.
	var all []bSettings
	for k := range bSpends() {
		for v := 0; v < 18; v++ {
			s := bSettings{k, v % 3, v / 3 % 3, v >= 9}
			if s.redeem == 2 && bSpends()[k].redeem == nil {
				continue
			}
			all = append(all, s)
		}
	}
	alone := make([]int, len(all))
	var wg sync.WaitGroup
	for i := range all {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { recover() }()
			alone[i] = -1
			alone[i] = fate14(all[i])
		}()
	}
	wg.Wait()
	r.Explore("group-settings", mc.Opts{}, func(c *mc.Ctx) {
		i := c.Pick("first group", len(all))
		for j := range all {
			c.Step(1)
			c.Valid(1)
			if alone[i] < 0 || alone[j] < 0 {
				c.Fail("crash", "a build of one group with the settings %+v or %+v crashes", all[i], all[j])
			}
			want := alone[i]
			if alone[j] < want {
				want = alone[j]
			}
			if got := fate14(all[i], all[j]); got != want {
				c.Fail("group", "two groups with the settings %+v and %+v: the build %s; alone the first %s and the second %s", all[i], all[j], fateNames[got], fateNames[alone[i]], fateNames[alone[j]])
			}
		}
		c.StateU(uint64(i))
	})

	// A transaction id has 32 bytes: a coin of another one can not be spent.
	r.Explore("id-lengths", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("bytes", 71)
		k := c.Pick("position", 3)
		sign := c.Bool("sign")
		b := xcore.NewTransactionBuilder()
		for i := 0; i < 3; i++ {
			if i > 0 {
				b.Then()
			}
			id := bTxidText(i, false)
			if i == k {
				id = hex.EncodeToString(seq(3, n))
			}
			sp := bSpends()[0]
			b.AddCoin(xcore.NewCoinBuilder().AddOutput(id, 1, 5000, hex.EncodeToString(sp.locking)).ToCoins()[0]).AddKeys(sp.keys...)
			b.To(newAddr(kPKH, toHash(kPKH, byte(i))), 4000)
		}
		b.SendFees(3000)
		if sign {
			b.Sign()
		}
		tx, err := b.BuildTransaction()
		c.Step(1)
		c.Valid(1)
		c.StateU(uint64(n), uint64(k))
		if (err == nil) != (n == 32) {
			c.Fail("id-length", "coin %d has a transaction id of %d bytes: error %v", k, n, err)
		}
		if err == nil {
			if m, ok := ref.ParseTx(tx.Serialize()); !ok || len(m.In) != 3 {
				c.Fail("parse", "the built transaction does not parse")
			}
		}
	})

	// Payments to one address, or to the address of the change, with amounts that agree or differ.
	r.Explore("same-address", mc.Opts{}, func(c *mc.Ctx) {
		s := &bSpec{change: 1, chKind: c.Pick("kind", 4), sign: c.Bool("sign")}
		n := 1 + c.Pick("payments", r.Q(3, 4))
		var paid uint64
		for i := 0; i < n; i++ {
			g := bGroup{kind: spendKinds[0], pay: true, to: []uint64{500, 1000}[c.Pick("amount", 2)], toKind: s.chKind, tx: i}
			if c.Bool("to the change address") {
				g.toTag = byte(0xb0 + s.chKind) // bChange
			}
			paid += g.to
			s.groups = append(s.groups, g)
		}
		fee := uint64(300)
		s.fee = &fee
		total := paid + fee + []uint64{0, 500, 1000, 1500}[c.Pick("change", 4)]
		for i := 0; i < n; i++ { // coins of the payments' amounts
			s.groups[i].coin, s.groups[i].value = true, s.groups[i].to
			total -= s.groups[i].to
		}
		s.groups[n-1].value += total
		s.check(c)
	})

	// Building changes nothing of the builder, and a later call or build changes nothing of what was built.
	kinds := []int{0, 2, 4}
	ops := []struct {
		name string
		do   func(b *xcore.TransactionBuilder, n int)
	}{
		{"Then.AddCoin(P2PKH)", func(b *xcore.TransactionBuilder, n int) { coin14(b.Then(), kinds[0], n) }},
		{"Then.AddCoin(P2WPKH)", func(b *xcore.TransactionBuilder, n int) { coin14(b.Then(), kinds[1], n) }},
		{"Then.AddCoin(P2SH)", func(b *xcore.TransactionBuilder, n int) { coin14(b.Then(), kinds[2], n) }},
		{"To", func(b *xcore.TransactionBuilder, n int) {
			b.To(newAddr(n%4, toHash(n%4, byte(n))), uint64(700+n))
		}},
		{"Then.To", func(b *xcore.TransactionBuilder, n int) {
			b.Then().To(newAddr(kPKH, toHash(kPKH, byte(n))), uint64(1700+n))
		}},
		{"Then", func(b *xcore.TransactionBuilder, n int) { b.Then() }},
		{"SetChange", func(b *xcore.TransactionBuilder, n int) { b.SetChange(newAddr(n%4, bChange[n%4])) }},
		{"SendFees", func(b *xcore.TransactionBuilder, n int) { b.SendFees(uint64(50 + n)) }},
		{"SetRelayFeePerKb", func(b *xcore.TransactionBuilder, n int) { b.SetRelayFeePerKb(int64(2000 + n*1000)) }},
		{"SetRelayFeePerKb(0)", func(b *xcore.TransactionBuilder, n int) { b.SetRelayFeePerKb(0) }},
		{"SetMaxFees", func(b *xcore.TransactionBuilder, n int) { b.SetMaxFees(int64(400 * n)) }},
		{"SetLockTime", func(b *xcore.TransactionBuilder, n int) { b.SetLockTime(uint32(n)) }},
		{"AddPushData", func(b *xcore.TransactionBuilder, n int) { b.AddPushData(seq(byte(n), 5*n)) }},
		{"Sign", func(b *xcore.TransactionBuilder, n int) { b.Sign() }},
		{"SetSigHashType", func(b *xcore.TransactionBuilder, n int) { b.SetSigHashType(sigHashTypes[n%len(sigHashTypes)]) }},
	}
	depth := r.Q(3, 4)
	r.Explore("histories", mc.Opts{}, func(c *mc.Ctx) {
		var seqOps []int
		for i := 0; i < depth; i++ {
			seqOps = append(seqOps, c.Pick("call", len(ops)))
		}
		start := c.Pick("from", 2)
		fresh := func(n int) *xcore.TransactionBuilder {
			b := xcore.NewTransactionBuilder()
			if start == 1 {
				coin14(b, kinds[0], 20)
				b.To(newAddr(kPKH, toHash(kPKH, 20)), 600).SetChange(newAddr(kPKH, bChange[0]))
			}
			for i := 0; i < n; i++ {
				ops[seqOps[i]].do(b, i+1)
			}
			return b
		}
		result := func(b *xcore.TransactionBuilder) (*xcore.Transaction, string) {
			tx, err := b.BuildTransaction()
			if err != nil {
				return nil, "error " + err.Error()
			}
			return tx, fmt.Sprintf("%x fees %d", tx.Serialize(), tx.Fees())
		}
		b := fresh(0)
		var kept []*xcore.Transaction
		var texts []string
		hist := ""
		for i := 0; i <= depth; i++ {
			if i > 0 {
				ops[seqOps[i-1]].do(b, i)
				hist += ops[seqOps[i-1]].name + " "
			}
			tx, got := result(b)
			hist += "Build "
			_, want := result(fresh(i))
			c.Step(1)
			if got != want {
				c.Fail("history", "from %d, %s: the last build gives %s, a builder that was not used before gives %s", start, hist, got, want)
			}
			if tx != nil {
				c.Valid(1)
				kept, texts = append(kept, tx), append(texts, got)
			}
		}
		for i, tx := range kept {
			if now := fmt.Sprintf("%x fees %d", tx.Serialize(), tx.Fees()); now != texts[i] {
				c.Fail("changed", "from %d, %s: build %d gave %s, which is now %s", start, hist, i, texts[i], now)
			}
		}
		c.StateS(fmt.Sprint(start, seqOps))
	})
}

func coin14(b *xcore.TransactionBuilder, kind, n int) {
	sp := bSpends()[kind]
	keys := sp.keys
	if sp.n > 0 {
		keys = keys[:sp.m]
	}
	b.AddCoin(xcore.NewCoinBuilder().AddOutput(bTxidText(n, false), uint32(n), uint64(5000+n), hex.EncodeToString(sp.locking)).ToCoins()[0])
	b.AddKeys(keys...)
	if sp.redeem != nil {
		b.SetRedeemScript(clone(sp.redeem))
	}
}
