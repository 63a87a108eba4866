package props

import (
	"bytes"
	"fmt"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xvm"
)

func init() { mc.Register("C11", c11) }

// matrixMatch: can the signatures be matched in order to distinct keys in order.
func matrixMatch(v func(i, j int) bool, m, n int) bool {
	// plain recursion over all order-preserving assignments
	var rec func(i, j int) bool
	rec = func(i, j int) bool {
		if i == m {
			return true
		}
		for ; j < n; j++ {
			if v(i, j) && rec(i+1, j+1) {
				return true
			}
		}
		return false
	}
	return rec(0, 0)
}

func pushAny(b []byte) []byte {
	if len(b) == 0 {
		return []byte{0}
	}
	return pushBytes(b)
}

func c11(r *mc.Run) {
	// every validity relation between signatures and keys
	r.Explore("relations", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("n", 5)
		m := c.Pick("m", n+1)
		bits := m * n
		if bits > r.Q(12, 16) {
			c.Skip()
		}
		hi := bits
		if hi > 6 {
			hi = 6
		}
		base := c.Pick("relation", 1<<uint(hi))
		for lo := 0; lo < 1<<uint(bits-hi); lo++ {
			rel := base | lo<<uint(hi)
			v := func(i, j int) bool { return rel>>uint(i*n+j)&1 == 1 }
			for _, verify := range []bool{false, true} {
				var s []byte
				s = append(s, 0)
				for i := 0; i < m; i++ {
					s = append(s, pushAny([]byte{byte(i + 1), 0xcc, byte(0x10 + i)})...)
				}
				s = append(s, pushAny(ref.NumBytes(int64(m)))...)
				for j := 0; j < n; j++ {
					s = append(s, pushAny([]byte{byte(0xa0 + j)})...)
				}
				s = append(s, pushAny(ref.NumBytes(int64(n)))...)
				if verify {
					s = append(s, 0xaf, 0x51)
				} else {
					s = append(s, 0xae)
				}
				e := xvm.NewEngine()
				e.EnableStrict()
				e.SetSigHashFn(func(ht byte) ([]byte, error) { return []byte{ht}, nil })
				e.SetSigVerifyFn(func(h, sig, pub []byte) error {
					i, j := int(sig[0])-1, int(pub[0])-0xa0
					// the hash is that of the signature's own type byte
					if len(sig) != 2 || len(h) != 1 || int(h[0]) != 0x10+i || !v(i, j) {
						return fmt.Errorf("no")
					}
					return nil
				})
				c.Step(1)
				c.Valid(1)
				want := matrixMatch(v, m, n)
				if got := e.Execute(s) == nil; got != want {
					c.Fail("relation", "%d-of-%d (verify=%v) with validity relation %0*b (row-major, lowest bit first): success = %v, want %v", m, n, verify, bits, rel, got, want)
				}
				c.StateU(uint64(m), uint64(n), uint64(rel))
				c.Outcome(fmt.Sprint(want))
			}
		}
	})
	// keys and signatures that repeat: every list of keys over three, every list of signatures by them or by nobody
	r.Explore("repeated-keys", mc.Opts{}, func(c *mc.Ctx) {
		n := 1 + c.Pick("n", r.Q(4, 5))
		keys := make([]int, n)
		for j := range keys {
			keys[j] = c.Pick("key", 3)
		}
		for m := 1; m <= n; m++ {
			total := 1
			for i := 0; i < m; i++ {
				total *= 4
			}
			for a := 0; a < total; a++ {
				sigs := make([]int, m)
				for i, x := 0, a; i < m; i, x = i+1, x/4 {
					sigs[i] = x % 4
				}
				s := []byte{0}
				for _, x := range sigs {
					s = append(s, pushAny([]byte{byte(x + 1), 0xcc, 1})...)
				}
				s = append(s, pushAny(ref.NumBytes(int64(m)))...)
				for _, k := range keys {
					s = append(s, pushAny([]byte{2, byte(0xa0 + k)})...)
				}
				s = append(append(s, pushAny(ref.NumBytes(int64(n)))...), 0xae)
				e := xvm.NewEngine()
				e.EnableStrict()
				e.SetSigHashFn(func(ht byte) ([]byte, error) { return []byte{ht}, nil })
				e.SetSigVerifyFn(func(h, sig, pub []byte) error {
					if len(sig) != 2 || int(sig[0])-1 != int(pub[1])-0xa0 {
						return fmt.Errorf("no")
					}
					return nil
				})
				c.Step(1)
				want := matrixMatch(func(i, j int) bool { return sigs[i] == keys[j] }, m, n)
				if got := e.Execute(s) == nil; got != want {
					c.Fail("repeated", "%d-of-%d with the keys %v and signatures by %v (3: by nobody): success = %v, want %v", m, n, keys, sigs, got, want)
				}
			}
		}
		c.Valid(1)
		c.StateS(fmt.Sprint(keys))
	})
	// counts: every value and every encoding, with fewer, as many and more items than needed
	var counts [][]byte
	for n := int64(-2); n <= 22; n++ {
		counts = append(counts, ref.NumBytes(n))
	}
	counts = append(counts, []byte{0}, []byte{0x80}, []byte{1, 0}, []byte{2, 0, 0, 0}, rep(0xff, 4), []byte{0xff, 0xff, 0xff, 0x7f}, []byte{0, 0, 0, 0x80, 0}, rep(1, 5), rep(0xff, 8), []byte{0x15, 0x80}, []byte{1, 1}, []byte{1, 0, 0, 1})
	r.Explore("counts", mc.Opts{}, func(c *mc.Ctx) {
		nc := counts[c.Pick("n", len(counts))]
		mcnt := counts[c.Pick("m", len(counts))]
		for _, have := range []int{0, 1, 2, 3, 20, 21, 22} {
			for _, sigs := range []int{0, 1, 2, 3, 20, 21, 22} {
				for dummy := 0; dummy < 2; dummy++ {
					var s []byte
					if dummy == 1 {
						s = append(s, 0)
					}
					for i := 0; i < sigs; i++ {
						s = append(s, pushAny([]byte{byte(0x80 + i), 1})...)
					}
					s = append(s, pushAny(mcnt)...)
					for i := 0; i < have; i++ {
						s = append(s, pushAny([]byte{byte(0x80 + i)})...)
					}
					s = append(s, pushAny(nc)...)
					for _, op := range []byte{0xae, 0xaf} {
						p := append(s[:len(s):len(s)], op)
						if op == 0xaf {
							p = append(p, 0x51)
						}
						c.Step(1)
						c.Valid(1)
						m := newVM()
						want := m.Run(p) && len(m.St) > 0 && ref.Truth(m.St[len(m.St)-1])
						e := stubEngine()
						e.EnableStrict()
						if got := e.Execute(p) == nil; got != want {
							c.Fail("counts", "counts m=%x n=%x with %d signatures and %d keys (script %x): success = %v, want %v", mcnt, nc, sigs, have, p, got, want)
						}
						c.Outcome(fmt.Sprint(want))
					}
				}
			}
		}
		c.State(append(append(clone(nc), 0xfe), mcnt...))
	})
	// large n: every pair of positions; the signatures validate one key each
	r.Explore("large", mc.Opts{}, func(c *mc.Ctx) {
		n := []int{16, 17, 19, 20}[c.Pick("n", 4)]
		a := c.Pick("first key", n)
		for b := 0; b < n; b++ {
			for d := -1; d < n; d++ {
				pos := []int{a, b}
				if d >= 0 {
					pos = append(pos, d)
				}
				s := []byte{0}
				for _, p := range pos {
					s = append(s, pushAny([]byte{byte(0x80 + p), 1})...)
				}
				s = append(s, pushAny([]byte{byte(len(pos))})...)
				for j := 0; j < n; j++ {
					s = append(s, pushAny([]byte{byte(0x80 + j)})...)
				}
				s = append(s, pushAny([]byte{byte(n)})...)
				s = append(s, 0xae)
				want := a < b && (d < 0 || b < d)
				e := stubEngine()
				e.EnableStrict()
				c.Step(1)
				c.Valid(1)
				if got := e.Execute(s) == nil; got != want {
					c.Fail("large", "%d-of-%d with signatures of keys %v: success = %v, want %v", len(pos), n, pos, got, want)
				}
			}
		}
		c.StateU(uint64(n), uint64(a))
	})
	// the script the library generates, for every m and n
	r.Explore("scripts", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("n", 22)
		m := c.Pick("m", 24) - 1
		var keys [][]byte
		for i := 0; i < n; i++ {
			k := cat([]byte{byte(2 + i%2)}, seq(byte(i), 32))
			if i%3 == 2 {
				k = cat([]byte{4}, seq(byte(i), 64))
			}
			keys = append(keys, k)
		}
		want := m >= 1 && m <= n && n <= 20
		got, err := xcore.GenMultiSigScript(m, keys...)
		c.Step(1)
		c.Valid(1)
		if (err == nil) != want {
			c.Fail("script", "GenMultiSigScript(%d of %d): error = %v, want success = %v", m, n, err, want)
		}
		if !want {
			return
		}
		exp := pushCount(m)
		for _, k := range keys {
			exp = append(exp, pushBytes(k)...)
		}
		exp = append(append(exp, pushCount(n)...), 0xae)
		if !bytes.Equal(got, exp) {
			c.Fail("script", "GenMultiSigScript(%d of %d) = %x, want %x", m, n, got, exp)
		}
		c.State(exp)
		ps := xcore.NewPayToMultiSigScript(m, keys...)
		raw, err := ps.GetLockingScriptBytes()
		if err != nil || !bytes.Equal(raw, exp) {
			c.Fail("script", "PayToMultiSigScript(%d of %d) is %x (%v), want %x", m, n, raw, err, exp)
		}
		h, err1 := ps.Hash160()
		s, err2 := ps.Sha256()
		if err1 != nil || err2 != nil || !bytes.Equal(h, ref.Hash160(exp)) || !bytes.Equal(s, ref.Sha256(exp)) {
			c.Fail("script", "PayToMultiSigScript(%d of %d) hashes to %x / %x", m, n, h, s)
		}
	})
	// real signatures: every sequence of candidates
	hash, other := ref.Sha256([]byte("c11")), ref.Sha256([]byte("other"))
	r.Explore("signatures", mc.Opts{}, func(c *mc.Ctx) {
		n := 3
		m := c.Pick("m", 3) + 1
		unc := c.Bool("uncompressed")
		a := newAuth()
		var cands, keys [][]byte
		for j := 0; j < n; j++ {
			cands = append(cands, a.sig(testKeys[j], hash, 1))
			k := testKeys[j].PubKey().SerializeCompressed()
			if unc {
				k = testKeys[j].PubKey().SerializeUncompressed()
			}
			keys = append(keys, k)
		}
		cands = append(cands, a.sig(testKeys[4], hash, 1), a.sig(testKeys[0], other, 1), a.sig(testKeys[1], other, 1), []byte{}, []byte{1}, cands[0][:len(cands[0])-2])
		var idx []int
		s := []byte{0}
		for i := 0; i < m; i++ {
			j := c.Pick("signature", len(cands))
			idx = append(idx, j)
			s = append(s, pushAny(cands[j])...)
		}
		s = append(s, multisigScript(m, keys)...)
		want := true
		for i, j := range idx {
			want = want && j < n && (i == 0 || idx[i-1] < j)
		}
		e := xvm.NewEngine()
		e.EnableStrict()
		e.SetSigHashFn(func(ht byte) ([]byte, error) { return hash, nil })
		e.SetSigVerifyFn(func(h, sig, pub []byte) error {
			p, err := xcrypto.PubKeyFromBytes(pub)
			if err != nil {
				return err
			}
			return xcrypto.EcdsaVerify(p, h, sig)
		})
		c.Step(1)
		c.Valid(1)
		if got := e.Execute(s) == nil; got != want {
			c.Fail("signatures", "%d-of-3 with signatures %v (0..2: by that key; 3: unlisted key; 4,5: another hash; 6..8: malformed): success = %v, want %v", m, idx, got, want)
		}
		c.StateS(fmt.Sprint(m, unc, idx))
		c.Outcome(fmt.Sprint(want))
	})
	// whole transactions: every sequence of keys offered to the signer
	r.Explore("transactions", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("n", r.Q(3, 4)) + 1
		m := c.Pick("m", n) + 1
		k := spendKind{fmt.Sprintf("%d-of-%d", m, n), []int{kSH, kWSH}[c.Pick("kind", 2)], false, false, m, n}
		k.witness = k.kind == kWSH
		s := newSpendTx()
		sp := s.add(k)
		s.outputs(1)
		l := c.Pick("signatures", m+2)
		if l > 4 {
			c.Skip()
		}
		var keys []*xcrypto.PrvKey
		var idx []int
		for i := 0; i < l; i++ {
			j := c.Pick("key", n+1)
			idx = append(idx, j)
			p := testKeys[6]
			if j < n {
				p = sp.keys[j]
			}
			keys = append(keys, p)
		}
		want := l == m
		for i, j := range idx {
			want = want && j < n && (i == 0 || idx[i-1] < j)
		}
		// surplus signatures: the extra item becomes the dummy of a legacy input, and is never clean in a witness
		if l == m+1 && !k.witness {
			want = true
			for i, j := range idx[1:] {
				want = want && j < n && (i == 0 || idx[i] < j)
			}
		}
		err := s.tx.SignIndex(0, true, 1, keys...)
		if err == nil {
			err = s.tx.Verify()
		}
		c.Step(1)
		c.Valid(1)
		if (err == nil) != want {
			c.Fail("transaction", "%s %s signed with keys %v (%d is unlisted): error = %v, want success = %v", kindNames[k.kind], k.name, idx, n, err, want)
		}
		c.Outcome(fmt.Sprint(want))
		c.StateS(fmt.Sprint(k.kind, m, n, idx))
	})
}

func pushCount(n int) []byte {
	switch {
	case n == 0:
		return []byte{0}
	case n <= 16:
		return []byte{byte(0x50 + n)}
	}
	return []byte{1, byte(n)}
}
