package props

import (
	"crypto/rand"
	"fmt"
	"math/big"

	"verif/mc"

	"github.com/keyfuse/tokucore/xcrypto/paillier"
)

func init() { mc.Register("C25", c25) }

// byteQueue is a random source that hands out the given bytes, then a counter's.
type byteQueue struct {
	b []byte
	n byte
	r int
}

func (q *byteQueue) Read(p []byte) (int, error) {
	q.r++
	for i := range p {
		if len(q.b) > 0 {
			p[i], q.b = q.b[0], q.b[1:]
		} else {
			q.n += 3
			p[i] = q.n
		}
	}
	return len(p), nil
}

func withBytes(b []byte, f func()) {
	old := rand.Reader
	rand.Reader = &byteQueue{b: b}
	defer func() { rand.Reader = old }()
	f()
}

type pKey struct {
	pk  *paillier.PubKey
	sk  *paillier.PrvKey
	n   int64
	cts []*big.Int // a ciphertext of every plaintext, or of every of ms
	ms  []int64
}

func (k *pKey) name() string { return fmt.Sprintf("N=%v", k.pk.N) }

// smallPaillier makes the key of two primes of the given size through the library's key generation.
func smallPaillier(bits int, p, q int64) (*pKey, error) {
	var k *pKey
	var err error
	withBytes([]byte{byte(p), byte(q)}, func() {
		var pk *paillier.PubKey
		var sk *paillier.PrvKey
		if pk, sk, err = paillier.GenerateKeyPair(2 * bits); err == nil {
			k = &pKey{pk: pk, sk: sk, n: pk.N.Int64()}
		}
	})
	return k, err
}

// enc encrypts m with the randomizer r (and others should the library refuse r).
func (k *pKey) enc(m, r int64) (ct *big.Int, err error) {
	b := big.NewInt(r).FillBytes(make([]byte, (k.pk.N.BitLen()+7)/8))
	withBytes(b, func() { ct, err = k.pk.Encrypt(big.NewInt(m)) })
	return
}

func mod64(a, n int64) int64 { return ((a % n) + n) % n }

type pOp struct {
	name string
	run  func(k *pKey, a, b *big.Int) (*big.Int, error)
	ct   bool // the second operand is a ciphertext
	want func(a, b, n *big.Int) *big.Int
}

var pOps = []pOp{
	{"add", func(k *pKey, a, b *big.Int) (*big.Int, error) { return k.pk.Add(a, b) }, true,
		func(a, b, n *big.Int) *big.Int { r := new(big.Int).Add(a, b); return r.Mod(r, n) }},
	{"sub", func(k *pKey, a, b *big.Int) (*big.Int, error) { return k.pk.Sub(a, b), nil }, true,
		func(a, b, n *big.Int) *big.Int { r := new(big.Int).Sub(a, b); return r.Mod(r, n) }},
	{"add-plain", func(k *pKey, a, b *big.Int) (*big.Int, error) { return k.pk.AddPlaintext(a, b) }, false,
		func(a, b, n *big.Int) *big.Int { r := new(big.Int).Add(a, b); return r.Mod(r, n) }},
	{"mult-plain", func(k *pKey, a, b *big.Int) (*big.Int, error) { return k.pk.MultPlaintext(a, b) }, false,
		func(a, b, n *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, n) }},
	{"div-plain", func(k *pKey, a, b *big.Int) (*big.Int, error) { return k.pk.DivPlaintext(a, b) }, false,
		func(a, b, n *big.Int) *big.Int {
			r := new(big.Int).ModInverse(b, n)
			if r == nil {
				return nil
			}
			return r.Mul(r, a).Mod(r, n)
		}},
}

// pApply runs one operation on the ciphertext ca of a, checks that it left its inputs alone and that the result decrypts
// to the arithmetic; it returns the result.
func pApply(c *mc.Ctx, k *pKey, op *pOp, a, ca, b, cb *big.Int) *big.Int {
	x, y := ca, b
	if op.ct {
		y = cb
	}
	x0, y0 := new(big.Int).Set(x), new(big.Int).Set(y)
	got, err := op.run(k, x, y)
	if x.Cmp(x0) != 0 || y.Cmp(y0) != 0 {
		c.Fail("input-changed:"+op.name, "%s: %s changed an operand (%v,%v to %v,%v)", k.name(), op.name, x0, y0, x, y)
	}
	want := op.want(a, b, k.pk.N)
	if want == nil {
		if err == nil && got != nil {
			c.Fail("div-undefined", "%s: %v / %v is not defined, but a ciphertext was returned", k.name(), a, b)
		}
		c.Outcome("undefined")
		return nil
	}
	if err != nil || got == nil {
		c.Fail("refused:"+op.name, "%s: %s of a ciphertext of %v and %v was refused: %v", k.name(), op.name, a, b, err)
		return nil
	}
	d, err := k.sk.Decrypt(got)
	if err != nil || d.Cmp(want) != 0 {
		c.Fail("value:"+op.name, "%s: %s of %v and %v decrypts to %v (%v), want %v", k.name(), op.name, a, b, d, err, want)
	}
	return got
}

// sameResidue: a ciphertext of N^2 and more may be refused or taken modulo N^2, and is then worth what its residue is.
// Residues that share a factor with N are no ciphertexts; nothing is said of them.
func sameResidue(pk *paillier.PubKey, sk *paillier.PrvKey, x, d *big.Int) bool {
	if x == nil || x.Cmp(pk.NN) < 0 && x.Sign() < 1 {
		return false
	}
	y := new(big.Int).Mod(x, pk.NN)
	if new(big.Int).GCD(nil, nil, y, pk.N).Cmp(big.NewInt(1)) != 0 {
		return x.Sign() > 0
	}
	m, err := sk.Decrypt(y)
	return err == nil && d != nil && m.Cmp(d) == 0
}

func c25(r *mc.Run) {
	sizes := [][]int64{{29, 31}, {53, 59, 61}, {97, 101, 103, 107, 109, 113, 127}, {193, 197, 199, 211, 223, 227, 229, 233, 239, 241, 251}}
	type pair struct {
		bits int
		p, q int64
	}
	var pairs []pair
	for i, ps := range sizes {
		for _, p := range ps {
			for _, q := range ps {
				pairs = append(pairs, pair{5 + i, p, q})
			}
		}
	}
	// Every small key: also two equal primes offered first.
	keys := make([]*pKey, len(pairs))
	r.Explore("keygen", mc.Opts{Serial: true}, func(c *mc.Ctx) {
		i := c.Pick("pair", len(pairs))
		pr := pairs[i]
		c.Logf("primes offered: %d, %d", pr.p, pr.q)
		c.Valid(1)
		c.StateU(uint64(pr.p), uint64(pr.q))
		k, err := smallPaillier(pr.bits, pr.p, pr.q)
		if err != nil {
			if pr.p == pr.q {
				c.Outcome("equal refused")
				return
			}
			c.Fail("keygen", "key generation with primes %d and %d: %v", pr.p, pr.q, err)
			return
		}
		if new(big.Int).Mul(k.pk.N, k.pk.N).Cmp(k.pk.NN) != 0 {
			c.Fail("nn", "%s: NN=%v is not N squared", k.name(), k.pk.NN)
		}
		// A few plaintexts under every key, at the ends of the range.
		for _, m := range []int64{0, 1, 2, k.n / 2, k.n - 2, k.n - 1} {
			for _, rd := range []int64{1, 2, 3, k.n - 1, k.n - 2} {
				ct, err := k.enc(m, rd)
				if err != nil {
					c.Fail("encrypt", "%s: plaintext %d randomizer %d: %v", k.name(), m, rd, err)
					return
				}
				if d, err := k.sk.Decrypt(ct); err != nil || d.Int64() != m {
					c.Fail("decrypt", "%s (primes offered %d, %d): plaintext %d with randomizer %d decrypts to %v (%v)", k.name(), pr.p, pr.q, m, rd, d, err)
				}
				c.Step(1)
			}
		}
		keys[i] = k
	})
	if r.Quick() {
		var kk []*pKey
		seen := map[int64]bool{}
		for i, k := range keys {
			if k != nil && pairs[i].p < pairs[i].q && !seen[k.n] {
				if seen[k.n] = true; k.n < 10000 || len(kk) < 12 {
					kk = append(kk, k)
				}
			}
		}
		keys = kk
	} else {
		var kk []*pKey
		for i, k := range keys {
			if k != nil && pairs[i].p != pairs[i].q {
				kk = append(kk, k)
			}
		}
		keys = kk
	}
	if len(keys) == 0 {
		return
	}
	// Every plaintext under every randomizer, for the smallest keys; every plaintext for the others with a few.
	full := r.Q(1, 4)
	r.Explore("randomizers", mc.Opts{Serial: true}, func(c *mc.Ctx) {
		ki := c.Pick("key", len(keys))
		k := keys[ki]
		n := k.n
		step := int64(1)
		if ki >= full {
			if r.Quick() {
				step = 31
			}
		}
		part := int64(c.Pick("part", 16))
		lo, hi := part*n/16, (part+1)*n/16
		for rd := lo; rd < hi; rd++ {
			if ki >= full && rd%97 != 5 && rd > 40 && rd < n-40 && rd%29 != 0 {
				continue
			}
			ms := step
			if ki < full && r.Quick() {
				ms = 2
				if rd < 3 || rd > n-3 || rd%29 == 0 || rd%31 == 0 {
					ms = 1
				}
			} else if ki >= full {
				ms = step * 61
			}
			for m := rd % ms; m < n; m += ms {
				ct, err := k.enc(m, rd)
				if err != nil {
					c.Fail("encrypt", "%s: plaintext %d randomizer %d: %v", k.name(), m, rd, err)
					return
				}
				d, err := k.sk.Decrypt(ct)
				if err != nil || d.Int64() != m {
					c.Fail("decrypt", "%s: plaintext %d with randomizer %d gives %v, which decrypts to %v (%v)", k.name(), m, rd, ct, d, err)
				}
				c.Step(1)
			}
			c.Valid(1)
		}
		c.StateU(uint64(ki), uint64(part))
	})
	// One ciphertext of every plaintext.
	for i, k := range keys {
		n := k.n
		st := int64(1)
		if i > 3 || n > 1000 && r.Quick() {
			st = n/97 + 1
		}
		for m := int64(0); m < n; m++ {
			if m%st != 0 && m > 3 && m < n-3 && m != n/2 && m != n/2+1 {
				continue
			}
			ct, err := k.enc(m, mod64(m*7+11, n))
			if err != nil {
				continue
			}
			k.cts = append(k.cts, ct)
			k.ms = append(k.ms, m)
		}
	}
	// Every pair of plaintexts under every operation.
	r.Explore("pairs", mc.Opts{}, func(c *mc.Ctx) {
		k := keys[c.Pick("key", len(keys))]
		if len(k.ms) == 0 {
			c.Skip()
		}
		i := c.Pick("a", len(k.ms))
		a := big.NewInt(k.ms[i])
		c.Logf("%s a=%v ciphertext %v", k.name(), a, k.cts[i])
		c.Valid(1)
		for j := range k.ms {
			b := big.NewInt(k.ms[j])
			for o := range pOps {
				pApply(c, k, &pOps[o], a, k.cts[i], b, k.cts[j])
			}
			c.Step(len(pOps))
		}
		c.StateU(uint64(k.n), uint64(k.ms[i]))
	})
	// Constants beyond the range, negative ones too: they count modulo N, or are refused.
	r.Explore("constants", mc.Opts{}, func(c *mc.Ctx) {
		k := keys[c.Pick("key", len(keys))]
		if len(k.ms) < 7 {
			c.Skip()
		}
		ix := []int{0, 1, 2, len(k.ms) / 2, len(k.ms) - 2, len(k.ms) - 1}
		i := ix[c.Pick("a", len(ix))]
		a, ca := big.NewInt(k.ms[i]), k.cts[i]
		c.Valid(1)
		c.StateU(uint64(k.n), a.Uint64())
		step := int64(1)
		if r.Quick() {
			step = 1 + k.n/300
		}
		nn := k.pk.NN.Int64()
		consts := func(f func(b *big.Int)) {
			for b := -2*k.n - 3; b <= 2*k.n+3; b++ {
				if b%step == 0 || mod64(b, k.n) < 3 || mod64(b, k.n) > k.n-3 {
					f(big.NewInt(b))
				}
			}
			for d := int64(-3); d <= 3; d++ {
				f(big.NewInt(nn + d))
				f(big.NewInt(-nn + d))
			}
		}
		consts(func(b *big.Int) {
			for o := range pOps {
				if pOps[o].ct {
					continue
				}
				x0, b0 := new(big.Int).Set(ca), new(big.Int).Set(b)
				got, err := pOps[o].run(k, ca, b)
				c.Step(1)
				if ca.Cmp(x0) != 0 || b.Cmp(b0) != 0 {
					c.Fail("input-changed:"+pOps[o].name, "%s: %s changed an operand", k.name(), pOps[o].name)
				}
				if err != nil || got == nil {
					continue
				}
				want := pOps[o].want(a, b, k.pk.N)
				if d, err := k.sk.Decrypt(got); want == nil || err != nil || d.Cmp(want) != 0 {
					c.Fail("constant:"+pOps[o].name, "%s: %s of a ciphertext of %v and the constant %v decrypts to %v (%v), want %v or a refusal", k.name(), pOps[o].name, a, b, d, err, want)
				}
			}
		})
	})
	// Sequences of operations: every result is a ciphertext like any other.
	depth := r.Q(3, 4)
	r.Explore("sequences", mc.Opts{}, func(c *mc.Ctx) {
		k := keys[c.Pick("key", min(len(keys), 3))]
		if len(k.ms) < 7 {
			c.Skip()
		}
		ix := []int{0, 1, 2, len(k.ms) / 2, len(k.ms) - 2, len(k.ms) - 1}
		i := ix[c.Pick("a", len(ix))]
		a, ca := big.NewInt(k.ms[i]), k.cts[i]
		for d := 0; d < depth; d++ {
			op := &pOps[c.Pick("op", len(pOps))]
			j := ix[c.Pick("b", len(ix))]
			c.Logf("%s with %d", op.name, k.ms[j])
			b := big.NewInt(k.ms[j])
			if d == depth-1 {
				// The last operand may also be the intermediate result itself.
				for _, o := range []string{"add", "sub"} {
					if op.name == o {
						pApply(c, k, op, a, ca, a, ca)
					}
				}
			}
			got := pApply(c, k, op, a, ca, b, k.cts[j])
			if got == nil {
				break
			}
			a, ca = op.want(a, b, k.pk.N), got
			c.StateU(uint64(k.n), a.Uint64(), ca.Uint64())
			c.Step(1)
		}
		c.Valid(1)
	})
	// Out of range.
	r.Explore("out-of-range", mc.Opts{}, func(c *mc.Ctx) {
		k := keys[c.Pick("key", len(keys))]
		if len(k.ms) < 2 {
			c.Skip()
		}
		kind := c.Pick("kind", 3)
		var bad []*big.Int
		if kind == 0 {
			for d := int64(0); d < 40; d++ {
				bad = append(bad, big.NewInt(-1-d), new(big.Int).Add(k.pk.N, big.NewInt(d)), new(big.Int).Add(k.pk.NN, big.NewInt(d-20)), big.NewInt(-k.n*d-1))
			}
			for _, m := range bad {
				c.Logf("plaintext %v", m)
				if ct, err := k.pk.Encrypt(m); err == nil {
					c.Fail("plaintext-range", "%s: plaintext %v was encrypted to %v", k.name(), m, ct)
				}
				c.Step(1)
			}
			return
		}
		for d := int64(0); d < 40; d++ {
			bad = append(bad, big.NewInt(-d), new(big.Int).Add(k.pk.NN, big.NewInt(d)), new(big.Int).Neg(k.cts[int(d)%len(k.cts)]))
		}
		for _, ct := range k.cts {
			bad = append(bad, new(big.Int).Add(k.pk.NN, ct), new(big.Int).Sub(ct, k.pk.NN))
		}
		bad = append(bad, nil)
		for _, x := range bad {
			c.Step(1)
			if kind == 1 {
				if d, err := k.sk.Decrypt(x); err == nil && !sameResidue(k.pk, k.sk, x, d) {
					c.Fail("ciphertext-range", "%s: %v, not a ciphertext, was decrypted to %v", k.name(), x, d)
				}
				continue
			}
			good := k.cts[1]
			for o := range pOps {
				op := &pOps[o]
				if got, err := op.run(k, x, good); err == nil && got != nil {
					c.Fail("operand-range:"+op.name, "%s: %s accepted %v, not a ciphertext, and returned %v", k.name(), op.name, x, got)
				}
				if !op.ct {
					continue
				}
				if got, err := op.run(k, good, x); err == nil && got != nil {
					c.Fail("operand-range:"+op.name, "%s: %s accepted %v, not a ciphertext, and returned %v", k.name(), op.name, x, got)
				}
			}
		}
		c.Valid(len(bad))
	})
	// Real key sizes, at the boundary plaintexts.
	bits := []int{512, 1024, 2048}
	if !r.Quick() {
		bits = append(bits, 3072, 4096)
	}
	var big1 []*pKey
	var alph [][]*big.Int
	var bct [][]*big.Int
	for _, b := range bits {
		var pk *paillier.PubKey
		var sk *paillier.PrvKey
		var err error
		withPool(func() { pk, sk, err = paillier.GenerateKeyPair(b) })
		if err != nil {
			r.Explore("real-keygen", mc.Opts{}, func(c *mc.Ctx) { c.Fail("keygen", "key generation of %d bits: %v", b, err) })
			continue
		}
		k := &pKey{pk: pk, sk: sk}
		add := func(x *big.Int, d int64) *big.Int { return new(big.Int).Add(x, big.NewInt(d)) }
		n := pk.N
		half := new(big.Int).Rsh(n, 1)
		a := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(2), big.NewInt(255), big.NewInt(256), half, add(half, 1), add(n, -2), add(n, -1)}
		for _, sh := range []uint{32, 64, 128, 256, 257, uint(b / 2), uint(b - 1)} {
			p := new(big.Int).Lsh(big.NewInt(1), sh)
			if p.Cmp(n) < 0 {
				a = append(a, p, add(p, -1))
			}
		}
		var cs []*big.Int
		withPool(func() {
			for _, m := range a {
				ct, _ := pk.Encrypt(m)
				cs = append(cs, ct)
			}
		})
		big1, alph, bct = append(big1, k), append(alph, a), append(bct, cs)
	}
	if len(big1) == 0 {
		return
	}
	r.Explore("real-keys", mc.Opts{}, func(c *mc.Ctx) {
		ki := c.Pick("bits", len(big1))
		k, al, cs := big1[ki], alph[ki], bct[ki]
		i := c.Pick("a", 23)
		if i >= len(al) {
			c.Skip()
		}
		a, ca := al[i], cs[i]
		if ca == nil {
			c.Fail("encrypt", "a plaintext in range was refused by a key of %d bits: %v", bits[ki], a)
			return
		}
		if d, err := k.sk.Decrypt(ca); err != nil || d.Cmp(a) != 0 {
			c.Fail("decrypt", "%d-bit key: %v decrypts to %v (%v)", bits[ki], a, d, err)
			return
		}
		c.Valid(1)
		c.StateU(uint64(ki), uint64(i))
		for j := range al {
			if cs[j] == nil || r.Quick() && ki > 1 && (i+j)%4 != 0 {
				continue
			}
			for o := range pOps {
				pApply(c, k, &pOps[o], a, ca, al[j], cs[j])
				c.Step(1)
			}
		}
		for j := range al {
			for _, b := range []*big.Int{new(big.Int).Neg(al[j]), new(big.Int).Add(al[j], k.pk.N), new(big.Int).Sub(al[j], k.pk.NN)} {
				if r.Quick() && (ki > 0 || (i+j)%3 != 0) {
					continue
				}
				for o := range pOps {
					if pOps[o].ct {
						continue
					}
					got, err := pOps[o].run(k, ca, b)
					c.Step(1)
					if err != nil || got == nil {
						continue
					}
					want := pOps[o].want(a, b, k.pk.N)
					if d, err := k.sk.Decrypt(got); want == nil || err != nil || d.Cmp(want) != 0 {
						c.Fail("constant:"+pOps[o].name, "%d-bit key: %s of a ciphertext of %v and the constant %v decrypts to %v (%v), want %v or a refusal", bits[ki], pOps[o].name, a, b, d, err, want)
					}
				}
			}
		}
		// Out of range at this size.
		for _, d := range []int64{0, 1, 2} {
			if _, err := k.pk.Encrypt(new(big.Int).Add(k.pk.N, big.NewInt(d))); err == nil {
				c.Fail("plaintext-range", "%d-bit key: plaintext N+%d was encrypted", bits[ki], d)
			}
			if m, err := k.sk.Decrypt(new(big.Int).Add(k.pk.NN, big.NewInt(d))); err == nil && d > 0 && !sameResidue(k.pk, k.sk, new(big.Int).Add(k.pk.NN, big.NewInt(d)), m) {
				c.Fail("ciphertext-range", "%d-bit key: N^2+%d was decrypted", bits[ki], d)
			}
		}
		if m, err := k.sk.Decrypt(new(big.Int).Add(k.pk.NN, ca)); err == nil && !sameResidue(k.pk, k.sk, ca, m) {
			c.Fail("ciphertext-range", "%d-bit key: N^2 plus a ciphertext was decrypted to something else than the ciphertext", bits[ki])
		}
	})
	r.Assume("the randomness of key generation and encryption is chosen by the check through crypto/rand.Reader")
}
