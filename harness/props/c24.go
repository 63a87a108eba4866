package props

import (
	"fmt"
	"math/big"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/paillier"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
)

func init() { mc.Register("C24", c24) }

// adaptor is one run of the adaptor-signature protocol: Bob holds the secret.
type adaptor struct {
	alice          *xcrypto.EcdsaAlice
	bob            *xcrypto.EcdsaBob
	ka, kb         *xcrypto.PrvKey
	secret         *big.Int // as given to the library
	hash           []byte
	ja, jb         *xcrypto.PubKey
	ea, eb         *big.Int
	pa, pb         *paillier.PubKey
	ra, rb         *secp256k1.Scalar
	sa, sb         *secp256k1.Scalar
	ca, cb         *big.Int
	fa, fb         *big.Int
	der            []byte
	erra, errb     error
	doneA, doneB   [7]bool
	revealed       *big.Int
	revealedByPair *big.Int
}

func newAdaptor(ka, kb *xcrypto.PrvKey, secret *big.Int, hash []byte) *adaptor {
	s := new(big.Int).Set(secret)
	return &adaptor{ka: ka, kb: kb, secret: s, hash: hash, alice: xcrypto.NewEcdsaAlice(ka), bob: xcrypto.NewEcdsaBob(kb, s)}
}

// ready tells whether a party's phase can run; Alice's last phase needs Bob's signature.
func (a *adaptor) ready(bob bool, ph int) bool {
	me, you := &a.doneA, &a.doneB
	if bob {
		me, you = you, me
	}
	switch ph {
	case 3:
		return me[2] && you[2]
	case 4:
		return me[3] && you[2]
	case 5:
		return me[3] && you[4]
	case 6:
		if bob {
			return me[5]
		}
		return me[5] && you[6]
	}
	return true
}

func (a *adaptor) do(bob bool, ph int) {
	if bob {
		a.doneB[ph] = true
		if a.errb != nil {
			return
		}
		switch ph {
		case 1:
			a.jb = a.bob.ScriptlessPhase1(a.ka.PubKey())
		case 2:
			a.eb, a.pb, a.rb = a.bob.ScriptlessPhase2(a.hash)
		case 3:
			a.sb = a.bob.ScriptlessPhase3(a.ra)
		case 4:
			a.cb, a.errb = a.bob.ScriptlessPhase4(a.ea, a.pa, a.sb)
		case 5:
			if a.ca == nil {
				a.errb = a.erra
				return
			}
			a.fb, a.errb = a.bob.ScriptlessPhase5(a.sb, a.ca)
		case 6:
			a.der, a.errb = a.bob.ScriptlessPhase6(a.sb, a.fb)
		}
		return
	}
	a.doneA[ph] = true
	if a.erra != nil {
		return
	}
	switch ph {
	case 1:
		a.ja = a.alice.ScriptlessPhase1(a.kb.PubKey())
	case 2:
		a.ea, a.pa, a.ra = a.alice.ScriptlessPhase2(a.hash)
	case 3:
		a.sa = a.alice.ScriptlessPhase3(a.rb)
	case 4:
		a.ca, a.erra = a.alice.ScriptlessPhase4(a.eb, a.pb, a.sa)
	case 5:
		if a.cb == nil {
			a.erra = a.errb
			return
		}
		a.fa, a.erra = a.alice.ScriptlessPhase5(a.sa, a.cb)
	case 6:
		if a.errb != nil || a.fa == nil {
			return
		}
		if _, s, ok := ref.ParseDERSig(a.der); ok {
			a.revealed = a.alice.ScriptlessPhase6(a.fa, s)
		}
		a.revealedByPair = a.alice.ScriptlessPhase6(a.fa, a.fb)
	}
}

func (a *adaptor) run() {
	for ph := 1; ph <= 6; ph++ {
		a.do(true, ph)
		a.do(false, ph)
	}
}

func judgeAdaptor(c *mc.Ctx, cv *ref.Curve, a *adaptor, d1, d2, secret *big.Int, what string) {
	name := fmt.Sprintf("%s: keys %x and %x, secret %x, hash %x", what, d1, d2, secret, a.hash)
	dd := new(big.Int).Mul(d1, d2)
	dd.Mod(dd, cv.N)
	q := cv.MulG(dd)
	for i, j := range []*xcrypto.PubKey{a.ja, a.jb} {
		if j == nil || j.X.Cmp(q.X) != 0 || j.Y.Cmp(q.Y) != 0 {
			c.Fail("joint-key", "%s: party %d's joint key is not d1*d2*G", name, i+1)
		}
	}
	if a.ka.D.Cmp(d1) != 0 || a.kb.D.Cmp(d2) != 0 || a.secret.Cmp(secret) != 0 {
		c.Fail("input-changed", "%s: the keys or the secret were changed", name)
	}
	if a.sa.X.Cmp(a.sb.X) != 0 || a.sa.Y.Cmp(a.sb.Y) != 0 {
		c.Fail("nonce-point", "%s: the parties have different nonce points", name)
	}
	r := new(big.Int).Mod(a.sa.X, cv.N)
	if a.errb != nil || a.erra != nil {
		if cv.N.BitLen() < 64 {
			c.Outcome("r or s is zero: error")
			return
		}
		c.Fail("error", "%s: %v, %v", name, a.erra, a.errb)
	}
	rr, ss, ok := ref.ParseDERSig(a.der)
	if !ok {
		c.Fail("encoding", "%s: Bob's signature is %x", name, a.der)
	}
	e := ref.TruncHash(cv.N, a.hash)
	if !cv.ECDSAVerify(q, e, rr, ss) {
		c.Fail("invalid", "%s: Bob's signature (%x,%x) does not verify under the joint key", name, rr, ss)
	}
	if err := xcrypto.EcdsaVerify(a.jb, a.hash, a.der); err != nil {
		c.Fail("verify", "%s: EcdsaVerify refuses Bob's signature: %v", name, err)
	}
	if new(big.Int).Lsh(ss, 1).Cmp(cv.N) > 0 || rr.Cmp(r) != 0 {
		c.Fail("form", "%s: Bob's signature is (%x,%x), nonce point x %x", name, rr, ss, a.sa.X)
	}
	if a.revealed == nil {
		c.Fail("reveal", "%s: Alice computes nothing from the signature", name)
	}
	neg := new(big.Int).Sub(cv.N, secret)
	if a.revealed.Cmp(secret) != 0 && a.revealed.Cmp(neg) != 0 {
		c.Fail("reveal", "%s: from the published signature Alice computes %x, not the secret or its negation", name, a.revealed)
	}
	if a.revealedByPair.Cmp(secret) != 0 {
		c.Fail("reveal", "%s: from Bob's s value Alice computes %x, not the secret", name, a.revealedByPair)
	}
	// what Alice holds is s*t: a signature only as far as the equation makes it one
	one := big.NewInt(1)
	unit := secret.Cmp(one) == 0 || neg.Cmp(one) == 0
	if cv.ECDSAVerify(q, e, r, new(big.Int).Mod(a.fa, cv.N)) && !unit && cv.N.BitLen() > 64 {
		c.Fail("early", "%s: what Alice holds before the secret is applied verifies: (%x,%x)", name, r, a.fa)
	}
	if cv.N.BitLen() > 64 {
		for _, w := range []*big.Int{new(big.Int).Add(secret, one), big.NewInt(2), big.NewInt(3), new(big.Int).Rsh(cv.N, 1)} {
			w = new(big.Int).Mod(w, cv.N)
			if w.Sign() == 0 || w.Cmp(secret) == 0 || w.Cmp(neg) == 0 {
				continue
			}
			s := new(big.Int).ModInverse(w, cv.N)
			s.Mul(s, a.fa)
			s.Mod(s, cv.N)
			if s.Sign() != 0 && xcrypto.EcdsaVerify(a.ja, a.hash, ref.DERSig(r, s)) == nil {
				c.Fail("wrong-secret", "%s: the wrong secret %x gives a signature that verifies", name, w)
			}
		}
	}
	// with the secret, what Alice holds is the signature
	s := new(big.Int).ModInverse(secret, cv.N)
	s.Mul(s, a.fa)
	s.Mod(s, cv.N)
	if !cv.ECDSAVerify(q, e, r, s) {
		c.Fail("partial", "%s: what Alice holds, divided by the secret, is not a signature", name)
	}
	c.Valid(1)
}

func c24(r *mc.Run) {
	r.Assume("nonce points with x = 0 mod N and s = 0 (probability 2^-256 on secp256k1) may end in an error; the secret is between 1 and N-1")
	key := func(d *big.Int) *xcrypto.PrvKey { return xcrypto.PrvKeyFromBytes(ref.B32(d)) }
	withPool(func() {
		for _, t := range tinyCurves(128, 255, 2, false) {
			t := t
			cv := t.ref()
			onTiny(t, func() {
				where := fmt.Sprintf("curve p=%d b=%d n=%d", t.p, t.b, t.n)
				r.Explore(fmt.Sprintf("p=%d n=%d", t.p, t.n), mc.Opts{}, func(c *mc.Ctx) {
					// every secret with keys that depend on it; thorough: with every key
					sec := 1 + c.Pick("secret", t.n-1)
					step := r.Q(1+t.n/2, 5)
					for d := 1 + sec%step; d < t.n; d += step {
						d2 := 1 + (d*sec+7)%(t.n-1)
						a := newAdaptor(key(bi(d)), key(bi(d2)), bi(sec), []byte{byte(sec*11 + d)})
						a.run()
						c.Step(12)
						judgeAdaptor(c, cv, a, bi(d), bi(d2), bi(sec), where)
					}
					c.StateU(uint64(t.p), uint64(sec))
				})
			})
		}
		keys := ecKeys(curveN, true)
		hashes := ecHashes(curveN)
		secrets := append([]*big.Int{big.NewInt(2019)}, keys...)
		r.Explore("secp256k1", mc.Opts{}, func(c *mc.Ctx) {
			sec := secrets[c.Pick("secret", len(secrets))]
			d1 := keys[c.Pick("key 1", r.Q(3, 8))]
			d2 := keys[(c.Pick("key 2", r.Q(3, 8))+2)%8]
			h := hashes[c.Pick("hash", r.Q(2, len(hashes)))]
			if r.Quick() {
				h = hashes[(int(d1.Bit(0))+2*int(sec.Bit(1))+5*int(d2.Bit(3))+len(h))%len(hashes)]
			}
			a := newAdaptor(key(d1), key(d2), sec, clone(h))
			a.run()
			c.Step(12)
			judgeAdaptor(c, ref.Secp, a, d1, d2, sec, "secp256k1")
			c.StateS(fmt.Sprint(sec, d1, d2))
		})
		// hashes of other lengths: a longer one counts by its first 256 bits
		r.Explore("hash-lengths", mc.Opts{}, func(c *mc.Ctx) {
			l := []int{1, 20, 31, 33, 48, 63, 64, 65}[c.Pick("length", 8)]
			k := c.Pick("keys", r.Q(1, 3))
			sec := secrets[3+k]
			d1, d2 := keys[6-k], keys[3+k]
			a := newAdaptor(key(d1), key(d2), sec, seq(7, l))
			a.run()
			c.Step(12)
			judgeAdaptor(c, ref.Secp, a, d1, d2, sec, fmt.Sprintf("a hash of %d bytes", l))
			c.StateU(uint64(l), uint64(k))
		})
		r.Explore("interleavings", mc.Opts{}, func(c *mc.Ctx) {
			sec := secrets[[]int{0, 7, 3}[c.Pick("secret", r.Q(1, 3))]]
			d1, d2, h := keys[6], keys[2], hashes[6]
			ka, kb := key(d1), key(d2)
			a := newAdaptor(ka, kb, sec, clone(h))
			repeat := c.Pick("phase run twice", 8) // 0: none, 7: none, but a party that is done is closed
			var o *adaptor
			if c.Bool("other session") {
				if repeat > 0 && r.Quick() {
					c.Skip()
				}
				o = newAdaptor(ka, kb, secrets[5], hashes[2])
			}
			a.do(true, 1)
			a.do(false, 1)
			order := ""
			k := 0
			for {
				var en [][2]int
				for i := 0; i < 2; i++ {
					for ph := 2; ph <= 6; ph++ {
						if (i == 0 && a.doneA[ph]) || (i == 1 && a.doneB[ph]) {
							continue
						}
						if a.ready(i == 1, ph) {
							en = append(en, [2]int{i, ph})
						}
						break
					}
				}
				if len(en) == 0 {
					break
				}
				e := en[c.Pick("next", len(en))]
				a.do(e[0] == 1, e[1])
				order += fmt.Sprintf(" %c%d", 'A'+e[0], e[1])
				if repeat == 7 && e[1] == 6 {
					if e[0] == 0 {
						a.alice.Close()
					} else {
						a.bob.Close()
					}
					order += " close"
				}
				if e[1] == repeat {
					a.do(e[0] == 1, e[1])
				}
				if o != nil && k < 12 {
					o.do(k%2 == 0, 1+k/2)
					k++
				}
				c.Step(1)
			}
			c.StateS(order)
			judgeAdaptor(c, ref.Secp, a, d1, d2, sec, fmt.Sprintf("order%s, phase %d repeated, other session %v", order, repeat, o != nil))
			if o != nil {
				for ; k < 12; k++ {
					o.do(k%2 == 0, 1+k/2)
				}
				judgeAdaptor(c, ref.Secp, o, d1, d2, secrets[5], "the other session")
			}
		})
		r.Explore("closed", mc.Opts{}, func(c *mc.Ctx) {
			a := newAdaptor(key(keys[6]), key(keys[2]), secrets[3], clone(hashes[6]))
			given := func() []string {
				return []string{
					fmt.Sprintf("Alice: key %x hash %x joint %v pk %v n %v R %v shared R %v share %v value %v secret %v", a.ka.D, a.hash, pointText(a.ja), a.ea, paillierText(a.pa), scalarText(a.ra), scalarText(a.sa), a.ca, a.fa, a.revealed),
					fmt.Sprintf("Bob: key %x hash %x joint %v pk %v n %v R %v shared R %v share %v value %v signature %x", a.kb.D, a.hash, pointText(a.jb), a.eb, paillierText(a.pb), scalarText(a.rb), scalarText(a.sb), a.cb, a.fb, a.der),
				}
			}
			keptOnClose(c, 12, func(i int) { a.do(i%2 == 0, 1+i/2) }, given, []func(){a.alice.Close, a.bob.Close})
		})
		// Alice and Bob used again: after a whole run or one given up at any point, for the same hash or another; Bob anew
		// when the secret changes.
		reuse := func(c *mc.Ctx, cv *ref.Curve, ds, secs []*big.Int, hs [][]byte, what string) {
			rounds := r.Q(2, 3)
			sec := secs[0]
			a := newAdaptor(key(ds[0]), key(ds[1]), sec, clone(hs[0]))
			type used struct {
				h []byte
				x *big.Int
			}
			var nonces [2][]used
			for n := 0; n < rounds; n++ {
				if n > 0 {
					h := hs[c.Pick("hash", 2)]
					b := &adaptor{ka: a.ka, kb: a.kb, secret: a.secret, hash: clone(h), alice: a.alice, bob: a.bob}
					switch c.Pick("peer", 3) {
					case 1:
						b.alice = xcrypto.NewEcdsaAlice(a.ka)
					case 2:
						sec = secs[1]
						b.secret = new(big.Int).Set(sec)
						b.bob = xcrypto.NewEcdsaBob(a.kb, b.secret)
					}
					a = b
				}
				steps := 12
				if n < rounds-1 {
					steps -= c.Pick("steps left out", 13)
				}
				for i := 0; i < steps; i++ {
					a.do(i%2 == 0, 1+i/2)
				}
				c.Step(steps)
				if steps == 12 {
					judgeAdaptor(c, cv, a, ds[0], ds[1], sec, fmt.Sprintf("%s, run %d of the same parties", what, n+1))
				}
				for i, p := range []*secp256k1.Scalar{a.ra, a.rb} {
					if p == nil || cv.N.BitLen() < 64 {
						continue
					}
					for _, u := range nonces[i] {
						if string(u.h) != string(a.hash) && u.x.Cmp(p.X) == 0 {
							c.Fail("nonce-reused", "%s: %s uses one nonce for the hashes %x and %x", what, []string{"Alice", "Bob"}[i], u.h, a.hash)
						}
					}
					nonces[i] = append(nonces[i], used{a.hash, new(big.Int).Set(p.X)})
				}
			}
		}
		r.Explore("reused", mc.Opts{}, func(c *mc.Ctx) {
			reuse(c, ref.Secp, []*big.Int{keys[6], keys[2]}, []*big.Int{secrets[7], secrets[3]}, [][]byte{hashes[6], hashes[2]}, "secp256k1")
		})
		for _, t := range tinyCurves(128, 255, r.Q(1, 2), false) {
			t := t
			onTiny(t, func() {
				r.Explore("reused on a small curve", mc.Opts{}, func(c *mc.Ctx) {
					reuse(c, t.ref(), []*big.Int{bi(5), bi(t.n - 2)}, []*big.Int{bi(77), bi(3)}, [][]byte{{9}, {200}}, fmt.Sprintf("curve p=%d b=%d n=%d", t.p, t.b, t.n))
				})
			})
		}
	})
}
