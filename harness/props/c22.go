package props

import (
	"bytes"
	"fmt"
	"math/big"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/paillier"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
)

func init() { mc.Register("C22", c22) }

// party is one side of a two-party signing session, with the messages it has produced.
type party struct {
	p      *xcrypto.EcdsaParty
	prv    *xcrypto.PrvKey
	hash   []byte
	peer   *party
	joint  *xcrypto.PubKey
	encpk  *big.Int
	encpub *paillier.PubKey
	r      *secp256k1.Scalar
	shareR *secp256k1.Scalar
	ct     *big.Int
	sig    []byte
	err    error
	done   [6]bool
}

type session [2]*party

func newSession(k1, k2 *xcrypto.PrvKey, h1, h2 []byte) session {
	a := &party{p: xcrypto.NewEcdsaParty(k1), prv: k1, hash: h1}
	b := &party{p: xcrypto.NewEcdsaParty(k2), prv: k2, hash: h2}
	a.peer, b.peer = b, a
	return session{a, b}
}

// ready tells whether the inputs of a phase are there.
func (p *party) ready(phase int) bool {
	q := p.peer
	switch phase {
	case 3:
		return p.done[2] && q.done[2]
	case 4:
		return p.done[3] && q.done[2]
	case 5:
		return p.done[3] && q.done[4]
	}
	return true
}

func (p *party) do(phase int) {
	if p.err != nil {
		p.done[phase] = true
		return
	}
	q := p.peer
	switch phase {
	case 1:
		p.joint = p.p.Phase1(q.prv.PubKey())
	case 2:
		p.encpk, p.encpub, p.r = p.p.Phase2(p.hash)
		if p.encpk == nil || p.encpub == nil || p.r == nil {
			p.err = fmt.Errorf("phase 2 failed")
		}
	case 3:
		p.shareR = p.p.Phase3(q.r)
	case 4:
		if q.err != nil {
			p.err = q.err
			break
		}
		p.ct, p.err = p.p.Phase4(q.encpk, q.encpub, p.shareR)
	case 5:
		if q.err != nil {
			p.err = q.err
			break
		}
		p.sig, p.err = p.p.Phase5(p.shareR, q.ct)
	}
	p.done[phase] = true
}

// given is what the parties have handed out, and what they were given to keep.
func (s session) given() (o []string) {
	for i, p := range s {
		o = append(o, fmt.Sprintf("party %d: key %x hash %x joint %v pk %v n %v R %v shared R %v share %v signature %x", i+1, p.prv.D, p.hash, pointText(p.joint), p.encpk, paillierText(p.encpub), scalarText(p.r), scalarText(p.shareR), p.ct, p.sig))
	}
	return o
}

func pointText(p *xcrypto.PubKey) string {
	if p == nil {
		return "none"
	}
	return fmt.Sprintf("(%x,%x)", p.X, p.Y)
}

func scalarText(p *secp256k1.Scalar) string {
	if p == nil {
		return "none"
	}
	return fmt.Sprintf("(%x,%x)", p.X, p.Y)
}

func paillierText(p *paillier.PubKey) string {
	if p == nil {
		return "none"
	}
	return fmt.Sprintf("%+v", *p)
}

// keptOnClose runs the steps up to any point, closes any of the parties, any number of times up to two, and requires what was
// handed out before to stay as it was.
func keptOnClose(c *mc.Ctx, steps int, step func(i int), given func() []string, close []func()) {
	n := c.Pick("steps", steps+1)
	for i := 0; i < n; i++ {
		step(i)
	}
	before := given()
	for k := 0; k < 2; k++ {
		who := c.Pick("close", len(close))
		close[who]()
		c.Step(1)
		c.Valid(1)
		for i, t := range given() {
			if t != before[i] {
				c.Fail("close-changes", "after %d steps, closing party %d changes what was handed out: %s, before %s", n, who+1, t, before[i])
			}
		}
	}
	c.StateU(uint64(n))
}

func (s session) run() {
	for ph := 1; ph <= 5; ph++ {
		s[0].do(ph)
		s[1].do(ph)
	}
}

// judge checks a finished session on curve cv.
func judgeSession(c *mc.Ctx, cv *ref.Curve, s session, d1, d2 *big.Int, what string) {
	name := fmt.Sprintf("%s: keys %x and %x, hash %x", what, d1, d2, s[0].hash)
	dd := new(big.Int).Mul(d1, d2)
	dd.Mod(dd, cv.N)
	q := cv.MulG(dd)
	for i, p := range s {
		if p.joint == nil || p.joint.X.Cmp(q.X) != 0 || p.joint.Y.Cmp(q.Y) != 0 {
			c.Fail("joint-key", "%s: party %d's joint key is (%x,%x), not d1*d2*G", name, i+1, p.joint.X, p.joint.Y)
		}
		if p.prv.D.Cmp([]*big.Int{d1, d2}[i]) != 0 {
			c.Fail("key-changed", "%s: party %d's private key changed", name, i+1)
		}
	}
	a, b := s[0], s[1]
	if a.shareR == nil || b.shareR == nil {
		c.Fail("failed", "%s: %v %v", name, a.err, b.err)
	}
	if a.shareR.X.Cmp(b.shareR.X) != 0 || a.shareR.Y.Cmp(b.shareR.Y) != 0 {
		c.Fail("nonce-point", "%s: the parties have different nonce points", name)
	}
	r := new(big.Int).Mod(a.shareR.X, cv.N)
	if r.Sign() == 0 && a.err != nil && b.err != nil {
		c.Outcome("r is zero: error")
		return
	}
	if a.err != nil || b.err != nil {
		// an s of zero: cannot be told from outside on a small curve
		if cv.N.BitLen() < 64 && (a.err != nil) == (b.err != nil) {
			c.Outcome("s or r is zero: error")
			return
		}
		c.Fail("error", "%s: %v, %v", name, a.err, b.err)
	}
	for i, p := range s {
		rr, ss, ok := ref.ParseDERSig(p.sig)
		if !ok {
			c.Fail("encoding", "%s: party %d's signature is %x", name, i+1, p.sig)
		}
		if !cv.ECDSAVerify(q, ref.TruncHash(cv.N, p.hash), rr, ss) {
			c.Fail("invalid", "%s: party %d's signature (%x,%x) does not verify under the joint key", name, i+1, rr, ss)
		}
		if new(big.Int).Lsh(ss, 1).Cmp(cv.N) > 0 {
			c.Fail("high-s", "%s: party %d's signature has high s %x", name, i+1, ss)
		}
		if rr.Cmp(r) != 0 {
			c.Fail("r", "%s: r is %x, the nonce point's x is %x", name, rr, a.shareR.X)
		}
		if err := xcrypto.EcdsaVerify(p.joint, p.hash, p.sig); err != nil {
			c.Fail("verify", "%s: EcdsaVerify refuses party %d's signature: %v", name, i+1, err)
		}
	}
	if !bytes.Equal(a.sig, b.sig) {
		c.Fail("differ", "%s: the parties' signatures differ: %x and %x", name, a.sig, b.sig)
	}
	c.Valid(1)
}

func c22(r *mc.Run) {
	r.Assume("nonce points with x = 0 mod N and s = 0 (probability 2^-256 on secp256k1) may end in an error")
	r.Assume("alterations of a message in transit leave negation of a nonce point aside, which gives the same signature")
	key := func(d *big.Int) *xcrypto.PrvKey { return xcrypto.PrvKeyFromBytes(ref.B32(d)) }
	withPool(func() {
		for _, t := range tinyCurves(128, 255, 2, false) {
			t := t
			cv := t.ref()
			onTiny(t, func() {
				r.Explore(fmt.Sprintf("p=%d n=%d", t.p, t.n), mc.Opts{}, func(c *mc.Ctx) {
					d1 := 1 + c.Pick("key 1", t.n-1)
					var second []int
					if r.Quick() {
						second = []int{t.n - 1, 1 + (d1*7+3)%(t.n-1)}
					} else {
						for d := 1; d < t.n; d++ {
							second = append(second, d)
						}
					}
					for i, d2 := range second {
						for _, h := range []int{d1 * 5 & 255, (d2*3 + i + 128) & 255}[:r.Q(1, 2)] {
							hash := []byte{byte(h)}
							s := newSession(key(bi(d1)), key(bi(d2)), hash, hash)
							s.run()
							c.Step(10)
							judgeSession(c, cv, s, bi(d1), bi(d2), fmt.Sprintf("curve p=%d b=%d n=%d", t.p, t.b, t.n))
						}
					}
					c.StateU(uint64(t.p), uint64(d1))
				})
			})
		}
		keys := ecKeys(curveN, !r.Quick())
		hashes := ecHashes(curveN)
		if !r.Quick() {
			hashes = append(hashes, shapedHashes()...)
		}
		r.Explore("secp256k1", mc.Opts{}, func(c *mc.Ctx) {
			d1 := keys[c.Pick("key 1", len(keys))]
			d2 := keys[c.Pick("key 2", len(keys))]
			for i, h := range hashes {
				if r.Quick() && i%3 != int(d1.Bit(0)+d2.Bit(0)) {
					continue
				}
				s := newSession(key(d1), key(d2), clone(h), clone(h))
				s.run()
				c.Step(10)
				if !bytes.Equal(s[0].hash, h) {
					c.Fail("input-changed", "the hash was changed")
				}
				judgeSession(c, ref.Secp, s, d1, d2, "secp256k1")
			}
			c.StateS(d1.String() + d2.String())
		})
		// hashes of other lengths: a longer one counts by its first 256 bits
		r.Explore("hash-lengths", mc.Opts{}, func(c *mc.Ctx) {
			l := []int{1, 20, 31, 33, 48, 63, 64, 65}[c.Pick("length", 8)]
			k := c.Pick("keys", r.Q(1, 3))
			h := seq(7, l)
			d1, d2 := keys[6-k], keys[3+k]
			s := newSession(key(d1), key(d2), clone(h), clone(h))
			s.run()
			c.Step(10)
			judgeSession(c, ref.Secp, s, d1, d2, fmt.Sprintf("a hash of %d bytes", l))
			c.StateU(uint64(l), uint64(k))
		})
		// every order of the phases that their inputs allow, with repetitions and another session of the same keys alongside
		d1, d2 := keys[6], keys[3]
		h := hashes[6]
		r.Explore("interleavings", mc.Opts{}, func(c *mc.Ctx) {
			k1, k2 := key(d1), key(d2)
			s := newSession(k1, k2, clone(h), clone(h))
			repeat := c.Pick("phase run twice", 7) // 0: none, 6: none, but a party that is done is closed
			other := 0                             // 0: none, 1: alternating, 2: alternating, closed in the middle
			if repeat == 0 || !r.Quick() {
				other = c.Pick("other session", 3)
			}
			var o session
			if other > 0 {
				o = newSession(k1, k2, hashes[2], hashes[2])
			}
			n := 0
			first := [2]int{1, 1}
			if r.Quick() { // the joint key at the start or at the end
				for i := range s {
					if repeat == 0 && other == 0 && c.Bool("joint key last") {
						first[i] = 2
					} else {
						s[i].do(1)
						first[i] = 2
					}
				}
			}
			order := ""
			for {
				var en []int
				for i, p := range s {
					for ph := first[i]; ph <= 5; ph++ {
						if p.done[ph] {
							continue
						}
						if p.ready(ph) {
							en = append(en, i*10+ph)
						}
						if ph > 1 { // a party takes its own phases in order
							break
						}
					}
				}
				if len(en) == 0 {
					break
				}
				e := en[c.Pick("next", len(en))]
				p, ph := s[e/10], e%10
				p.do(ph)
				order += fmt.Sprintf(" %c%d", 'A'+e/10, ph)
				if repeat == 6 && p.done[1] && p.done[5] {
					p.p.Close()
					order += " close"
				}
				if ph == repeat {
					if ph == 2 && (p.peer.done[3] || p.peer.done[4]) {
						// a new Phase2 would replace messages the peer has used
					} else {
						p.do(ph)
						order += fmt.Sprintf(" %c%d", 'A'+e/10, ph)
					}
				}
				if other > 0 {
					q := n % 2
					ph2 := 1 + n/2
					if ph2 <= 5 && (other == 1 || ph2 <= 3) {
						if o[q].ready(ph2) {
							o[q].do(ph2)
						}
					} else if other == 2 && ph2 == 4 {
						o[q].p.Close()
					}
					n++
				}
				c.Step(1)
			}
			for i := range s {
				if !s[i].done[1] {
					s[i].do(1)
				}
			}
			c.StateS(order)
			judgeSession(c, ref.Secp, s, d1, d2, fmt.Sprintf("order%s, phase %d repeated, other session %d", order, repeat, other))
			if other == 1 {
				for ph := 1; ph <= 5; ph++ {
					for _, p := range o {
						if !p.done[ph] && p.ready(ph) {
							p.do(ph)
						}
					}
				}
				judgeSession(c, ref.Secp, o, d1, d2, "the other session")
			}
		})
		r.Explore("closed", mc.Opts{}, func(c *mc.Ctx) {
			s := newSession(key(keys[6]), key(keys[2]), clone(hashes[6]), clone(hashes[6]))
			keptOnClose(c, 10, func(i int) { s[i%2].do(1 + i/2) }, s.given, []func(){s[0].p.Close, s[1].p.Close})
		})
		// a party that is used again: after a whole run or one given up at any point, for the same hash or another, with the
		// same peer or a new one
		reuse := func(c *mc.Ctx, cv *ref.Curve, ds []*big.Int, hs [][]byte, what string) {
			rounds := r.Q(2, 3)
			k1, k2 := key(ds[0]), key(ds[1])
			d2 := ds[1]
			s := newSession(k1, k2, clone(hs[0]), clone(hs[0]))
			type used struct {
				h []byte
				r *secp256k1.Scalar
			}
			var nonces [2][]used
			for n := 0; n < rounds; n++ {
				if n > 0 {
					h := hs[c.Pick("hash", 2)]
					a := &party{p: s[0].p, prv: s[0].prv, hash: clone(h)}
					b := &party{p: s[1].p, prv: s[1].prv, hash: clone(h)}
					switch c.Pick("peer", 3) {
					case 1: // a new party with the same key
						b.p = xcrypto.NewEcdsaParty(b.prv)
					case 2:
						b.prv, d2 = key(ds[2]), ds[2]
						b.p = xcrypto.NewEcdsaParty(b.prv)
						nonces[1] = nil
					}
					a.peer, b.peer = b, a
					s = session{a, b}
				}
				steps := 10
				if n < rounds-1 {
					steps = 10 - c.Pick("steps left out", 11)
				}
				for i := 0; i < steps; i++ {
					s[i%2].do(1 + i/2)
				}
				c.Step(steps)
				if steps == 10 {
					judgeSession(c, cv, s, ds[0], d2, fmt.Sprintf("%s, run %d of the same parties", what, n+1))
				}
				for i, p := range s {
					if p.r == nil || cv.N.BitLen() < 64 {
						continue
					}
					for _, u := range nonces[i] {
						if !bytes.Equal(u.h, p.hash) && u.r.X.Cmp(p.r.X) == 0 {
							c.Fail("nonce-reused", "%s: party %d uses one nonce for the hashes %x and %x", what, i+1, u.h, p.hash)
						}
					}
					nonces[i] = append(nonces[i], used{p.hash, secp256k1.NewScalar(new(big.Int).Set(p.r.X), new(big.Int).Set(p.r.Y))})
				}
			}
		}
		r.Explore("reused", mc.Opts{}, func(c *mc.Ctx) {
			reuse(c, ref.Secp, []*big.Int{keys[6], keys[3], keys[4]}, [][]byte{hashes[6], hashes[2]}, "secp256k1")
		})
		for _, t := range tinyCurves(128, 255, r.Q(1, 2), false) {
			t := t
			onTiny(t, func() {
				r.Explore("reused on a small curve", mc.Opts{}, func(c *mc.Ctx) {
					reuse(c, t.ref(), []*big.Int{bi(5), bi(t.n - 2), bi(77)}, [][]byte{{9}, {200}}, fmt.Sprintf("curve p=%d b=%d n=%d", t.p, t.b, t.n))
				})
			})
		}
		// messages of another session, or altered
		alter := []string{"hash of party 2", "hash of party 2, one bit", "R times two", "R of another key", "R is G", "encpk plus one", "encpk of another session", "encpk times two",
			"ct plus one", "ct times two", "ct of another hash", "ct one", "ct bit flipped", "ct echoed", "shareR x plus one", "encpk and encpub of another key"}
		r.Explore("altered", mc.Opts{}, func(c *mc.Ctx) {
			kind := c.Pick("alteration", len(alter))
			pair := [][2]*big.Int{{keys[6], keys[3]}, {keys[0], keys[2]}, {keys[4], keys[4]}}[c.Pick("keys", r.Q(2, 3))]
			h := hashes[[]int{6, 0, 2}[c.Pick("hash", r.Q(2, 3))]]
			d1, d2 := pair[0], pair[1]
			h2 := clone(h)
			switch kind {
			case 0:
				h2 = ref.Sha256(h)
			case 1:
				h2[31] ^= 1
			}
			s := newSession(key(d1), key(d2), clone(h), h2)
			a, b := s[0], s[1]
			x := newSession(key(d1), key(keys[5]), clone(h), clone(h))
			y := newSession(key(d1), key(d2), ref.Sha256(h), ref.Sha256(h))
			if kind == 3 || kind == 6 || kind == 15 {
				x.run()
			}
			if kind == 10 {
				y.run()
			}
			a.do(1)
			b.do(1)
			a.do(2)
			b.do(2)
			g := secp256k1.SECP256K1()
			switch kind {
			case 2:
				b.r.X, b.r.Y = g.Double(b.r.X, b.r.Y)
			case 3:
				b.r = x[1].r
			case 4:
				b.r = secp256k1.NewScalar(g.Params().Gx, g.Params().Gy)
			case 5:
				b.encpk, _ = b.encpub.AddPlaintext(b.encpk, big.NewInt(1))
			case 6:
				b.encpk = x[1].encpk
			case 7:
				b.encpk, _ = b.encpub.MultPlaintext(b.encpk, big.NewInt(2))
			case 15:
				b.encpk, b.encpub = x[1].encpk, x[1].encpub
			}
			a.do(3)
			b.do(3)
			if kind == 14 {
				a.shareR = secp256k1.NewScalar(new(big.Int).Add(a.shareR.X, big.NewInt(1)), a.shareR.Y)
			}
			a.do(4)
			b.do(4)
			if kind >= 8 && kind <= 13 && (a.err != nil || b.err != nil) {
				c.Fail("error", "phase 4: %v, %v", a.err, b.err)
			}
			switch kind {
			case 8:
				b.ct = new(big.Int).Add(b.ct, big.NewInt(1))
			case 9:
				b.ct, _ = a.encpub.MultPlaintext(b.ct, big.NewInt(2))
			case 10:
				b.ct = y[1].ct
			case 11:
				b.ct = big.NewInt(1)
			case 12:
				b.ct = new(big.Int).Xor(b.ct, new(big.Int).Lsh(big.NewInt(1), 1000))
			case 13:
				b.ct = a.ct
			}
			a.do(5)
			b.do(5)
			c.Step(10)
			c.Valid(1)
			// who is deceived: 5..7, 15 change what A computes for B; the others what A obtains
			for i, p := range s {
				deceived := i == 0
				if kind >= 5 && kind <= 7 || kind == 15 {
					deceived = i == 1
				}
				if kind == 14 || kind >= 2 && kind <= 4 || kind <= 1 {
					deceived = true
				}
				if !deceived || p.err != nil {
					continue
				}
				if xcrypto.EcdsaVerify(p.joint, p.hash, p.sig) == nil {
					c.Fail("altered-accepted", "%s: party %d obtains %x, which verifies for its hash %x under the joint key", alter[kind], i+1, p.sig, p.hash)
				}
			}
			c.StateU(uint64(kind))
		})
	})
}
