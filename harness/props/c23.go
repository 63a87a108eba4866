package props

import (
	"bytes"
	"fmt"
	"math/big"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
)

func init() { mc.Register("C23", c23) }

// sparty is one of n parties of a joint Schnorr signature.
type sparty struct {
	p     *xcrypto.SchnorrParty
	prv   *xcrypto.PrvKey
	msg   []byte
	joint *xcrypto.PubKey
	r     *secp256k1.Scalar
	share *secp256k1.Scalar
	s     []byte
	sig   []byte
	err   error
	done  [6]bool
}

type ssession []*sparty

func newSSession(c *mc.Ctx, keys []*xcrypto.PrvKey, msg []byte) ssession {
	var o ssession
	for _, k := range keys {
		p, err := xcrypto.NewSchnorrParty(k)
		if err != nil {
			c.Fail("party", "NewSchnorrParty: %v", err)
		}
		o = append(o, &sparty{p: p, prv: k, msg: clone(msg)})
	}
	return o
}

func (s ssession) all(phase int) bool {
	for _, p := range s {
		if !p.done[phase] {
			return false
		}
	}
	return true
}

func (s ssession) ready(i, phase int) bool {
	switch phase {
	case 3:
		return s.all(2)
	case 4:
		return s[i].done[1] && s[i].done[3]
	case 5:
		return s[i].done[3] && s.all(4)
	}
	return true
}

func (s ssession) do(i, phase int) {
	p := s[i]
	p.done[phase] = true
	if p.err != nil {
		return
	}
	switch phase {
	case 1: // the first peer's key through the protocol, the others' added
		for j := range s {
			if j == i {
				continue
			}
			k := xcrypto.PrvKeyFromBytes(s[j].prv.D.Bytes()).PubKey()
			if p.joint == nil {
				p.joint = p.p.Phase1(k)
			} else {
				p.joint = p.joint.Add(k)
			}
		}
	case 2:
		p.r = p.p.Phase2(p.msg)
		if p.r == nil {
			p.err = fmt.Errorf("phase 2 failed")
		}
	case 3:
		p.share = nil
		for j := range s {
			if j == i {
				continue
			}
			if s[j].r == nil {
				p.err = fmt.Errorf("no nonce point")
				return
			}
			if p.share == nil {
				p.share = p.p.Phase3(s[j].r)
			} else {
				p.share = p.share.Add(secp256k1.SECP256K1(), s[j].r)
			}
		}
	case 4:
		p.s, p.err = p.p.Phase4(p.joint, p.share)
	case 5:
		var ss [][]byte
		for _, q := range s {
			if q.err != nil {
				p.err = q.err
				return
			}
			ss = append(ss, q.s)
		}
		p.sig, p.err = p.p.Phase5(p.share, ss...)
	}
}

func (s ssession) run() {
	for ph := 1; ph <= 5; ph++ {
		for i := range s {
			s.do(i, ph)
		}
	}
}

func judgeS(c *mc.Ctx, cv *ref.Curve, s ssession, ds []*big.Int, what string) {
	sum := new(big.Int)
	for _, d := range ds {
		sum.Add(sum, d)
	}
	sum.Mod(sum, cv.N)
	name := fmt.Sprintf("%s: keys %x, message %x", what, ds, s[0].msg)
	q := cv.MulG(sum)
	for i, p := range s {
		if q.Inf() {
			c.Outcome("the joint key is infinity")
			return
		}
		if p.joint.X.Cmp(q.X) != 0 || p.joint.Y.Cmp(q.Y) != 0 {
			c.Fail("joint-key", "%s: party %d's joint key is (%x,%x), not the sum of the keys", name, i+1, p.joint.X, p.joint.Y)
		}
		if p.prv.D.Cmp(ds[i]) != 0 {
			c.Fail("key-changed", "%s: party %d's private key changed", name, i+1)
		}
	}
	tiny := cv.N.BitLen() < 64
	for i, p := range s {
		if tiny && (p.r == nil || p.err != nil) {
			c.Outcome("a nonce is zero: error")
			return
		}
		if p.err != nil {
			c.Fail("error", "%s: party %d: %v", name, i+1, p.err)
		}
		if p.share.X.Sign() == 0 && p.share.Y.Sign() == 0 && tiny {
			c.Outcome("the nonces cancel out")
			return
		}
		if p.share.X.Cmp(s[0].share.X) != 0 || p.share.Y.Cmp(s[0].share.Y) != 0 {
			c.Fail("nonce-point", "%s: parties 1 and %d have different nonce points", name, i+1)
		}
		if len(p.sig) != 64 {
			c.Fail("encoding", "%s: party %d's signature is %x", name, i+1, p.sig)
		}
		r, ss := new(big.Int).SetBytes(p.sig[:32]), new(big.Int).SetBytes(p.sig[32:])
		if !schnorrVerify(cv, q, p.msg, r, ss) {
			c.Fail("invalid", "%s: party %d's signature (%x,%x) does not verify under the joint key", name, i+1, r, ss)
		}
		if err := xcrypto.SchnorrVerify(p.joint, p.msg, p.sig); err != nil {
			c.Fail("verify", "%s: SchnorrVerify refuses party %d's signature: %v", name, i+1, err)
		}
		if !bytes.Equal(p.sig, s[0].sig) {
			c.Fail("differ", "%s: parties 1 and %d have different signatures", name, i+1)
		}
	}
	c.Valid(1)
}

func c23(r *mc.Run) {
	r.Assume("keys that add up to zero have no joint key; nonces that are zero or add up to zero (probability 2^-256 on secp256k1) may end in an error")
	key := func(d *big.Int) *xcrypto.PrvKey { return xcrypto.PrvKeyFromBytes(ref.B32(d)) }
	keysOf := func(ds []*big.Int) []*xcrypto.PrvKey {
		var o []*xcrypto.PrvKey
		for _, d := range ds {
			o = append(o, key(d))
		}
		return o
	}
	for _, t := range tinyCurves(30, 110, r.Q(2, 4), true) {
		t := t
		cv := t.ref()
		onTiny(t, func() {
			where := fmt.Sprintf("curve p=%d b=%d n=%d", t.p, t.b, t.n)
			r.Explore(fmt.Sprintf("pairs p=%d n=%d", t.p, t.n), mc.Opts{}, func(c *mc.Ctx) {
				d1 := 1 + c.Pick("key 1", t.n-1)
				for d2 := 1; d2 < t.n; d2++ {
					for m := 0; m < r.Q(2, 8); m++ {
						ds := []*big.Int{bi(d1), bi(d2)}
						s := newSSession(c, keysOf(ds), sha([]byte{byte(m), byte(d1)}))
						s.run()
						c.Step(10)
						judgeS(c, cv, s, ds, where)
						// every altered share
						if s[0].err != nil || s[1].err != nil || len(s[0].s) != 32 || (d1+d2)%t.n == 0 || s[0].share.Y.Sign() == 0 {
							continue
						}
						s2 := new(big.Int).SetBytes(s[1].s)
						for x := 0; x < t.n; x++ {
							if bi(x).Cmp(s2) == 0 {
								continue
							}
							sig, err := s[0].p.Phase5(s[0].share, s[0].s, ref.B32(bi(x)))
							if err == nil && xcrypto.SchnorrVerify(s[0].joint, s[0].msg, sig) == nil {
								c.Fail("altered-accepted", "%s: keys %d and %d message %x: with share %d instead of %v the aggregate %x verifies", where, d1, d2, s[0].msg, x, s2, sig)
							}
							c.Step(2)
							if d2%5 != 0 && x > 5 && r.Quick() {
								break
							}
						}
					}
				}
				c.StateU(uint64(t.p), uint64(d1))
			})
			r.Explore(fmt.Sprintf("triples p=%d n=%d", t.p, t.n), mc.Opts{}, func(c *mc.Ctx) {
				d1 := 1 + c.Pick("key 1", t.n-1)
				for d2 := 1; d2 < t.n; d2++ {
					for d3 := 1 + d2%r.Q(7, 1); d3 < t.n; d3 += r.Q(7, 1) {
						ds := []*big.Int{bi(d1), bi(d2), bi(d3)}
						s := newSSession(c, keysOf(ds), sha([]byte{byte(d3)}))
						s.run()
						c.Step(15)
						judgeS(c, cv, s, ds, where)
					}
				}
				c.StateU(uint64(t.p), uint64(d1))
			})
		})
	}
	keys := ecKeys(curveN, true)
	hashes := ecHashes(curveN)
	r.Explore("secp256k1", mc.Opts{}, func(c *mc.Ctx) {
		n := 2 + c.Pick("parties", 3)
		var ds []*big.Int
		ds = append(ds, keys[c.Pick("key 1", r.Q(8, len(keys)))], keys[c.Pick("key 2", r.Q(8, len(keys)))])
		for i := 2; i < n; i++ {
			ds = append(ds, keys[(i*5+int(ds[0].Bit(1)))%len(keys)])
		}
		for i, h := range hashes {
			if r.Quick() && (i+n)%3 != 0 {
				continue
			}
			s := newSSession(c, keysOf(ds), h)
			s.run()
			c.Step(5 * n)
			judgeS(c, ref.Secp, s, ds, "secp256k1")
		}
		c.StateS(fmt.Sprint(ds))
	})
	r.Explore("message-lengths", mc.Opts{}, func(c *mc.Ctx) {
		n := 2 + c.Pick("parties", 2)
		l := []int{0, 1, 20, 31, 33, 63, 64, 65, 96, 128, 200, 1000}[c.Pick("length", 12)]
		ds := []*big.Int{keys[c.Pick("key", r.Q(2, len(keys)))], keys[2], keys[4]}[:n]
		s := newSSession(c, keysOf(ds), seq(3, l))
		s.run()
		c.Step(5 * n)
		judgeS(c, ref.Secp, s, ds, fmt.Sprintf("a message of %d bytes", l))
		if s[0].joint.X.Sign() == 0 && s[0].joint.Y.Sign() == 0 {
			return
		}
		m2 := seq(3, l+1)
		if l > 0 {
			m2 = seq(3, l)
			m2[l-1] ^= 0x80
		}
		if xcrypto.SchnorrVerify(s[0].joint, m2, s[0].sig) == nil {
			c.Fail("message", "the joint signature over a message of %d bytes also verifies over another", l)
		}
		c.StateU(uint64(n), uint64(l), ds[0].Uint64())
	})
	r.Explore("interleavings", mc.Opts{}, func(c *mc.Ctx) {
		n := 2 + c.Pick("parties", r.Q(1, 2))
		ds := []*big.Int{keys[6], keys[2], keys[3]}[:n]
		ks := keysOf(ds)
		s := newSSession(c, ks, hashes[6])
		repeat := c.Pick("phase run twice", 7) // 0: none, 6: none, but a party that is done is closed
		other := 0
		if repeat == 0 || !r.Quick() {
			other = c.Pick("other session", 3)
		}
		early := n == 3 || (r.Quick() && (repeat > 1 || other > 0)) // the joint key first
		if n == 3 && (repeat%6 > 0 || other > 0) {
			c.Skip()
		}
		var o ssession
		if other > 0 {
			o = newSSession(c, ks, hashes[2])
		}
		order := ""
		k := 0
		for {
			var en [][2]int
			for i, p := range s {
				for ph := 1; ph <= 5; ph++ {
					if early && ph == 1 {
						if !p.done[1] {
							s.do(i, 1)
						}
						continue
					}
					if p.done[ph] {
						continue
					}
					if s.ready(i, ph) {
						en = append(en, [2]int{i, ph})
					}
					if ph > 1 {
						break
					}
				}
			}
			if len(en) == 0 {
				break
			}
			e := en[c.Pick("next", len(en))]
			s.do(e[0], e[1])
			order += fmt.Sprintf(" %c%d", 'A'+e[0], e[1])
			if repeat == 6 && s[e[0]].done[1] && s[e[0]].done[5] {
				s[e[0]].p.Close()
				order += " close"
			}
			if e[1] == repeat {
				if repeat == 1 {
					s[e[0]].joint = nil
				}
				before := s[e[0]].s
				s.do(e[0], e[1])
				order += fmt.Sprintf(" %c%d", 'A'+e[0], e[1])
				if repeat == 4 && !bytes.Equal(before, s[e[0]].s) {
					c.Fail("repeat", "order%s: the second Phase4 gives the share %x, the first gave %x", order, s[e[0]].s, before)
				}
			}
			if other > 0 {
				ph := 1 + k/n
				i := k % n
				if ph <= 5 && (other == 1 || ph <= 3) {
					o.do(i, ph)
				} else if other == 2 && ph == 4 {
					o[i].p.Close()
				}
				k++
			}
			c.Step(1)
		}
		c.StateS(order)
		judgeS(c, ref.Secp, s, ds, fmt.Sprintf("order%s, phase %d repeated, other session %d", order, repeat, other))
		if other == 1 {
			for ph := 1; ph <= 5; ph++ {
				for i := range o {
					if !o[i].done[ph] {
						o.do(i, ph)
					}
				}
			}
			judgeS(c, ref.Secp, o, ds, "the other session")
		}
	})
	r.Explore("closed", mc.Opts{}, func(c *mc.Ctx) {
		s := newSSession(c, keysOf([]*big.Int{keys[6], keys[2]}), hashes[6])
		given := func() (o []string) {
			for i, p := range s {
				o = append(o, fmt.Sprintf("party %d: key %x message %x joint %v R %v shared R %v share %x signature %x", i+1, p.prv.D, p.msg, pointText(p.joint), scalarText(p.r), scalarText(p.share), p.s, p.sig))
			}
			return o
		}
		keptOnClose(c, 10, func(i int) { s.do(i%2, 1+i/2) }, given, []func(){s[0].p.Close, s[1].p.Close})
	})
	// parties that are used again: after a whole run or one given up at any point, for the same message or another, with the
	// same peers or a new one
	reuse := func(c *mc.Ctx, cv *ref.Curve, ds []*big.Int, spare *big.Int, hs [][]byte, what string) {
		rounds := r.Q(2, 3)
		s := newSSession(c, keysOf(ds), hs[0])
		type used struct {
			h []byte
			r *secp256k1.Scalar
		}
		nonces := make([][]used, len(ds))
		last := len(ds) - 1
		for n := 0; n < rounds; n++ {
			if n > 0 {
				h := hs[c.Pick("message", 2)]
				var o ssession
				for _, p := range s {
					o = append(o, &sparty{p: p.p, prv: p.prv, msg: clone(h)})
				}
				peer := c.Pick("peer", 3)
				if peer == 2 {
					ds = append(append([]*big.Int{}, ds[:last]...), spare)
					nonces[last] = nil
				}
				if peer > 0 {
					o[last] = newSSession(c, keysOf(ds[last:]), h)[0]
				}
				s = o
			}
			steps := 5 * len(ds)
			if n < rounds-1 {
				steps -= c.Pick("steps left out", steps+1)
			}
			for i := 0; i < steps; i++ {
				s.do(i%len(ds), 1+i/len(ds))
			}
			c.Step(steps)
			if steps == 5*len(ds) {
				judgeS(c, cv, s, ds, fmt.Sprintf("%s, run %d of the same parties", what, n+1))
			}
			for i, p := range s {
				if p.r == nil || cv.N.BitLen() < 64 {
					continue
				}
				for _, u := range nonces[i] {
					if !bytes.Equal(u.h, p.msg) && u.r.X.Cmp(p.r.X) == 0 {
						c.Fail("nonce-reused", "%s: party %d uses one nonce for the messages %x and %x", what, i+1, u.h, p.msg)
					}
				}
				nonces[i] = append(nonces[i], used{p.msg, secp256k1.NewScalar(new(big.Int).Set(p.r.X), new(big.Int).Set(p.r.Y))})
			}
		}
	}
	r.Explore("reused", mc.Opts{}, func(c *mc.Ctx) {
		n := 2 + c.Pick("parties", 2)
		reuse(c, ref.Secp, []*big.Int{keys[6], keys[2], keys[4]}[:n], keys[3], [][]byte{hashes[6], hashes[2]}, "secp256k1")
	})
	// the same parties sign two messages that are nearly the same, or of which one is a part of the other
	r.Explore("related-messages", mc.Opts{}, func(c *mc.Ctx) {
		h := hashes[6]
		ds := []*big.Int{keys[6], keys[2]}
		var other []byte
		switch k := c.Pick("related", 40); {
		case k < 32:
			other = clone(h)
			other[k] ^= 1 << (7 * c.Pick("bit", 2))
		case k == 32:
			other = h[:31]
		case k == 33:
			other = h[1:]
		case k == 34:
			other = append(clone(h), 0)
		case k == 35:
			other = append([]byte{0}, h...)
		case k == 36:
			other = append(clone(h), h...)
		case k == 37:
			other = h[:16]
		case k == 38:
			other = []byte{}
		default:
			for _, b := range h {
				other = append([]byte{b}, other...)
			}
		}
		pair := [][]byte{h, other}
		if c.Pick("order", 2) == 1 {
			pair[0], pair[1] = other, h
		}
		s := newSSession(c, keysOf(ds), pair[0])
		var seen [2]*big.Int
		for n, m := range pair {
			var o ssession
			for _, p := range s {
				o = append(o, &sparty{p: p.p, prv: p.prv, msg: clone(m)})
			}
			for i := 0; i < 10; i++ {
				o.do(i%2, 1+i/2)
			}
			c.Step(10)
			judgeS(c, ref.Secp, o, ds, fmt.Sprintf("message %x, run %d of the same parties", m, n+1))
			for i, p := range o {
				if p.r == nil {
					continue
				}
				if n == 1 && seen[i] != nil && seen[i].Cmp(p.r.X) == 0 {
					c.Fail("nonce-reused", "party %d uses one nonce for the messages %x and %x", i+1, pair[0], m)
				}
				seen[i] = new(big.Int).Set(p.r.X)
			}
		}
	})
	for _, t := range tinyCurves(30, 110, r.Q(2, 4), true) {
		t := t
		onTiny(t, func() {
			r.Explore("reused on a small curve", mc.Opts{}, func(c *mc.Ctx) {
				n := 2 + c.Pick("parties", 2)
				reuse(c, t.ref(), []*big.Int{bi(5), bi(t.n - 2), bi(7)}[:n], bi(11), [][]byte{sha([]byte{9}), sha([]byte{200})}, fmt.Sprintf("curve p=%d b=%d n=%d", t.p, t.b, t.n))
			})
		})
	}
	alter := []string{"share plus one", "share minus one", "share zero", "share of another message", "share swapped in twice", "share missing", "share added twice", "nonce point of another message", "another party's key in the joint key", "other message", "share negated", "bit flipped"}
	r.Explore("altered", mc.Opts{}, func(c *mc.Ctx) {
		kind := c.Pick("alteration", len(alter))
		ds := []*big.Int{keys[6], keys[c.Pick("key 2", 6)]}
		h := hashes[c.Pick("message", len(hashes))]
		ks := keysOf(ds)
		s := newSSession(c, ks, h)
		if kind == 9 {
			s[1].msg = ref.Sha256(h)
		}
		x := newSSession(c, ks, ref.Sha256(h))
		x.run()
		for ph := 1; ph <= 2; ph++ {
			s.do(0, ph)
			s.do(1, ph)
		}
		switch kind {
		case 7: // party 1 is given the wrong nonce point
			good := s[1].r
			s[1].r = x[1].r
			s.do(0, 3)
			s[1].r = good
			s.do(1, 3)
		default:
			s.do(0, 3)
			s.do(1, 3)
		}
		if kind == 8 {
			s[1].joint = s[1].p.Phase1(key(keys[7]).PubKey())
		}
		s.do(0, 4)
		s.do(1, 4)
		if s[0].err != nil || s[1].err != nil {
			c.Outcome("refused")
			return
		}
		a, b := s[0].s, s[1].s
		v := new(big.Int).SetBytes(b)
		mod := func(n *big.Int) []byte { return ref.B32(n.Mod(n, curveN)) }
		shares := [][]byte{a, b}
		switch kind {
		case 0:
			shares[1] = mod(v.Add(v, big.NewInt(1)))
		case 1:
			shares[1] = mod(v.Sub(v, big.NewInt(1)))
		case 2:
			shares[1] = make([]byte, 32)
		case 3:
			shares[1] = x[1].s
		case 4:
			shares[1] = a
		case 5:
			shares = shares[:1]
		case 6:
			shares = append(shares, b)
		case 10:
			shares[1] = mod(v.Neg(v))
		case 11:
			shares[1] = clone(b)
			shares[1][7] ^= 4
		}
		if kind == 4 && bytes.Equal(a, b) {
			return
		}
		sig, err := s[0].p.Phase5(s[0].share, shares...)
		c.Step(10)
		c.Valid(1)
		if err == nil && xcrypto.SchnorrVerify(s[0].joint, h, sig) == nil {
			c.Fail("altered-accepted", "%s: keys %x, message %x: the aggregate %x verifies", alter[kind], ds, h, sig)
		}
		c.StateU(uint64(kind))
	})
}
