package props

import (
	"bytes"
	"crypto/ecdsa"
	"fmt"
	"math/big"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/schnorr"
)

func init() { mc.Register("C20", c20) }

func sha(bs ...[]byte) []byte { return ref.Sha256(cat(bs...)) }

// schnorrE is the challenge of bip-schnorr (2018): sha256(bytes(r) || bytes(P) || m) mod n.
func schnorrE(c *ref.Curve, r *big.Int, p ref.Point, m []byte) *big.Int {
	e := new(big.Int).SetBytes(sha(ref.B32(r), ref.Compressed(p), m))
	return e.Mod(e, c.N)
}

// schnorrSign is bip-schnorr's signing algorithm; ok is false when the nonce is zero.
func schnorrSign(c *ref.Curve, d *big.Int, m []byte) (r, s *big.Int, ok bool) {
	k := new(big.Int).SetBytes(sha(ref.B32(d), m))
	k.Mod(k, c.N)
	if k.Sign() == 0 {
		return nil, nil, false
	}
	R := c.MulG(k)
	if big.Jacobi(R.Y, c.P) != 1 {
		k.Sub(c.N, k)
	}
	e := schnorrE(c, R.X, c.MulG(d), m)
	s = e.Mul(e, d)
	s.Add(s, k)
	s.Mod(s, c.N)
	return R.X, s, true
}

func schnorrVerify(c *ref.Curve, p ref.Point, m []byte, r, s *big.Int) bool {
	if r.Sign() < 0 || s.Sign() < 0 || r.Cmp(c.P) >= 0 || s.Cmp(c.N) >= 0 {
		return false
	}
	e := schnorrE(c, r, p, m)
	R := c.Add(c.MulG(s), c.Neg(c.Mul(p, e)))
	return !R.Inf() && big.Jacobi(R.Y, c.P) == 1 && R.X.Cmp(r) == 0
}

func c20(r *mc.Run) {
	r.Assume("a zero nonce (probability 2^-256 on secp256k1) is an error")
	key := func(d *big.Int) *xcrypto.PrvKey { return xcrypto.PrvKeyFromBytes(ref.B32(d)) }
	vs := tinyCurves(5, 20, 2, false)
	vs = append(vs, tinyCurves(20, 40, r.Q(1, 3), true)...)
	for _, t := range vs {
		t := t
		cv := t.ref()
		onTiny(t, func() {
			r.Explore(fmt.Sprintf("verify p=%d n=%d", t.p, t.n), mc.Opts{}, func(c *mc.Ctx) {
				d := 1 + c.Pick("key", t.n-1)
				msg := sha([]byte{byte(c.Pick("message", r.Q(12, 64)))})
				pub := (*ecdsa.PublicKey)(key(bi(d)).PubKey())
				q := ref.Point{X: bi(t.pts[d][0]), Y: bi(t.pts[d][1])}
				for rr := -2; rr < t.p+4; rr++ {
					e := 0
					if rr >= 0 {
						e = int(schnorrE(cv, bi(rr), q, msg).Int64())
					}
					for s := -2; s < 2*t.n+2; s++ {
						want := t.schnorrOK(d, e, rr, s)
						got := schnorr.Verify(pub, msg, bi(rr), bi(s))
						if got != want {
							c.Fail("equation", "curve p=%d b=%d n=%d: key %d message %x (e=%d): Verify(r=%d,s=%d) = %v, the equation says %v", t.p, t.b, t.n, d, msg, e, rr, s, got, want)
						}
						if want {
							c.Valid(1)
						}
						if e == 0 {
							c.Outcome("challenge is zero")
						}
					}
				}
				c.Step((t.p + 6) * (2*t.n + 4))
				c.StateU(uint64(t.p), uint64(d))
			})
		})
	}
	for _, t := range tinyCurves(30, 255, r.Q(3, 6), false) {
		t := t
		cv := t.ref()
		onTiny(t, func() {
			r.Explore(fmt.Sprintf("sign p=%d n=%d", t.p, t.n), mc.Opts{}, func(c *mc.Ctx) {
				d := 1 + c.Pick("key", t.n-1)
				prv := key(bi(d))
				for i := 0; i < r.Q(64, 256); i++ {
					msg := sha([]byte{byte(i)})
					wr, ws, ok := schnorrSign(cv, bi(d), msg)
					gr, gs, err := schnorr.Sign((*ecdsa.PrivateKey)(prv), msg)
					if !ok {
						if err == nil {
							c.Fail("zero-nonce", "n=%d key %d message %x: the nonce is zero, Sign gives (%v,%v)", t.n, d, msg, gr, gs)
						}
						c.Outcome("zero nonce")
						continue
					}
					if err != nil || gr.Cmp(wr) != 0 || gs.Cmp(ws) != 0 {
						c.Fail("signature", "n=%d key %d message %x: Sign gives (%v,%v), %v; bip-schnorr gives (%v,%v)", t.n, d, msg, gr, gs, err, wr, ws)
					}
					b, err := xcrypto.SchnorrSign(prv, msg)
					if err != nil || !bytes.Equal(b, cat(ref.B32(wr), ref.B32(ws))) {
						c.Fail("determinism", "n=%d key %d message %x: SchnorrSign gives %x, %v", t.n, d, msg, b, err)
					}
					if err := xcrypto.SchnorrVerify(prv.PubKey(), msg, b); err != nil {
						c.Fail("own", "n=%d key %d message %x: own signature (%v,%v) refused: %v", t.n, d, msg, wr, ws, err)
					}
					c.Valid(1)
					c.Step(3)
				}
				if prv.D.Cmp(bi(d)) != 0 {
					c.Fail("key-changed", "signing changed the key")
				}
				c.StateU(uint64(t.p), uint64(d))
			})
		})
	}
	keys := ecKeys(curveN, true)
	hashes := ecHashes(curveN)
	r.Explore("secp256k1", mc.Opts{}, func(c *mc.Ctx) {
		d := keys[c.Pick("key", len(keys))]
		h := hashes[c.Pick("message", len(hashes))]
		prv := key(d)
		in := clone(h)
		sig, err := xcrypto.SchnorrSign(prv, in)
		wr, ws, _ := schnorrSign(ref.Secp, d, h)
		want := cat(ref.B32(wr), ref.B32(ws))
		if err != nil || !bytes.Equal(sig, want) {
			c.Fail("signature", "key %x message %x: SchnorrSign gives %x, %v; bip-schnorr gives %x", d, h, sig, err, want)
		}
		if !bytes.Equal(in, h) || prv.D.Cmp(d) != 0 {
			c.Fail("input-changed", "signing changed the message or the key")
		}
		pub := key(d).PubKey()
		if err := xcrypto.SchnorrVerify(pub, in, sig); err != nil {
			c.Fail("own", "key %x message %x: own signature refused: %v", d, h, err)
		}
		s := xcrypto.NewSignatureSchnorr()
		if err := s.Deserialize(sig); err != nil || s.R.Cmp(wr) != 0 || s.S.Cmp(ws) != 0 {
			c.Fail("decode", "%x decodes to %v, %v", sig, s, err)
		}
		one := big.NewInt(1)
		n, p := curveN, ref.Secp.P
		max := new(big.Int).SetBytes(rep(0xff, 32))
		q := ref.Point{X: pub.X, Y: pub.Y}
		cands := [][2]*big.Int{{wr, new(big.Int)}, {wr, n}, {wr, max}, {new(big.Int), ws}, {p, ws}, {max, ws}, {max, max}, {wr, new(big.Int).Sub(n, ws)},
			{new(big.Int).Add(wr, one), ws}, {wr, new(big.Int).Add(ws, one)}, {new(big.Int).Sub(p, wr), ws}, {ws, wr}, {new(big.Int), new(big.Int)}}
		if v := new(big.Int).Add(ws, n); v.BitLen() <= 256 {
			cands = append(cands, [2]*big.Int{wr, v})
		}
		for _, cand := range cands {
			w := schnorrVerify(ref.Secp, q, h, cand[0], cand[1])
			got := xcrypto.SchnorrVerify(pub, in, cat(ref.B32(cand[0]), ref.B32(cand[1]))) == nil
			if got != w {
				c.Fail("equation", "key %x message %x: (r=%x,s=%x) accepted: %v, the equation says %v", d, h, cand[0], cand[1], got, w)
			}
			if schnorr.Verify((*ecdsa.PublicKey)(pub), in, cand[0], cand[1]) != w {
				c.Fail("equation", "key %x message %x: schnorr.Verify(r=%x,s=%x) is %v", d, h, cand[0], cand[1], !w)
			}
		}
		for _, cand := range [][2]*big.Int{{new(big.Int).Neg(wr), ws}, {wr, new(big.Int).Neg(ws)}, {wr, new(big.Int).Add(ws, n)}, {new(big.Int).Add(wr, p), ws}, {wr, new(big.Int).Lsh(ws, 256)}, {new(big.Int).Lsh(wr, 300), ws}} {
			if schnorr.Verify((*ecdsa.PublicKey)(pub), in, cand[0], cand[1]) {
				c.Fail("range", "key %x message %x: schnorr.Verify(r=%x,s=%x) is true: out of range", d, h, cand[0], cand[1])
			}
		}
		c.Step(len(cands)*2 + 9)
		c.Valid(1)
		c.State(sig)
	})
	r.Explore("lengths", mc.Opts{}, func(c *mc.Ctx) {
		d := keys[c.Pick("key", r.Q(3, len(keys)))]
		h := hashes[c.Pick("message", len(hashes))]
		prv := key(d)
		sig, _ := xcrypto.SchnorrSign(prv, h)
		l := c.Pick("length", 131)
		fill := c.Pick("fill", 4)
		var b []byte
		switch {
		case l <= 64 && fill == 0:
			b = sig[:l]
		case l <= 64 && fill == 1:
			b = sig[64-l:]
		case fill == 0:
			b = cat(sig, make([]byte, l-64))
		case fill == 1:
			b = cat(make([]byte, l-64), sig)
		case fill == 2:
			b = rep(0, l)
		default:
			b = rep(0xff, l)
		}
		ok := xcrypto.SchnorrVerify(prv.PubKey(), h, b) == nil
		c.Step(2)
		if ok && !bytes.Equal(b, sig) {
			c.Fail("length", "key %x message %x: a signature of %d bytes is accepted: %x (the signature is %x)", d, h, l, b, sig)
		}
		s := xcrypto.NewSignatureSchnorr()
		if err := s.Deserialize(b); (err == nil) != (l == 64) {
			c.Fail("decode-length", "Deserialize of %d bytes: %v", l, err)
		} else if err == nil {
			back, err := s.Serialize()
			if err != nil || !bytes.Equal(back, b) {
				c.Fail("roundtrip", "%x decodes and encodes to %x, %v", b, back, err)
			}
			c.Valid(1)
		}
		c.StateU(uint64(l), uint64(fill))
	})
	// messages of every length are signed as a whole
	mlens := []int{0, 1, 2, 31, 32, 33, 55, 56, 63, 64, 65, 66, 95, 96, 97, 119, 127, 128, 129, 200, 255, 256, 257, 1000, 4096, 65537}
	r.Explore("message-lengths", mc.Opts{}, func(c *mc.Ctx) {
		l := mlens[c.Pick("length", r.Q(24, len(mlens)))]
		d := keys[c.Pick("key", r.Q(1, 4))]
		fill := c.Pick("fill", 3)
		m := make([]byte, l, l+4)
		for i := range m {
			m[i] = []byte{0, 0xff, byte(i*7 + 1)}[fill]
		}
		prv := key(d)
		pub := key(d).PubKey()
		q := ref.Point{X: pub.X, Y: pub.Y}
		wr, ws, _ := schnorrSign(ref.Secp, d, m)
		sig, err := xcrypto.SchnorrSign(prv, m)
		if err != nil || !bytes.Equal(sig, cat(ref.B32(wr), ref.B32(ws))) {
			c.Fail("signature", "key %x message of %d bytes %s: SchnorrSign gives %x, %v; bip-schnorr gives (%x,%x)", d, l, hx(m), sig, err, wr, ws)
		}
		if prv.D.Cmp(d) != 0 || !bytes.Equal(m[l:cap(m)], rep(0, cap(m)-l)) {
			c.Fail("input-changed", "signing changed the message or the key")
		}
		if err := xcrypto.SchnorrVerify(pub, m, sig); err != nil {
			c.Fail("own", "key %x message of %d bytes %s: own signature refused: %v", d, l, hx(m), err)
		}
		other := func(m2 []byte, what string) {
			c.Step(1)
			if got, want := xcrypto.SchnorrVerify(pub, m2, sig) == nil, schnorrVerify(ref.Secp, q, m2, wr, ws); got != want {
				c.Fail("message", "key %x: the signature over the %d bytes %s is accepted (%v, should be %v) over the message with %s", d, l, hx(m), got, want, what)
			}
		}
		step := 1
		if r.Quick() && l > 70 || l > 300 {
			step = l / 16
		}
		for i := 0; i < l; i += step {
			m2 := clone(m)
			m2[i] ^= 1 << uint(i%8)
			other(m2, fmt.Sprintf("bit %d of byte %d flipped", i%8, i))
		}
		if l > 0 {
			m2 := clone(m)
			m2[l-1] ^= 1
			other(m2, "the last bit flipped")
			other(m[:l-1], "the last byte missing")
			other(m[1:], "the first byte missing")
		}
		other(cat(m, []byte{0}), "a zero byte added")
		other(cat([]byte{0}, m), "a zero byte before it")
		c.Valid(1)
		c.StateU(uint64(l), uint64(fill), d.Uint64())
	})
	r.Explore("mutations", mc.Opts{}, func(c *mc.Ctx) {
		d := keys[c.Pick("key", r.Q(3, 8))]
		h := hashes[[]int{6, 2, 0}[c.Pick("message", r.Q(2, 3))]]
		wr, ws, _ := schnorrSign(ref.Secp, d, h)
		sig := cat(ref.B32(wr), ref.B32(ws))
		pub := key(d).PubKey()
		q := ref.Point{X: pub.X, Y: pub.Y}
		judge := func(m, b []byte, pk *xcrypto.PubKey, qq ref.Point) {
			want := schnorrVerify(ref.Secp, qq, m, new(big.Int).SetBytes(b[:32]), new(big.Int).SetBytes(b[32:]))
			c.Step(1)
			if got := xcrypto.SchnorrVerify(pk, m, b) == nil; got != want {
				c.Fail("mutation", "key %x message %x: signature %x over %x accepted: %v, should be %v", d, h, b, m, got, want)
			}
		}
		c.Valid(1)
		switch c.Pick("mutate", 3) {
		case 0:
			i := c.Pick("byte", 64)
			for bit := 0; bit < 8; bit++ {
				b := clone(sig)
				b[i] ^= 1 << uint(bit)
				judge(h, b, pub, q)
			}
		case 1:
			i := c.Pick("byte", 32)
			for bit := 0; bit < 8; bit++ {
				b := clone(h)
				b[i] ^= 1 << uint(bit)
				judge(b, sig, pub, q)
			}
		case 2:
			for _, o := range keys {
				pk := key(o).PubKey()
				judge(h, sig, pk, ref.Point{X: pk.X, Y: pk.Y})
			}
		}
	})
}
