package props

import (
	"bytes"
	"fmt"
	"math/big"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
)

func init() { mc.Register("C21", c21) }

// parsePub is the SEC 1 (and hybrid) parser: prefix 2/3 with 32 bytes, 4 with 64, 6/7 with 64 and matching parity.
func parsePub(c *ref.Curve, b []byte) (ref.Point, bool) {
	if len(b) == 33 && (b[0] == 2 || b[0] == 3) {
		return c.LiftX(new(big.Int).SetBytes(b[1:]), b[0] == 3)
	}
	if len(b) == 65 && (b[0] == 4 || b[0] == 6 || b[0] == 7) {
		p := ref.Point{X: new(big.Int).SetBytes(b[1:33]), Y: new(big.Int).SetBytes(b[33:])}
		if !c.On(p) || (b[0] != 4 && p.Y.Bit(0) != uint(b[0]&1)) {
			return p, false
		}
		return p, true
	}
	return ref.Point{}, false
}

func refHybrid(p ref.Point) []byte {
	b := ref.Uncompressed(p)
	b[0] = 6 + byte(p.Y.Bit(0))
	return b
}

func c21(r *mc.Run) {
	g := secp256k1.SECP256K1()
	xy := func(p ref.Point) (*big.Int, *big.Int) { // the library writes infinity as (0,0)
		if p.Inf() {
			return new(big.Int), new(big.Int)
		}
		return new(big.Int).Set(p.X), new(big.Int).Set(p.Y)
	}
	is := func(x, y *big.Int, p ref.Point) bool {
		wx, wy := xy(p)
		return x.Cmp(wx) == 0 && y.Cmp(wy) == 0
	}
	show := func(p ref.Point) string {
		if p.Inf() {
			return "infinity"
		}
		return fmt.Sprintf("(%x,%x)", p.X, p.Y)
	}
	// judgePub: parsing b is exact, and what it accepts encodes back
	judgePub := func(c *mc.Ctx, cv *ref.Curve, b []byte) {
		want, ok := parsePub(cv, b)
		in := clone(b)
		k, err := xcrypto.PubKeyFromBytes(in)
		c.Step(1)
		if !bytes.Equal(in, b) {
			c.Fail("input-changed", "PubKeyFromBytes changed its input")
		}
		if (err == nil) != ok {
			c.Fail("parse", "PubKeyFromBytes(%x): error %v; is an encoding of a point: %v", b, err, ok)
		}
		if !ok {
			if k != nil {
				c.Fail("parse", "PubKeyFromBytes(%x) gives a key and an error", b)
			}
			return
		}
		c.Valid(1)
		if !is(k.X, k.Y, want) {
			c.Fail("parse", "PubKeyFromBytes(%x) is (%x,%x), want %s", b, k.X, k.Y, show(want))
		}
		if s := k.SerializeCompressed(); !bytes.Equal(s, ref.Compressed(want)) || !bytes.Equal(k.Serialize(), s) {
			c.Fail("encode", "compressed encoding of %s is %x", show(want), s)
		}
		if s := k.SerializeUncompressed(); !bytes.Equal(s, ref.Uncompressed(want)) {
			c.Fail("encode", "uncompressed encoding of %s is %x", show(want), s)
		}
		if s := k.SerializeHybrid(); !bytes.Equal(s, refHybrid(want)) {
			c.Fail("encode", "hybrid encoding of %s is %x", show(want), s)
		}
		if h := k.Hash160(); !bytes.Equal(h, ref.Hash160(ref.Compressed(want))) {
			c.Fail("hash160", "hash160 of %s is %x", show(want), h)
		}
	}

	curves := append(tinyCurves(5, 60, r.Q(5, 8), false), tinyCurves(60, 140, r.Q(3, 6), true)...)
	for _, t := range curves {
		t := t
		cv := t.ref()
		pt := func(k int) ref.Point {
			if k == 0 {
				return ref.Point{}
			}
			return ref.Point{X: bi(t.pts[k][0]), Y: bi(t.pts[k][1])}
		}
		name := fmt.Sprintf(" p=%d n=%d", t.p, t.n)
		onTiny(t, func() {
			r.Explore("group"+name, mc.Opts{}, func(c *mc.Ctx) {
				a := c.Pick("point", t.n)
				ax, ay := xy(pt(a))
				for b := 0; b < t.n; b++ {
					bx, by := xy(pt(b))
					if x, y := g.Add(ax, ay, bx, by); !is(x, y, pt((a+b)%t.n)) {
						c.Fail("add", "p=%d b=%d: %d*G + %d*G = (%v,%v), want %s", t.p, t.b, a, b, x, y, show(pt((a+b)%t.n)))
					}
					if !is(ax, ay, pt(a)) || !is(bx, by, pt(b)) {
						c.Fail("operands", "p=%d b=%d: adding %d*G and %d*G changed an operand", t.p, t.b, a, b)
					}
					if s := secp256k1.NewScalar(ax, ay).Add(g, secp256k1.NewScalar(bx, by)); !is(s.X, s.Y, pt((a+b)%t.n)) {
						c.Fail("scalar-add", "p=%d b=%d: Scalar.Add of %d*G and %d*G = (%v,%v)", t.p, t.b, a, b, s.X, s.Y)
					}
				}
				// operands that are the same numbers, and results that are the caller's own
				own := func(op string, x, y *big.Int, want int) {
					if !is(x, y, pt(want)) {
						c.Fail("shared", "p=%d b=%d: %s of %d*G with operands that are the same numbers gives (%v,%v), want %s", t.p, t.b, op, a, x, y, show(pt(want)))
					}
					x.SetInt64(99999)
					y.SetInt64(99998)
					if bx, by := xy(pt(1 % t.n)); !is(ax, ay, pt(a)) || !is(g.Params().Gx, g.Params().Gy, pt(1)) || !is(bx, by, pt(1)) {
						c.Fail("shared", "p=%d b=%d: changing the result of %s of %d*G changes an operand or the curve", t.p, t.b, op, a)
					}
				}
				x2, y2 := g.Add(ax, ay, ax, ay)
				own("Add", x2, y2, 2*a%t.n)
				_, ny := xy(pt((t.n - a) % t.n))
				x2, y2 = g.Add(ax, ay, ax, ny)
				own("Add of the negative", x2, y2, 0)
				for _, swap := range []bool{false, true} {
					zx, zy := new(big.Int), new(big.Int)
					if swap {
						x2, y2 = g.Add(zx, zy, ax, ay)
					} else {
						x2, y2 = g.Add(ax, ay, zx, zy)
					}
					own("Add of infinity", x2, y2, a)
					if zx.Sign() != 0 || zy.Sign() != 0 {
						c.Fail("shared", "adding infinity changes it")
					}
				}
				x2, y2 = g.Double(ax, ay)
				own("Double", x2, y2, 2*a%t.n)
				x2, y2 = g.ScalarMult(ax, ay, []byte{1})
				own("ScalarMult by 1", x2, y2, a)
				x2, y2 = g.ScalarBaseMult([]byte{1})
				own("ScalarBaseMult of 1", x2, y2, 1)
				if x, y := g.Double(ax, ay); !is(x, y, pt(2*a%t.n)) {
					c.Fail("double", "p=%d b=%d: 2*(%d*G) = (%v,%v), want %s", t.p, t.b, a, x, y, show(pt(2*a%t.n)))
				}
				for k := 0; k < 3*t.n+2; k++ {
					for _, kb := range [][]byte{bi(k).Bytes(), {byte(k >> 8), byte(k)}, ref.B32(bi(k))} {
						if x, y := g.ScalarMult(ax, ay, kb); !is(x, y, pt(a*k%t.n)) {
							c.Fail("mult", "p=%d b=%d: %x * (%d*G) = (%v,%v), want %s", t.p, t.b, kb, a, x, y, show(pt(a*k%t.n)))
						}
						if a == 1 {
							if x, y := g.ScalarBaseMult(kb); !is(x, y, pt(k%t.n)) {
								c.Fail("mult", "p=%d b=%d: ScalarBaseMult(%x) = (%v,%v)", t.p, t.b, kb, x, y)
							}
						}
					}
				}
				c.Step(5*t.n + 3)
				c.Valid(1)
				c.StateU(uint64(t.p), uint64(a))
			})
			r.Explore("oncurve"+name, mc.Opts{}, func(c *mc.Ctx) {
				x := c.Pick("x", t.p)
				for y := 0; y < t.p; y++ {
					if got := g.IsOnCurve(bi(x), bi(y)); got != t.on(x, y) {
						c.Fail("oncurve", "p=%d b=%d: IsOnCurve(%d,%d) = %v", t.p, t.b, x, y, got)
					}
				}
				c.Step(t.p)
			})
			r.Explore("encodings"+name, mc.Opts{}, func(c *mc.Ctx) {
				prefix := c.Pick("prefix", 256)
				for x := 0; x < 2*t.p+3; x++ {
					judgePub(c, cv, cat([]byte{byte(prefix)}, ref.B32(bi(x))))
					if prefix <= 8 || !r.Quick() {
						for y := 0; y < t.p+3; y++ {
							judgePub(c, cv, cat([]byte{byte(prefix)}, ref.B32(bi(x)), ref.B32(bi(y))))
						}
					}
				}
				// x far beyond the field, congruent to points' x
				for k := 1; k < t.n; k++ {
					big1 := new(big.Int).Add(bi(t.pts[k][0]), new(big.Int).Mul(bi(t.p), new(big.Int).Lsh(big.NewInt(1), 240)))
					judgePub(c, cv, cat([]byte{byte(prefix)}, ref.B32(big1)))
					judgePub(c, cv, cat([]byte{byte(prefix)}, ref.B32(big1), ref.B32(bi(t.pts[k][1]))))
				}
				c.StateU(uint64(t.p), uint64(prefix))
			})
			r.Explore("keys"+name, mc.Opts{}, func(c *mc.Ctx) {
				a := 1 + c.Pick("key", t.n-1)
				ka := xcrypto.PrvKeyFromBytes(ref.B32(bi(a)))
				if !is(ka.PubKey().X, ka.PubKey().Y, pt(a)) || !bytes.Equal(ka.Serialize(), ref.B32(bi(a))) {
					c.Fail("key", "p=%d: key %d has public key (%v,%v), serialized %x", t.p, a, ka.PubKey().X, ka.PubKey().Y, ka.Serialize())
				}
				for b := 0; b < t.n; b++ {
					for _, bb := range [][]byte{bi(b).Bytes(), ref.B32(bi(b)), ref.B32(bi(b + t.n))} {
						s := ka.Add(bb)
						sum := (a + b) % t.n
						if s.D.Cmp(bi(sum)) != 0 || !is(s.PubKey().X, s.PubKey().Y, pt(sum)) {
							c.Fail("key-add", "p=%d n=%d: key %d + %x = %v with public key (%v,%v)", t.p, t.n, a, bb, s.D, s.PubKey().X, s.PubKey().Y)
						}
					}
					if b > 0 {
						kb := xcrypto.PrvKeyFromBytes(ref.B32(bi(b)))
						p := ka.PubKey().Add(kb.PubKey())
						if !is(p.X, p.Y, pt((a+b)%t.n)) {
							c.Fail("pub-add", "p=%d n=%d: public keys of %d and %d add to (%v,%v)", t.p, t.n, a, b, p.X, p.Y)
						}
						if !is(kb.PubKey().X, kb.PubKey().Y, pt(b)) {
							c.Fail("operands", "adding public keys changed the second")
						}
					}
					if ka.D.Cmp(bi(a)) != 0 || !is(ka.PubKey().X, ka.PubKey().Y, pt(a)) {
						c.Fail("operands", "adding to a key changed it")
					}
				}
				if p := ka.PubKey().Add(ka.PubKey()); !is(p.X, p.Y, pt(2*a%t.n)) || !is(ka.PubKey().X, ka.PubKey().Y, pt(a)) {
					c.Fail("pub-add", "p=%d n=%d: the public key of %d added to itself is (%v,%v), and afterwards it is (%v,%v)", t.p, t.n, a, p.X, p.Y, ka.PubKey().X, ka.PubKey().Y)
				}
				if k := ka.Add(ka.Serialize()); k.D.Cmp(bi(2*a%t.n)) != 0 || ka.D.Cmp(bi(a)) != 0 {
					c.Fail("key-add", "p=%d n=%d: key %d added to itself is %v, and afterwards it is %v", t.p, t.n, a, k.D, ka.D)
				}
				c.Step(4 * t.n)
				c.Valid(1)
				c.StateU(uint64(t.p), uint64(a))
			})
		})
	}

	// secp256k1 itself
	cv := ref.Secp
	ks := append([]*big.Int{new(big.Int)}, ecKeys(curveN, true)...)
	pts := make([]ref.Point, len(ks))
	for i, k := range ks {
		pts[i] = cv.MulG(k)
	}
	// points whose x starts with zero bytes
	for x, n := int64(1), 0; n < r.Q(4, 12); x++ {
		if p, ok := cv.LiftX(big.NewInt(x), n%2 == 1); ok {
			pts = append(pts, p, cv.Neg(p))
			n++
		}
	}
	for i, n := int64(0), 0; n < 2; i++ { // y starting with a zero byte
		p := cv.MulG(big.NewInt(i + 1))
		if p.Y.BitLen() <= 248 {
			pts = append(pts, p)
			n++
		}
	}
	r.Explore("group secp256k1", mc.Opts{}, func(c *mc.Ctx) {
		a := pts[c.Pick("a", len(pts))]
		for _, b := range pts {
			ax, ay := xy(a)
			bx, by := xy(b)
			want := cv.Add(a, b)
			if x, y := g.Add(ax, ay, bx, by); !is(x, y, want) {
				c.Fail("add", "%s + %s = (%x,%x), want %s", show(a), show(b), x, y, show(want))
			}
			if !is(ax, ay, a) || !is(bx, by, b) {
				c.Fail("operands", "adding %s and %s changed an operand", show(a), show(b))
			}
			if !a.Inf() && !b.Inf() {
				p := (&xcrypto.PubKey{Curve: g, X: ax, Y: ay}).Add(&xcrypto.PubKey{Curve: g, X: bx, Y: by})
				if !is(p.X, p.Y, want) {
					c.Fail("pub-add", "public keys %s + %s = (%x,%x)", show(a), show(b), p.X, p.Y)
				}
			}
			c.Step(2)
		}
		ax, ay := xy(a)
		if x, y := g.Double(ax, ay); !is(x, y, cv.Add(a, a)) {
			c.Fail("double", "2*%s = (%x,%x)", show(a), x, y)
		}
		if !a.Inf() {
			if !g.IsOnCurve(ax, ay) || g.IsOnCurve(ax, new(big.Int).Xor(ay, big.NewInt(1))) {
				c.Fail("oncurve", "IsOnCurve of %s or its neighbour", show(a))
			}
		}
		c.Valid(1)
	})
	scal := append([]*big.Int{}, ks...)
	for _, d := range []int64{0, 1, 2} {
		scal = append(scal, new(big.Int).Add(curveN, big.NewInt(d)))
	}
	scal = append(scal, new(big.Int).SetBytes(rep(0xff, 32)), new(big.Int).Lsh(curveN, 1), new(big.Int).Lsh(big.NewInt(3), 300))
	for i := uint(0); i < 256; i += uint(r.Q(37, 5)) {
		scal = append(scal, new(big.Int).Lsh(big.NewInt(1), i))
	}
	r.Explore("mult secp256k1", mc.Opts{}, func(c *mc.Ctx) {
		a := pts[c.Pick("a", len(pts))]
		k := scal[c.Pick("k", len(scal))]
		want := cv.Mul(a, new(big.Int).Mod(k, curveN))
		ax, ay := xy(a)
		for _, kb := range [][]byte{k.Bytes(), cat(make([]byte, 3), k.Bytes())} {
			if x, y := g.ScalarMult(ax, ay, kb); !is(x, y, want) {
				c.Fail("mult", "%x * %s = (%x,%x), want %s", kb, show(a), x, y, show(want))
			}
		}
		c.Step(2)
		c.Valid(1)
		if k.Sign() > 0 && k.Cmp(curveN) < 0 && a.Eq(cv.G()) {
			p := xcrypto.PrvKeyFromBytes(k.Bytes())
			if !is(p.X, p.Y, want) || !bytes.Equal(p.Serialize(), ref.B32(k)) {
				c.Fail("key", "private key %x has public key (%x,%x), serializes to %x", k, p.X, p.Y, p.Serialize())
			}
		}
	})
	r.Explore("keyadd secp256k1", mc.Opts{}, func(c *mc.Ctx) {
		a := ks[1+c.Pick("a", len(ks)-1)]
		b := scal[c.Pick("b", len(scal))]
		ka := xcrypto.PrvKeyFromBytes(ref.B32(a))
		s := ka.Add(b.Bytes())
		sum := new(big.Int).Add(a, b)
		sum.Mod(sum, curveN)
		if s.D.Cmp(sum) != 0 || !is(s.PubKey().X, s.PubKey().Y, cv.MulG(sum)) {
			c.Fail("key-add", "%x + %x = %x, public (%x,%x)", a, b, s.D, s.PubKey().X, s.PubKey().Y)
		}
		pa := ka.PubKey()
		two := new(big.Int).Lsh(a, 1)
		if p := pa.Add(pa); !is(p.X, p.Y, cv.MulG(two.Mod(two, curveN))) {
			c.Fail("pub-add", "the public key of %x added to itself is (%x,%x)", a, p.X, p.Y)
		}
		if ka.D.Cmp(a) != 0 || !is(ka.X, ka.Y, cv.MulG(a)) {
			c.Fail("operands", "adding to %x changed it", a)
		}
		c.Step(1)
		c.Valid(1)
	})
	var enc [][]byte
	for _, p := range pts {
		if !p.Inf() {
			enc = append(enc, ref.Compressed(p), ref.Uncompressed(p), refHybrid(p))
		}
	}
	r.Explore("parse secp256k1", mc.Opts{}, func(c *mc.Ctx) {
		b := enc[c.Pick("encoding", len(enc))]
		switch c.Pick("change", 4) {
		case 0: // all prefixes
			for p := 0; p < 256; p++ {
				v := clone(b)
				v[0] = byte(p)
				judgePub(c, cv, v)
			}
		case 1: // all lengths
			for l := 0; l < 70; l++ {
				v := clone(b)
				if l <= len(b) {
					v = v[:l]
				} else {
					v = cat(v, make([]byte, l-len(b)))
				}
				judgePub(c, cv, v)
			}
			for _, pad := range []int{1, 32} {
				judgePub(c, cv, cat(b[:1], make([]byte, pad), b[1:]))
				judgePub(c, cv, cat(b[:1], b[1+pad:]))
			}
		case 2: // single-bit changes
			step := 1
			if r.Quick() {
				step = 3
			}
			for i := 0; i < len(b)*8; i += step {
				v := clone(b)
				v[i/8] ^= 1 << uint(i%8)
				judgePub(c, cv, v)
			}
		case 3: // non-canonical coordinates
			for _, x := range []*big.Int{new(big.Int), cv.P, new(big.Int).Add(cv.P, big.NewInt(1)), new(big.Int).SetBytes(rep(0xff, 32)), new(big.Int).Sub(cv.P, big.NewInt(1)), big.NewInt(5)} {
				v := clone(b)
				copy(v[1:33], ref.B32(x))
				judgePub(c, cv, v)
				if len(b) == 65 {
					v = clone(b)
					copy(v[33:], ref.B32(x))
					judgePub(c, cv, v)
				}
			}
			// x + p for the points with a small x
			if p, ok := parsePub(cv, b); ok {
				if x := new(big.Int).Add(p.X, cv.P); x.BitLen() <= 256 {
					v := clone(b)
					copy(v[1:33], ref.B32(x))
					judgePub(c, cv, v)
				}
				if y := new(big.Int).Add(p.Y, cv.P); len(b) == 65 && y.BitLen() <= 256 {
					v := clone(b)
					copy(v[33:], ref.B32(y))
					judgePub(c, cv, v)
				}
			}
		}
		c.State(b)
	})
	// the compressed form alone
	r.Explore("sec", mc.Opts{}, func(c *mc.Ctx) {
		b := enc[c.Pick("encoding", len(enc))]
		kind := c.Pick("change", 3)
		try := func(v []byte) {
			x, y := secp256k1.SecUnmarshal(g, clone(v))
			c.Step(1)
			var want ref.Point
			ok := false
			if len(v) == 33 {
				want, ok = parsePub(cv, v)
			}
			if !ok {
				if x != nil && y != nil {
					c.Fail("sec", "SecUnmarshal(%x) = (%x,%x); not the encoding of a point", v, x, y)
				}
				return
			}
			if x == nil || y == nil || !is(x, y, want) {
				c.Fail("sec", "SecUnmarshal(%x) = (%x,%x), want %s", v, x, y, show(want))
			}
			if m := secp256k1.SecMarshal(g, x, y); !bytes.Equal(m, v) {
				c.Fail("sec", "SecMarshal of %s = %x, want %x", show(want), m, v)
			}
			c.Valid(1)
		}
		switch kind {
		case 0:
			for l := 0; l < 70; l++ {
				if l <= len(b) {
					try(b[:l])
				} else {
					try(cat(b, make([]byte, l-len(b))))
				}
			}
		case 1:
			for p := 0; p < 256; p++ {
				v := clone(b[:33])
				v[0] = byte(p)
				try(v)
			}
		case 2:
			for i := 8; i < 33*8; i += r.Q(7, 1) {
				v := clone(b[:33])
				v[0] = 2 + byte(i&1)
				v[i/8] ^= 1 << uint(i%8)
				try(v)
			}
			try(cat([]byte{2}, ref.B32(cv.P)))
			try(cat([]byte{2}, ref.B32(new(big.Int).Add(cv.P, big.NewInt(1)))))
			try(cat([]byte{3}, rep(0xff, 32)))
			try(make([]byte, 33))
		}
	})
}
