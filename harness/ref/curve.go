package ref

import "math/big"

// Curve is a prime-order curve y^2 = x^3 + B over GF(P), written from the textbook formulas (Jacobian).
type Curve struct {
	P, N, B, Gx, Gy *big.Int
}

// Point is an affine point; X == nil is the point at infinity.
type Point struct{ X, Y *big.Int }

// Inf tells whether the point is the point at infinity.
func (p Point) Inf() bool { return p.X == nil }

// Eq compares two points.
func (p Point) Eq(q Point) bool {
	if p.Inf() || q.Inf() {
		return p.Inf() && q.Inf()
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

func hexInt(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return n
}

// Secp is secp256k1.
var Secp = &Curve{
	P:  hexInt("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"),
	N:  hexInt("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
	B:  big.NewInt(7),
	Gx: hexInt("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
	Gy: hexInt("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"),
}

// G is the base point.
func (c *Curve) G() Point { return Point{c.Gx, c.Gy} }

func (c *Curve) mod(v *big.Int) *big.Int { return v.Mod(v, c.P) }

// On tells whether the point satisfies the equation (infinity does not count).
func (c *Curve) On(p Point) bool {
	if p.Inf() || p.X.Sign() < 0 || p.Y.Sign() < 0 || p.X.Cmp(c.P) >= 0 || p.Y.Cmp(c.P) >= 0 {
		return false
	}
	y2 := c.mod(new(big.Int).Mul(p.Y, p.Y))
	return y2.Cmp(c.rhs(p.X)) == 0
}

func (c *Curve) rhs(x *big.Int) *big.Int {
	r := new(big.Int).Mul(x, x)
	r.Mul(r, x)
	r.Add(r, c.B)
	return c.mod(r)
}

// Neg is -p.
func (c *Curve) Neg(p Point) Point {
	if p.Inf() {
		return p
	}
	return Point{new(big.Int).Set(p.X), c.mod(new(big.Int).Neg(p.Y))}
}

// Add is the group law in affine form.
func (c *Curve) Add(p, q Point) Point {
	if p.Inf() {
		return q
	}
	if q.Inf() {
		return p
	}
	var num, den *big.Int
	if p.X.Cmp(q.X) == 0 {
		if p.Y.Cmp(q.Y) != 0 || p.Y.Sign() == 0 {
			return Point{}
		}
		num = new(big.Int).Mul(p.X, p.X)
		num.Mul(num, big.NewInt(3))
		den = new(big.Int).Lsh(p.Y, 1)
	} else {
		num = new(big.Int).Sub(q.Y, p.Y)
		den = new(big.Int).Sub(q.X, p.X)
	}
	c.mod(den)
	l := new(big.Int).ModInverse(den, c.P)
	l.Mul(l, num)
	c.mod(l)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.X)
	x.Sub(x, q.X)
	c.mod(x)
	y := new(big.Int).Sub(p.X, x)
	y.Mul(y, l)
	y.Sub(y, p.Y)
	c.mod(y)
	return Point{x, y}
}

type jac struct{ x, y, z *big.Int }

func (c *Curve) jdbl(p jac) jac {
	if p.z.Sign() == 0 || p.y.Sign() == 0 {
		return jac{new(big.Int), big.NewInt(1), new(big.Int)}
	}
	yy := c.mod(new(big.Int).Mul(p.y, p.y))
	s := new(big.Int).Mul(p.x, yy)
	s.Lsh(s, 2)
	c.mod(s)
	m := new(big.Int).Mul(p.x, p.x)
	m.Mul(m, big.NewInt(3))
	c.mod(m)
	x := new(big.Int).Mul(m, m)
	x.Sub(x, s)
	x.Sub(x, s)
	c.mod(x)
	y4 := c.mod(yy.Mul(yy, yy))
	y4.Lsh(y4, 3)
	y := new(big.Int).Sub(s, x)
	y.Mul(y, m)
	y.Sub(y, y4)
	c.mod(y)
	z := new(big.Int).Mul(p.y, p.z)
	z.Lsh(z, 1)
	c.mod(z)
	return jac{x, y, z}
}

// jadd adds the affine point q.
func (c *Curve) jadd(p jac, q Point) jac {
	if q.Inf() {
		return p
	}
	if p.z.Sign() == 0 {
		return jac{new(big.Int).Set(q.X), new(big.Int).Set(q.Y), big.NewInt(1)}
	}
	zz := c.mod(new(big.Int).Mul(p.z, p.z))
	u := c.mod(new(big.Int).Mul(q.X, zz))
	s := c.mod(zz.Mul(zz, p.z))
	s.Mul(s, q.Y)
	c.mod(s)
	h := c.mod(u.Sub(u, p.x))
	r := c.mod(s.Sub(s, p.y))
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return c.jdbl(p)
		}
		return jac{new(big.Int), big.NewInt(1), new(big.Int)}
	}
	hh := c.mod(new(big.Int).Mul(h, h))
	hhh := c.mod(new(big.Int).Mul(hh, h))
	v := c.mod(hh.Mul(hh, p.x))
	x := new(big.Int).Mul(r, r)
	x.Sub(x, hhh)
	x.Sub(x, v)
	x.Sub(x, v)
	c.mod(x)
	y := new(big.Int).Sub(v, x)
	y.Mul(y, r)
	y.Sub(y, new(big.Int).Mul(p.y, hhh))
	c.mod(y)
	z := c.mod(new(big.Int).Mul(p.z, h))
	return jac{x, y, z}
}

// Mul is k*p for any integer k >= 0.
func (c *Curve) Mul(p Point, k *big.Int) Point {
	acc := jac{new(big.Int), big.NewInt(1), new(big.Int)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		acc = c.jdbl(acc)
		if k.Bit(i) == 1 {
			acc = c.jadd(acc, p)
		}
	}
	if acc.z.Sign() == 0 {
		return Point{}
	}
	zi := new(big.Int).ModInverse(acc.z, c.P)
	z2 := c.mod(new(big.Int).Mul(zi, zi))
	x := c.mod(acc.x.Mul(acc.x, z2))
	z2.Mul(z2, zi)
	c.mod(z2)
	y := c.mod(acc.y.Mul(acc.y, z2))
	return Point{x, y}
}

// MulG is k*G.
func (c *Curve) MulG(k *big.Int) Point { return c.Mul(c.G(), k) }

// LiftX gives the point with that x and the parity of y asked for.
func (c *Curve) LiftX(x *big.Int, odd bool) (Point, bool) {
	if x.Sign() < 0 || x.Cmp(c.P) >= 0 {
		return Point{}, false
	}
	y := new(big.Int).ModSqrt(c.rhs(x), c.P)
	if y == nil {
		return Point{}, false
	}
	if (y.Bit(0) == 1) != odd {
		if y.Sign() == 0 {
			return Point{}, false
		}
		y.Sub(c.P, y)
	}
	return Point{new(big.Int).Set(x), y}, true
}

// B32 is the 32-byte big-endian form.
func B32(n *big.Int) []byte {
	b := make([]byte, 32)
	return n.FillBytes(b)
}

// Compressed is the 33-byte encoding.
func Compressed(p Point) []byte {
	return append([]byte{2 + byte(p.Y.Bit(0))}, B32(p.X)...)
}

// Uncompressed is the 65-byte encoding.
func Uncompressed(p Point) []byte {
	return append(append([]byte{4}, B32(p.X)...), B32(p.Y)...)
}

// ECDSAVerify is the ECDSA equation, for a hash given as an integer already truncated to the order's length.
func (c *Curve) ECDSAVerify(q Point, e, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(c.N) >= 0 || s.Cmp(c.N) >= 0 {
		return false
	}
	w := new(big.Int).ModInverse(s, c.N)
	u1 := new(big.Int).Mul(e, w)
	u1.Mod(u1, c.N)
	u2 := new(big.Int).Mul(r, w)
	u2.Mod(u2, c.N)
	p := c.Add(c.MulG(u1), c.Mul(q, u2))
	if p.Inf() {
		return false
	}
	return new(big.Int).Mod(p.X, c.N).Cmp(r) == 0
}
