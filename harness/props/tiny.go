package props

import (
	"math/big"

	"verif/ref"

	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
)

// tiny is a small curve y^2 = x^3 + b over GF(p) whose group has prime order n: the real code, which reads its curve
// from the parameters, is run on it exhaustively. pts[k] = k*G by repeated affine addition on machine integers;
// pts[0] is the point at infinity (0,0).
type tiny struct {
	p, b, n int
	pts     [][2]int
}

func inv(a, p int) int {
	a = ((a % p) + p) % p
	r, e := 1, p-2
	for e > 0 {
		if e&1 == 1 {
			r = r * a % p
		}
		a = a * a % p
		e >>= 1
	}
	return r
}

func isPrime(n int) bool {
	if n < 2 {
		return false
	}
	for i := 2; i*i <= n; i++ {
		if n%i == 0 {
			return false
		}
	}
	return true
}

// legendre is 1 for a non-zero square.
func legendre(a, p int) int {
	a = ((a % p) + p) % p
	if a == 0 {
		return 0
	}
	r, e := 1, (p-1)/2
	for e > 0 {
		if e&1 == 1 {
			r = r * a % p
		}
		a = a * a % p
		e >>= 1
	}
	if r == 1 {
		return 1
	}
	return -1
}

func (t *tiny) add(a, b [2]int) [2]int {
	z := [2]int{}
	if a == z {
		return b
	}
	if b == z {
		return a
	}
	var l int
	if a[0] == b[0] {
		if (a[1]+b[1])%t.p == 0 {
			return z
		}
		l = 3 * a[0] * a[0] % t.p * inv(2*a[1], t.p) % t.p
	} else {
		l = ((b[1]-a[1]+t.p)%t.p*inv(b[0]-a[0], t.p)%t.p + t.p) % t.p
	}
	x := ((l*l-a[0]-b[0])%t.p + 2*t.p) % t.p
	y := (l*((a[0]-x+t.p)%t.p)%t.p - a[1] + t.p) % t.p
	return [2]int{x, y}
}

func (t *tiny) on(x, y int) bool {
	return x >= 0 && y >= 0 && x < t.p && y < t.p && y*y%t.p == (x*x%t.p*x+t.b)%t.p
}

// tinyCurves finds, for each order range, the first curves of prime order n != p with p = 3 mod 4 (as secp256k1) when
// mod4, in increasing order of p.
func tinyCurves(lo, hi, count int, mod4 bool) []*tiny {
	var o []*tiny
	for p := 5; len(o) < count && p < 2*hi+20; p++ {
		if !isPrime(p) || (mod4 && p%4 != 3) {
			continue
		}
		for b := 1; b < p && len(o) < count; b++ {
			n := 1
			var g [2]int
			for x := 0; x < p; x++ {
				s := legendre(x*x*x+b, p)
				n += 1 + s
				if s == 1 && g == [2]int{} {
					for y := 1; y < p; y++ {
						if y*y%p == (x*x*x+b)%p {
							g = [2]int{x, y}
							break
						}
					}
				}
			}
			if n < lo || n > hi || n == p || !isPrime(n) {
				continue
			}
			t := &tiny{p: p, b: b, n: n}
			t.pts = append(t.pts, [2]int{})
			q := g
			for k := 1; k < n; k++ {
				t.pts = append(t.pts, q)
				q = t.add(q, g)
			}
			if q != [2]int{} {
				panic("tiny curve")
			}
			o = append(o, t)
			break // one per field
		}
	}
	if len(o) < count {
		panic("no such curves")
	}
	return o
}

// ref is the same curve for the big-integer reference.
func (t *tiny) ref() *ref.Curve {
	b := func(n int) *big.Int { return big.NewInt(int64(n)) }
	return &ref.Curve{P: b(t.p), N: b(t.n), B: b(t.b), Gx: b(t.pts[1][0]), Gy: b(t.pts[1][1])}
}

// on runs f with the library's curve parameters replaced by the small curve's.
func onTiny(t *tiny, f func()) {
	p := secp256k1.SECP256K1().Params()
	old := *p
	defer func() { *p = old }()
	p.P, p.N, p.B = big.NewInt(int64(t.p)), big.NewInt(int64(t.n)), big.NewInt(int64(t.b))
	p.Gx, p.Gy = big.NewInt(int64(t.pts[1][0])), big.NewInt(int64(t.pts[1][1]))
	f()
}

func bi(n int) *big.Int { return big.NewInt(int64(n)) }

// ecdsaOK is the ECDSA equation for key d, hash value e and the pair (r,s), by discrete logarithms.
func (t *tiny) ecdsaOK(d, e, r, s int) bool {
	if r < 1 || s < 1 || r >= t.n || s >= t.n {
		return false
	}
	w := inv(s, t.n)
	k := (e*w + r*w%t.n*d) % t.n
	return k != 0 && t.pts[k][0]%t.n == r
}

// schnorrOK is the Schnorr equation for key d, challenge e and the pair (r,s).
func (t *tiny) schnorrOK(d, e, r, s int) bool {
	if r < 0 || s < 0 || r >= t.p || s >= t.n {
		return false
	}
	k := ((s-e*d)%t.n + t.n) % t.n
	return k != 0 && t.pts[k][0] == r && legendre(t.pts[k][1], t.p) == 1
}
