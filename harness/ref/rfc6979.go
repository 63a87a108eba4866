package ref

import (
	"crypto/hmac"
	"crypto/sha256"
	"math/big"
)

// TruncHash is the leftmost bits of a hash as an integer (FIPS 186, bits2int of RFC 6979).
func TruncHash(q *big.Int, h []byte) *big.Int {
	v := new(big.Int).SetBytes(h)
	if d := len(h)*8 - q.BitLen(); d > 0 {
		v.Rsh(v, uint(d))
	}
	return v
}

// RFC6979 gives the candidates for k in turn, with HMAC-SHA256 (section 3.2 of the RFC).
func RFC6979(q, x *big.Int, h []byte) func() *big.Int {
	qlen := q.BitLen()
	rolen := (qlen + 7) / 8
	mac := func(k []byte, bs ...[]byte) []byte {
		m := hmac.New(sha256.New, k)
		for _, b := range bs {
			m.Write(b)
		}
		return m.Sum(nil)
	}
	z := TruncHash(q, h)
	z.Mod(z, q)
	xo := x.FillBytes(make([]byte, rolen))
	ho := z.FillBytes(make([]byte, rolen))
	v := make([]byte, 32)
	k := make([]byte, 32)
	for i := range v {
		v[i] = 1
	}
	k = mac(k, v, []byte{0}, xo, ho)
	v = mac(k, v)
	k = mac(k, v, []byte{1}, xo, ho)
	v = mac(k, v)
	first := true
	return func() *big.Int {
		for {
			if !first {
				k = mac(k, v, []byte{0})
				v = mac(k, v)
			}
			first = false
			var t []byte
			for len(t)*8 < qlen {
				v = mac(k, v)
				t = append(t, v...)
			}
			c := TruncHash(q, t)
			if c.Sign() > 0 && c.Cmp(q) < 0 {
				return c
			}
		}
	}
}

// ECDSASign is the low-S signature for the first usable k of RFC 6979; tries tells how many k it took.
func (c *Curve) ECDSASign(d *big.Int, h []byte) (r, s *big.Int, tries int) {
	next := RFC6979(c.N, d, h)
	e := TruncHash(c.N, h)
	for {
		tries++
		k := next()
		p := c.MulG(k)
		r = new(big.Int).Mod(p.X, c.N)
		s = new(big.Int).Mul(r, d)
		s.Add(s, e)
		s.Mul(s, new(big.Int).ModInverse(k, c.N))
		s.Mod(s, c.N)
		if r.Sign() == 0 || s.Sign() == 0 {
			continue
		}
		if new(big.Int).Lsh(s, 1).Cmp(c.N) > 0 {
			s.Sub(c.N, s)
		}
		return
	}
}

// DERSig is the DER encoding of a pair of non-negative integers.
func DERSig(r, s *big.Int) []byte {
	enc := func(n *big.Int) []byte {
		b := n.Bytes()
		if len(b) == 0 || b[0]&0x80 != 0 {
			b = append([]byte{0}, b...)
		}
		return append([]byte{2, byte(len(b))}, b...)
	}
	body := append(enc(r), enc(s)...)
	if len(body) > 127 {
		return append([]byte{0x30, 0x81, byte(len(body))}, body...)
	}
	return append([]byte{0x30, byte(len(body))}, body...)
}

// ParseDERSig parses the strict form of two non-negative integers; short lengths only.
func ParseDERSig(b []byte) (r, s *big.Int, ok bool) {
	if len(b) < 2 || b[0] != 0x30 || b[1] > 127 || int(b[1]) != len(b)-2 {
		return nil, nil, false
	}
	b = b[2:]
	num := func() *big.Int {
		if len(b) < 3 || b[0] != 2 || b[1] == 0 || b[1] > 127 || int(b[1]) > len(b)-2 {
			return nil
		}
		v := b[2 : 2+b[1]]
		b = b[2+b[1]:]
		if v[0]&0x80 != 0 || (len(v) > 1 && v[0] == 0 && v[1]&0x80 == 0) {
			return nil
		}
		return new(big.Int).SetBytes(v)
	}
	if r = num(); r == nil {
		return nil, nil, false
	}
	if s = num(); s == nil || len(b) != 0 {
		return nil, nil, false
	}
	return r, s, true
}
