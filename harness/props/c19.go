package props

import (
	"bytes"
	"crypto/ecdsa"
	"encoding/asn1"
	"fmt"
	"math/big"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xcrypto"
	xecdsa "github.com/keyfuse/tokucore/xcrypto/ecdsa"
)

func init() { mc.Register("C19", c19) }

// ecKeys are private keys at the boundaries of the range and of its byte and bit patterns.
func ecKeys(n *big.Int, full bool) []*big.Int {
	one := big.NewInt(1)
	o := []*big.Int{
		big.NewInt(1), big.NewInt(2), new(big.Int).Sub(n, one), new(big.Int).Sub(n, big.NewInt(2)),
		new(big.Int).Rsh(n, 1), new(big.Int).Add(new(big.Int).Rsh(n, 1), one),
		new(big.Int).SetBytes(seq(0x11, 32)), new(big.Int).SetBytes(rep(0xff, 31)),
	}
	if full {
		o = append(o, big.NewInt(3), big.NewInt(255), big.NewInt(256), new(big.Int).Lsh(one, 128), new(big.Int).Lsh(one, 255),
			new(big.Int).SetBytes(rep(0xff, 16)), new(big.Int).SetBytes(cat([]byte{1}, make([]byte, 30), []byte{1})),
			new(big.Int).SetBytes(rep(0x80, 32)), new(big.Int).SetBytes(seq(0x80, 20)))
	}
	return o
}

func ecHashes(n *big.Int) [][]byte {
	one := big.NewInt(1)
	sub := new(big.Int).Sub(n, one)
	add := new(big.Int).Add(n, one)
	return [][]byte{
		rep(0, 32), cat(rep(0, 31), []byte{1}), rep(0xff, 32), ref.B32(n), ref.B32(sub), ref.B32(add),
		ref.Sha256([]byte("tokucore")), ref.B32(new(big.Int).Rsh(n, 1)), cat([]byte{0x80}, rep(0, 31)),
	}
}

// shapedHashes have lengths other than 32.
func shapedHashes() [][]byte {
	return [][]byte{{2}, {1}, {0}, seq(1, 20), rep(0xff, 31), seq(3, 33), rep(0xff, 33), rep(0xff, 64), cat(rep(0, 32), rep(0xff, 32)), seq(9, 64), seq(0xc0, 20)}
}

// derVariants are other encodings, and non-encodings, of the pair (r,s).
func derVariants(r, s *big.Int) map[string][]byte {
	der := ref.DERSig(r, s)
	tlv := func(tag byte, b []byte) []byte { return cat([]byte{tag, byte(len(b))}, b) }
	num := func(n *big.Int) []byte {
		b := n.Bytes()
		if len(b) == 0 || b[0]&0x80 != 0 {
			b = cat([]byte{0}, b)
		}
		return b
	}
	R, S := tlv(2, num(r)), tlv(2, num(s))
	o := map[string][]byte{
		"empty":                    {},
		"trailing byte":            cat(der, []byte{0}),
		"trailing bytes":           cat(der, []byte{1, 2, 3}),
		"appended twice":           cat(der, der),
		"leading byte":             cat([]byte{0}, der),
		"extra integer in seq":     tlv(0x30, cat(R, S, tlv(2, []byte{1}))),
		"extra null in seq":        tlv(0x30, cat(R, S, []byte{5, 0})),
		"garbage in seq":           tlv(0x30, cat(R, S, []byte{0xff})),
		"zero byte in seq":         tlv(0x30, cat(R, S, []byte{0})),
		"padded r":                 tlv(0x30, cat(tlv(2, cat([]byte{0}, num(r))), S)),
		"padded s":                 tlv(0x30, cat(R, tlv(2, cat([]byte{0}, num(s))))),
		"ff padded r":              tlv(0x30, cat(tlv(2, cat([]byte{0xff}, num(r))), S)),
		"only r":                   tlv(0x30, R),
		"empty seq":                tlv(0x30, nil),
		"empty r":                  tlv(0x30, cat(tlv(2, nil), S)),
		"empty s":                  tlv(0x30, cat(R, tlv(2, nil))),
		"set":                      tlv(0x31, cat(R, S)),
		"primitive seq":            tlv(0x10, cat(R, S)),
		"octet r":                  tlv(0x30, cat(tlv(4, num(r)), S)),
		"bitstring s":              tlv(0x30, cat(R, tlv(3, num(s)))),
		"enum s":                   tlv(0x30, cat(R, tlv(10, num(s)))),
		"long length":              cat([]byte{0x30, 0x81, byte(len(R) + len(S))}, R, S),
		"longer length":            cat([]byte{0x30, 0x82, 0, byte(len(R) + len(S))}, R, S),
		"indefinite length":        cat([]byte{0x30, 0x80}, R, S, []byte{0, 0}),
		"long r length":            tlv(0x30, cat([]byte{2, 0x81, byte(len(R) - 2)}, num(r), S)),
		"nested seq":               tlv(0x30, tlv(0x30, cat(R, S))),
		"length one less":          cat([]byte{0x30, byte(len(R) + len(S) - 1)}, R, S),
		"length one more":          cat([]byte{0x30, byte(len(R) + len(S) + 1)}, R, S),
		"length one more, padded":  cat([]byte{0x30, byte(len(R) + len(S) + 1)}, R, S, []byte{0}),
		"raw 64 bytes":             cat(ref.B32(new(big.Int).Mod(r, curveN)), ref.B32(new(big.Int).Mod(s, curveN))),
		"negated r":                tlv(0x30, cat(tlv(2, cat([]byte{0xff}, ref.B32(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), r)))), S)),
		"r without its sign octet": tlv(0x30, cat(tlv(2, r.Bytes()), S)),
		"s without its sign octet": tlv(0x30, cat(R, tlv(2, s.Bytes()))),
	}
	return o
}

func c19(r *mc.Run) {
	r.Assume("the hash has at least one byte (crypto/ecdsa verifies no signature of an empty hash)")
	r.Assume("a nonce whose r or s is zero (probability 2^-256 on secp256k1) may be reported as an error instead of retried")
	key := func(d *big.Int) *xcrypto.PrvKey { return xcrypto.PrvKeyFromBytes(ref.B32(d)) }

	// acceptance is exactly the equation, on small curves: everything
	vs := tinyCurves(5, r.Q(20, 40), r.Q(2, 4), false)
	vs = append(vs, tinyCurves(r.Q(20, 40), r.Q(40, 70), r.Q(1, 2), true)...)
	for _, t := range vs {
		t := t
		onTiny(t, func() {
			r.Explore(fmt.Sprintf("verify p=%d n=%d", t.p, t.n), mc.Opts{}, func(c *mc.Ctx) {
				d := 1 + c.Pick("key", t.n-1)
				bits := bi(t.n).BitLen()
				e := c.Pick("hash", 1<<bits)
				hash := []byte{byte(e << (8 - bits))}
				pub := (*ecdsa.PublicKey)(key(bi(d)).PubKey())
				ok := 0
				for rr := -2; rr < 2*t.n+2; rr++ {
					for s := -2; s < 2*t.n+2; s++ {
						want := t.ecdsaOK(d, e, rr, s)
						R, S := bi(rr), bi(s)
						got := xecdsa.Verify(pub, hash, R, S)
						if got != want {
							c.Fail("equation", "curve p=%d b=%d n=%d: key %d hash value %d: Verify(r=%d,s=%d) = %v, the equation says %v", t.p, t.b, t.n, d, e, rr, s, got, want)
						}
						if want {
							ok++
						}
					}
				}
				c.Step((2*t.n + 4) * (2*t.n + 4))
				c.Valid(ok)
				c.StateU(uint64(t.p), uint64(d), uint64(e))
			})
		})
	}
	// signing, on curves whose order fills a byte: every key and every hash value
	for _, t := range tinyCurves(128, 255, r.Q(2, 5), false) {
		t := t
		cv := t.ref()
		onTiny(t, func() {
			r.Explore(fmt.Sprintf("sign p=%d n=%d", t.p, t.n), mc.Opts{}, func(c *mc.Ctx) {
				d := 1 + c.Pick("key", t.n-1)
				prv := key(bi(d))
				for h := 0; h < 256; h++ {
					hash := []byte{byte(h)}
					if h%3 == 1 { // longer hashes are truncated
						hash = []byte{byte(h), byte(d), 0xff}
					}
					wr, ws, tries := cv.ECDSASign(bi(d), hash)
					gr, gs, err := xecdsa.Sign((*ecdsa.PrivateKey)(prv), hash)
					if err != nil {
						if tries == 1 {
							c.Fail("sign-error", "n=%d key %d hash %x: %v", t.n, d, hash, err)
						}
						c.Outcome("zero r or s reported")
						continue
					}
					if gr.Cmp(wr) != 0 || gs.Cmp(ws) != 0 {
						c.Fail("signature", "n=%d key %d hash %x: Sign gives (%v,%v), RFC 6979 low-S is (%v,%v)", t.n, d, hash, gr, gs, wr, ws)
					}
					if !t.ecdsaOK(d, h, int(gr.Int64()), int(gs.Int64())) {
						panic("the reference signature does not verify")
					}
					if err := xcrypto.EcdsaVerify(prv.PubKey(), hash, ref.DERSig(gr, gs)); err != nil {
						c.Fail("own", "n=%d key %d hash %x: own signature refused: %v", t.n, d, hash, err)
					}
					sig, err := xcrypto.EcdsaSign(prv, hash)
					if err != nil || !bytes.Equal(sig, ref.DERSig(wr, ws)) {
						c.Fail("determinism", "n=%d key %d hash %x: EcdsaSign then gives %x, %v; want %x", t.n, d, hash, sig, err, ref.DERSig(wr, ws))
					}
					c.Valid(1)
				}
				c.Step(3 * 256)
				if prv.D.Cmp(bi(d)) != 0 {
					c.Fail("key-changed", "signing changed the key from %d to %v", d, prv.D)
				}
				c.StateU(uint64(t.p), uint64(d))
			})
		})
	}
	// secp256k1 itself
	keys := ecKeys(curveN, true)
	hashes := append(ecHashes(curveN), shapedHashes()...)
	r.Explore("secp256k1", mc.Opts{}, func(c *mc.Ctx) {
		d := keys[c.Pick("key", len(keys))]
		h := hashes[c.Pick("hash", len(hashes))]
		prv := key(d)
		in := clone(h)
		sig, err := xcrypto.EcdsaSign(prv, in)
		if err != nil {
			c.Fail("sign-error", "key %x hash %x: %v", d, h, err)
		}
		wr, ws, _ := ref.Secp.ECDSASign(d, h)
		if !bytes.Equal(sig, ref.DERSig(wr, ws)) {
			c.Fail("signature", "key %x hash %x: EcdsaSign gives %x, RFC 6979 low-S is %x", d, h, sig, ref.DERSig(wr, ws))
		}
		if !bytes.Equal(in, h) || prv.D.Cmp(d) != 0 {
			c.Fail("input-changed", "signing changed the hash or the key")
		}
		pub := key(d).PubKey()
		if err := xcrypto.EcdsaVerify(pub, in, sig); err != nil {
			c.Fail("own", "key %x hash %x: own signature %x refused: %v", d, h, sig, err)
		}
		// the other s is the same signature, un-normalized: the equation holds
		high := new(big.Int).Sub(curveN, ws)
		if err := xcrypto.EcdsaVerify(pub, in, ref.DERSig(wr, high)); err != nil {
			c.Fail("high-s", "key %x hash %x: (r,N-s) satisfies the equation and is refused: %v", d, h, err)
		}
		// boundary pairs and neighbours
		one := big.NewInt(1)
		for _, p := range [][2]*big.Int{{wr, new(big.Int)}, {new(big.Int), ws}, {wr, curveN}, {curveN, ws}, {wr, new(big.Int).Add(ws, curveN)}, {new(big.Int).Add(wr, curveN), ws},
			{ws, wr}, {new(big.Int).Add(wr, one), ws}, {wr, new(big.Int).Add(ws, one)}, {one, one}} {
			want := ref.Secp.ECDSAVerify(ref.Point{X: pub.X, Y: pub.Y}, ref.TruncHash(curveN, h), p[0], p[1])
			got := xcrypto.EcdsaVerify(pub, in, ref.DERSig(p[0], p[1])) == nil
			if got != want {
				c.Fail("equation", "key %x hash %x: (r=%x,s=%x) accepted: %v, the equation says %v", d, h, p[0], p[1], got, want)
			}
		}
		c.Step(12)
		c.Valid(2)
		c.State(sig)
	})
	// encodings
	mk := keys[:r.Q(4, len(keys))]
	type pair struct{ r, s *big.Int }
	nm := r.Q(3, 8)
	r.Explore("der", mc.Opts{}, func(c *mc.Ctx) {
		d := mk[c.Pick("key", len(mk))]
		h := hashes[c.Pick("hash", len(hashes))]
		prv := key(d)
		wr, ws, _ := ref.Secp.ECDSASign(d, h)
		if c.Bool("high s") {
			ws = new(big.Int).Sub(curveN, ws)
		}
		for name, b := range derVariants(wr, ws) {
			if rr, ss, ok := ref.ParseDERSig(b); ok && rr.Cmp(wr) == 0 && ss.Cmp(ws) == 0 {
				continue
			}
			c.Step(1)
			if err := xcrypto.EcdsaVerify(prv.PubKey(), h, b); err == nil {
				c.Fail("der-accepted", "key %x hash %x: signature (%x,%x) accepted in the encoding %q: %x", d, h, wr, ws, name, b)
			}
			s := xcrypto.NewSignatureEcdsa()
			if err := s.Deserialize(b); err == nil {
				if rb, err := asn1.Marshal(struct{ R, S *big.Int }{s.R, s.S}); err != nil || !bytes.Equal(rb, b) {
					c.Fail("der-parsed", "Deserialize accepts %q (%x) as (%x,%x), whose encoding is %x", name, b, s.R, s.S, rb)
				}
			}
		}
		c.Valid(1)
	})
	r.Explore("der-roundtrip", mc.Opts{}, func(c *mc.Ctx) {
		vals := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(127), big.NewInt(128), big.NewInt(255), big.NewInt(256), big.NewInt(0x7fff), big.NewInt(0x8000),
			new(big.Int).SetBytes(rep(0xff, 31)), new(big.Int).SetBytes(rep(0x7f, 32)), new(big.Int).Sub(curveN, big.NewInt(1)), curveN, new(big.Int).SetBytes(rep(0xff, 32)), new(big.Int).Lsh(big.NewInt(1), 255), new(big.Int).Rsh(curveN, 1)}
		p := pair{vals[c.Pick("r", len(vals))], vals[c.Pick("s", len(vals))]}
		sig := &xcrypto.SignatureEcdsa{R: new(big.Int).Set(p.r), S: new(big.Int).Set(p.s)}
		b, err := sig.Serialize()
		if err != nil || !bytes.Equal(b, ref.DERSig(p.r, p.s)) {
			c.Fail("serialize", "(%x,%x) serializes to %x, %v; DER is %x", p.r, p.s, b, err, ref.DERSig(p.r, p.s))
		}
		back := xcrypto.NewSignatureEcdsa()
		if err := back.Deserialize(clone(b)); err != nil || back.R.Cmp(p.r) != 0 || back.S.Cmp(p.s) != 0 {
			c.Fail("deserialize", "%x deserializes to %v, %v", b, back, err)
		}
		c.Step(2)
		c.Valid(1)
		c.State(b)
	})
	// every single-bit change of a signature, of the hash, of the key; every truncation
	r.Explore("mutations", mc.Opts{}, func(c *mc.Ctx) {
		d := keys[c.Pick("key", nm)]
		h := hashes[[]int{6, 2, 0, 5, 9, 14}[c.Pick("hash", r.Q(2, 6))]]
		wr, ws, _ := ref.Secp.ECDSASign(d, h)
		der := ref.DERSig(wr, ws)
		prv := key(d)
		pub := prv.PubKey()
		q := ref.Point{X: pub.X, Y: pub.Y}
		judge := func(what string, hash, b []byte, pk *xcrypto.PubKey, qq ref.Point) {
			want := false
			if rr, ss, ok := ref.ParseDERSig(b); ok {
				want = ref.Secp.ECDSAVerify(qq, ref.TruncHash(curveN, hash), rr, ss)
			}
			c.Step(1)
			if got := xcrypto.EcdsaVerify(pk, hash, b) == nil; got != want {
				c.Fail("mutation", "key %x hash %x: %s: signature %x over %x accepted: %v, should be %v", d, h, what, b, hash, got, want)
			}
		}
		kind := c.Pick("mutate", 4)
		c.Valid(1)
		switch kind {
		case 0:
			i := c.Pick("byte", len(der))
			for bit := 0; bit < 8; bit++ {
				b := clone(der)
				b[i] ^= 1 << uint(bit)
				judge(fmt.Sprintf("bit %d of byte %d flipped", bit, i), h, b, pub, q)
			}
		case 1:
			if len(h) == 0 {
				return
			}
			i := c.Pick("byte", len(h))
			for bit := 0; bit < 8; bit++ {
				b := clone(h)
				b[i] ^= 1 << uint(bit)
				judge("hash bit flipped", b, der, pub, q)
			}
		case 2:
			for l := 0; l < len(der); l++ {
				judge("truncated", h, der[:l], pub, q)
			}
		case 3:
			for _, o := range keys {
				pk := key(o).PubKey()
				judge("other key", h, der, pk, ref.Point{X: pk.X, Y: pk.Y})
			}
		}
		c.StateU(uint64(kind))
	})
}
