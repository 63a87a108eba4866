package ref

import (
	"crypto/hmac"
	"crypto/sha512"
	"encoding/binary"
	"math/big"
)

// HD is an extended key by the BIP32 definitions.
type HD struct {
	Priv  *big.Int // nil for public keys
	Pub   Point
	Chain []byte
	Depth int
	FP    []byte
	Num   uint32
}

func hmac512(key, data []byte) []byte {
	h := hmac.New(sha512.New, key)
	h.Write(data)
	return h.Sum(nil)
}

// HDMaster is the master key of a seed; ok is false when the seed is unusable.
func HDMaster(seed []byte) (*HD, bool) {
	i := hmac512([]byte("Bitcoin seed"), seed)
	k := new(big.Int).SetBytes(i[:32])
	if k.Sign() == 0 || k.Cmp(Secp.N) >= 0 {
		return nil, false
	}
	return &HD{Priv: k, Pub: Secp.MulG(k), Chain: i[32:], FP: make([]byte, 4)}, true
}

// Child is CKDpriv or CKDpub.
func (h *HD) Child(idx uint32) (*HD, bool) {
	var data []byte
	if idx >= 1<<31 {
		if h.Priv == nil {
			return nil, false
		}
		data = append([]byte{0}, B32(h.Priv)...)
	} else {
		data = Compressed(h.Pub)
	}
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], idx)
	i := hmac512(h.Chain, append(data, b[:]...))
	il := new(big.Int).SetBytes(i[:32])
	if il.Cmp(Secp.N) >= 0 || h.Depth >= 255 {
		return nil, false
	}
	c := &HD{Chain: i[32:], Depth: h.Depth + 1, FP: Hash160(Compressed(h.Pub))[:4], Num: idx}
	if h.Priv != nil {
		c.Priv = il.Add(il, h.Priv)
		c.Priv.Mod(c.Priv, Secp.N)
		if c.Priv.Sign() == 0 {
			return nil, false
		}
		c.Pub = Secp.MulG(c.Priv)
		return c, true
	}
	c.Pub = Secp.Add(Secp.MulG(il), h.Pub)
	return c, !c.Pub.Inf()
}

// Neuter is the public version.
func (h *HD) Neuter() *HD {
	c := *h
	c.Priv = nil
	return &c
}

// Raw is the 78-byte serialization.
func (h *HD) Raw(version uint32) []byte {
	b := make([]byte, 4, 82)
	binary.BigEndian.PutUint32(b, version)
	b = append(b, byte(h.Depth))
	b = append(b, h.FP...)
	var n [4]byte
	binary.BigEndian.PutUint32(n[:], h.Num)
	b = append(b, n[:]...)
	b = append(b, h.Chain...)
	if h.Priv != nil {
		b = append(b, 0)
		return append(b, B32(h.Priv)...)
	}
	return append(b, Compressed(h.Pub)...)
}

// HDText is the Base58Check text of a 78-byte serialization.
func HDText(raw []byte) string {
	return B58Encode(append(append([]byte{}, raw...), Sha256d(raw)[:4]...))
}
