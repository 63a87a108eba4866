package ref

const b32alpha = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func polymod(v []byte) uint32 {
	c := uint32(1)
	for _, x := range v {
		t := c >> 25
		c = (c&0x1ffffff)<<5 ^ uint32(x)
		if t&1 != 0 {
			c ^= 0x3b6a57b2
		}
		if t&2 != 0 {
			c ^= 0x26508e6d
		}
		if t&4 != 0 {
			c ^= 0x1ea119fa
		}
		if t&8 != 0 {
			c ^= 0x3d4233dd
		}
		if t&16 != 0 {
			c ^= 0x2a1462b3
		}
	}
	return c
}

func hrpx(h string) []byte {
	var o []byte
	for i := 0; i < len(h); i++ {
		o = append(o, h[i]>>5)
	}
	o = append(o, 0)
	for i := 0; i < len(h); i++ {
		o = append(o, h[i]&31)
	}
	return o
}

// Bech32Encode of 5-bit groups (all < 32), without any validity check.
func Bech32Encode(hrp string, data []byte) string {
	v := append(hrpx(hrp), data...)
	p := polymod(append(v, 0, 0, 0, 0, 0, 0)) ^ 1
	o := []byte(hrp + "1")
	for _, d := range data {
		o = append(o, b32alpha[d])
	}
	for i := 0; i < 6; i++ {
		o = append(o, b32alpha[p>>(5*uint(5-i))&31])
	}
	return string(o)
}

// Bech32Decode per BIP173.
func Bech32Decode(s string) (hrp string, data []byte, ok bool) {
	if len(s) > 90 || len(s) < 8 {
		return
	}
	lo, up := false, false
	b := []byte(s)
	for i, x := range b {
		if x < 33 || x > 126 {
			return
		}
		if x >= 'a' && x <= 'z' {
			lo = true
		}
		if x >= 'A' && x <= 'Z' {
			up = true
			b[i] = x + 32
		}
	}
	if lo && up {
		return
	}
	sep := -1
	for i, x := range b {
		if x == '1' {
			sep = i
		}
	}
	if sep < 1 || len(b)-sep-1 < 6 {
		return
	}
	h := string(b[:sep])
	var d []byte
	for _, x := range b[sep+1:] {
		k := -1
		for i := 0; i < 32; i++ {
			if b32alpha[i] == x {
				k = i
			}
		}
		if k < 0 {
			return
		}
		d = append(d, byte(k))
	}
	if polymod(append(hrpx(h), d...)) != 1 {
		return
	}
	return h, d[:len(d)-6], true
}

// To5 regroups bytes into 5-bit groups, padding with zeros.
func To5(p []byte) []byte {
	var o []byte
	nbits := len(p) * 8
	for i := 0; i < nbits; i += 5 {
		var v byte
		for k := 0; k < 5; k++ {
			v <<= 1
			if i+k < nbits {
				v |= p[(i+k)/8] >> uint(7-(i+k)%8) & 1
			}
		}
		o = append(o, v)
	}
	return o
}

// From5 regroups 5-bit groups into bytes; false on illegal padding.
func From5(d []byte) ([]byte, bool) {
	nbits := len(d) * 5
	bit := func(i int) byte { return d[i/5] >> uint(4-i%5) & 1 }
	o := []byte{}
	i := 0
	for ; i+8 <= nbits; i += 8 {
		var v byte
		for k := 0; k < 8; k++ {
			v = v<<1 | bit(i+k)
		}
		o = append(o, v)
	}
	if nbits-i >= 5 {
		return nil, false
	}
	for ; i < nbits; i++ {
		if bit(i) != 0 {
			return nil, false
		}
	}
	return o, true
}

// SegwitEncode is the BIP173 segwit address of an allowed (version, program).
func SegwitEncode(hrp string, ver byte, prog []byte) string {
	return Bech32Encode(hrp, append([]byte{ver}, To5(prog)...))
}

// SegwitAllowed says whether BIP173 allows the program.
func SegwitAllowed(ver byte, prog []byte) bool {
	if ver > 16 || len(prog) < 2 || len(prog) > 40 {
		return false
	}
	return ver != 0 || len(prog) == 20 || len(prog) == 32
}

// SegwitDecode per BIP173, for any human-readable part.
func SegwitDecode(s string) (hrp string, ver byte, prog []byte, ok bool) {
	h, d, k := Bech32Decode(s)
	if !k || len(d) < 1 {
		return
	}
	p, k := From5(d[1:])
	if !k || !SegwitAllowed(d[0], p) {
		return
	}
	return h, d[0], p, true
}
