package props

import (
	"bytes"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xbase"
)

func init() { mc.Register("C02", c02) }

// c02text compares both decoders with the model; it returns whether the segwit decoder must accept.
func c02text(c *mc.Ctx, s string) (bool, bool) {
	wh, wd, wok := ref.Bech32Decode(s)
	h, d, err := xbase.Bech32Decode(s)
	c.Step(2)
	c.Valid(2)
	c.Check((err == nil) == wok, "bech32-accept", "Bech32Decode(%q) err=%v, BIP173 accepts=%v", s, err, wok)
	if wok {
		c.Check(h == wh && bytes.Equal(d, wd), "bech32-value", "Bech32Decode(%q) = %q,%x want %q,%x", s, h, d, wh, wd)
	}
	sh, sv, sp, sok := ref.SegwitDecode(s)
	gh, gv, gp, err := xbase.WitnessDecode(s)
	c.Check((err == nil) == sok, "segwit-accept", "WitnessDecode(%q) = %q,%d,%x,%v; BIP173 accepts=%v", s, gh, gv, gp, err, sok)
	if sok {
		c.Check(gh == sh && gv == sv && bytes.Equal(gp, sp), "segwit-value", "WitnessDecode(%q) = %q,%d,%x want %q,%d,%x", s, gh, gv, gp, sh, sv, sp)
	}
	return wok, sok
}

func c02encode(c *mc.Ctx, hrp string, ver byte, prog []byte) string {
	want := ref.SegwitEncode(hrp, ver, prog)
	in := clone(prog)
	got, err := xbase.WitnessEncode(hrp, ver, prog)
	c.Step(1)
	c.Valid(1)
	c.Check(err == nil && got == want, "encode", "WitnessEncode(%q,%d,%x) = %q,%v want %q", hrp, ver, prog, got, err, want)
	c.Check(bytes.Equal(in, prog), "input-modified", "WitnessEncode changed its program argument")
	return got
}

var b32chars = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func c02progs(n int) [][]byte {
	return [][]byte{rep(0, n), rep(0xff, n), seq(1, n), cat(rep(0, n-1), []byte{1}), cat([]byte{0x80}, rep(0, n-1)), rep(0xa5, n)}
}

func c02(r *mc.Run) {
	hrps := []string{"bc", "tb", "bcrt", "a", "11", "x1y", "?~!", "abcdefghijklmnopqrstuvwxyz0123456"}
	r.Explore("encode-decode", mc.Opts{}, func(c *mc.Ctx) {
		hrp := hrps[c.Pick("hrp", len(hrps))]
		ver := byte(c.Pick("version", 17))
		n := 2 + c.Pick("len", 39)
		ps := c02progs(n)
		prog := ps[c.Pick("content", len(ps))]
		if !ref.SegwitAllowed(ver, prog) || len(hrp)+1+1+(n*8+4)/5+6 > 90 {
			c.Skip()
		}
		s := c02encode(c, hrp, ver, prog)
		c.StateS(s)
		_, ok := c02text(c, s)
		c.Check(ok, "harness", "model rejects its own encoding %q", s)
		_, ok = c02text(c, strings.ToUpper(s))
		c.Check(ok, "harness", "model rejects upper case %q", s)
		c.Outcome("accepted")
	})
	// every last 5-bit digit, every version digit, every number of digits: padding and length rules
	r.Explore("structure", mc.Opts{}, func(c *mc.Ctx) {
		hrp := []string{"bc", "tb", "q"}[c.Pick("hrp", 3)]
		n := c.Pick("digits", 72)
		fill := byte(c.Pick("fill", 2) * 31)
		if n == 0 {
			c02text(c, ref.Bech32Encode(hrp, nil))
			return
		}
		d := rep(fill, n)
		for v := 0; v < 32; v++ {
			d[0] = byte(v)
			for last := 0; last < 32; last++ {
				if n > 1 {
					d[n-1] = byte(last)
				}
				s := ref.Bech32Encode(hrp, d)
				c.StateS(s)
				if _, ok := c02text(c, s); ok {
					c.Outcome("accepted")
				} else {
					c.Outcome("rejected")
				}
			}
		}
	})
	// raw bech32 encoding of every digit sequence shape, and refusal of digits >= 32
	r.Explore("bech32-encode", mc.Opts{}, func(c *mc.Ctx) {
		hrp := hrps[c.Pick("hrp", len(hrps))]
		n := c.Pick("digits", 40)
		pos := c.Pick("pos", n+1)
		for v := 0; v < 256; v++ {
			d := rep(3, n)
			if pos < n {
				d[pos] = byte(v)
			} else if v > 0 {
				break
			}
			bad := pos < n && v >= 32
			got, err := xbase.Bech32Encode(hrp, d)
			c.Step(1)
			c.Valid(1)
			if bad {
				c.Check(err != nil, "encode-digit", "Bech32Encode(%q,%x) accepted a digit over 31: %q", hrp, d, got)
				continue
			}
			want := ref.Bech32Encode(hrp, d)
			c.Check(err == nil && got == want, "bech32-encode", "Bech32Encode(%q,%x) = %q,%v want %q", hrp, d, got, err, want)
			c.StateS(got)
			if len(got) <= 90 {
				c02text(c, got)
			}
		}
	})
	// hrp of every single byte; hrp lengths up to and over the limit; total lengths 0..95
	r.Explore("hrp", mc.Opts{}, func(c *mc.Ctx) {
		k := c.Pick("kind", 3)
		switch k {
		case 0:
			for x := 0; x < 256; x++ {
				for _, h := range []string{string([]byte{byte(x)}), string([]byte{'b', byte(x)}), string([]byte{byte(x), 'C'})} {
					c.StateS(h)
					c02text(c, ref.Bech32Encode(h, []byte{}))
					c02text(c, ref.SegwitEncode(h, 0, seq(0, 20)))
				}
			}
		case 1:
			n := c.Pick("hrplen", 95)
			d := c.Pick("digits", 20)
			c02text(c, ref.Bech32Encode(strings.Repeat("k", n), rep(9, d)))
			c02text(c, ref.Bech32Encode(strings.Repeat("1", n), rep(9, d)))
		case 2:
			n := c.Pick("hrplen", 60)
			c02text(c, ref.SegwitEncode(strings.Repeat("z", n), 0, seq(1, 20)))
			c02text(c, ref.SegwitEncode(strings.Repeat("z", n), 0, seq(1, 32)))
			c02text(c, ref.SegwitEncode(strings.Repeat("z", n), 1, seq(1, 2)))
		}
	})
	bases := []string{ref.SegwitEncode("bc", 0, seq(0x75, 20)), ref.SegwitEncode("tb", 0, seq(0x10, 32)), ref.SegwitEncode("bc", 16, []byte{0x75, 0x1e}),
		strings.ToUpper(ref.SegwitEncode("bc", 0, rep(0, 20))), ref.SegwitEncode("bcrt", 1, rep(0xff, 40))}
	r.Explore("edits", mc.Opts{}, func(c *mc.Ctx) {
		s := bases[c.Pick("base", len(bases))]
		pos := c.Pick("pos", len(s)+1)
		kind := c.Pick("edit", 5)
		switch kind {
		case 0:
			if pos == len(s) {
				c.Skip()
			}
			for x := 0; x < 256; x++ {
				t := s[:pos] + string([]byte{byte(x)}) + s[pos+1:]
				c.StateS(t)
				_, ok := c02text(c, t)
				if t != s && pos > strings.LastIndexByte(s, '1') {
					c.Check(!ok || byte(x) == '1', "harness", "single substitution %q valid", t)
				}
			}
		case 1:
			if pos < len(s) {
				c02text(c, s[:pos]+s[pos+1:])
			}
		case 2:
			for x := 0; x < 256; x++ {
				c02text(c, s[:pos]+string([]byte{byte(x)})+s[pos:])
			}
		case 3:
			for q := pos + 1; q < len(s); q++ {
				b := []byte(s)
				b[pos], b[q] = b[q], b[pos]
				c02text(c, string(b))
			}
		case 4: // case flips: one character, a prefix, a suffix
			if pos == len(s) {
				c.Skip()
			}
			fl := func(x string) string {
				if strings.ToUpper(x) == x {
					return strings.ToLower(x)
				}
				return strings.ToUpper(x)
			}
			c02text(c, s[:pos]+fl(s[pos:pos+1])+s[pos+1:])
			c02text(c, fl(s[:pos])+s[pos:])
			c02text(c, s[:pos]+fl(s[pos:]))
			c02text(c, s[:pos])
			c02text(c, s[pos:])
		}
	})
	// every checksum of a text that differs from the right one in few bits or by a constant known from related
	// encodings (all of the 2^30 checksums of short texts in the thorough tier)
	r.Explore("checksums", mc.Opts{}, func(c *mc.Ctx) {
		texts := []string{ref.SegwitEncode("bc", 1, []byte{0x75, 0x1e}), ref.SegwitEncode("bc", 1, seq(0x33, 32)), ref.SegwitEncode("tb", 0, seq(1, 20)), ref.SegwitEncode("bc", 16, []byte{1, 2}),
			ref.SegwitEncode("tb", 2, rep(0, 16)), ref.Bech32Encode("a", nil), strings.ToUpper(ref.SegwitEncode("tb", 1, seq(0x33, 32))), ref.SegwitEncode("bc", 0, rep(0xff, 32))}
		s := texts[c.Pick("text", len(texts))]
		try := func(x uint32) {
			b := []byte(strings.ToLower(s))
			for i := 0; i < 6; i++ {
				p := len(b) - 6 + i
				b[p] = b32chars[byte(strings.IndexByte(b32chars, b[p]))^byte(x>>uint(25-5*i)&31)]
			}
			t := string(b)
			if s != strings.ToLower(s) {
				t = strings.ToUpper(t)
			}
			_, _, err := xbase.Bech32Decode(t)
			c.Step(1)
			c.Valid(1)
			if err == nil {
				c.Fail("checksum", "Bech32Decode accepts %q whose checksum differs from the right one by %08x", t, x)
			}
			if _, _, _, err = xbase.WitnessDecode(t); err == nil {
				c.Fail("segwit-checksum", "WitnessDecode accepts %q whose checksum differs from the right one by %08x", t, x)
			}
		}
		c.StateS(s)
		hi := c.Pick("high bits", 32)
		if !r.Quick() && (s == texts[0] || s == texts[5]) {
			for x := uint32(hi) << 25; x < uint32(hi+1)<<25; x++ {
				if x != 0 {
					try(x)
				}
			}
			return
		}
		if hi == 0 {
			for _, x := range []uint32{0x2bc830a3 ^ 1, 1, 0x3fffffff, 0x3ffffffe, 0x2bc830a3, 0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3, 0x3fffffff ^ 1 ^ 0x2bc830a3} {
				try(x)
			}
		}
		for i := uint(0); i < 30; i++ {
			for j := i; j < 30; j++ {
				for k := j; k < 30; k++ {
					if x := uint32(1)<<i | 1<<j | 1<<k; x>>25 == uint32(hi) {
						try(x)
						try(x ^ (0x2bc830a3 ^ 1))
						try(x ^ 0x3fffffff)
					}
				}
			}
		}
	})
	// error detection: all double substitutions of data characters (triples and bursts in the thorough tier)
	det := func(c *mc.Ctx, s string, pos []int, diff []byte) {
		b := []byte(s)
		for i, p := range pos {
			b[p] = b32chars[byte(strings.IndexByte(b32chars, b[p]))^diff[i]]
		}
		_, _, err := xbase.Bech32Decode(string(b))
		_, _, _, err2 := xbase.WitnessDecode(string(b))
		c.Step(2)
		c.Valid(1)
		c.Check(err != nil && err2 != nil, "undetected", "%d substitutions of %q accepted: %q", len(pos), s, b)
	}
	r.Explore("double-substitutions", mc.Opts{}, func(c *mc.Ctx) {
		bi := c.Pick("base", r.Q(1, 3))
		s := bases[bi]
		st := strings.LastIndexByte(s, '1') + 1
		p := st + c.Pick("p", len(s)-st-1)
		q := p + 1 + c.Pick("q", len(s)-p-1)
		c.StateU(uint64(bi), uint64(p), uint64(q))
		for a := byte(1); a < 32; a++ {
			for b := byte(1); b < 32; b++ {
				det(c, s, []int{p, q}, []byte{a, b})
			}
		}
	})
	r.Explore("triple-substitutions", mc.Opts{}, func(c *mc.Ctx) {
		s := bases[0]
		st := strings.LastIndexByte(s, '1') + 1
		if r.Quick() {
			s = bases[2] // a 15-character text: all triples of its 10 data characters
			st = strings.LastIndexByte(s, '1') + 1
		}
		p := st + c.Pick("p", len(s)-st-2)
		q := p + 1 + c.Pick("q", len(s)-p-2)
		t := q + 1 + c.Pick("t", len(s)-q-1)
		c.StateU(uint64(p), uint64(q), uint64(t))
		for a := byte(1); a < 32; a++ {
			for b := byte(1); b < 32; b++ {
				for d := byte(1); d < 32; d++ {
					det(c, s, []int{p, q, t}, []byte{a, b, d})
				}
			}
		}
	})
	r.Explore("quadruple-substitutions", mc.Opts{}, func(c *mc.Ctx) {
		s := bases[0]
		st := strings.LastIndexByte(s, '1') + 1
		diffs := []byte{1, 16, 31}
		if r.Quick() {
			diffs = []byte{1}
		}
		p := st + c.Pick("p", len(s)-st-3)
		q := p + 1 + c.Pick("q", len(s)-p-3)
		t := q + 1 + c.Pick("t", len(s)-q-2)
		u := t + 1 + c.Pick("u", len(s)-t-1)
		c.StateU(uint64(p), uint64(q), uint64(t), uint64(u))
		for _, a := range diffs {
			for _, b := range diffs {
				for _, d := range diffs {
					for _, e := range diffs {
						det(c, s, []int{p, q, t, u}, []byte{a, b, d, e})
					}
				}
			}
		}
	})
}
