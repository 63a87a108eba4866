package props

import (
	"bytes"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xbase"
)

func init() { mc.Register("C01", c01) }

func c01raw(c *mc.Ctx, b []byte) {
	want := ref.B58Encode(b)
	got := xbase.Base58Encode(b)
	c.Step(1)
	c.Valid(1)
	c.Check(got == want, "encode", "Base58Encode(%x) = %q, want %q", b, got, want)
	back := xbase.Base58Decode(got)
	c.Step(1)
	c.Valid(1)
	c.Check(bytes.Equal(back, b), "roundtrip", "Base58Decode(Base58Encode(%x)) = %x", b, back)
}

func c01check(c *mc.Ctx, b []byte, ver byte) {
	want := ref.B58CheckEncode(b, ver)
	in := clone(b)
	got := xbase.Base58CheckEncode(b, ver)
	c.Step(2)
	c.Valid(2)
	c.Check(bytes.Equal(in, b), "input-modified", "Base58CheckEncode changed its input %x to %x", in, b)
	c.Check(got == want, "check-encode", "Base58CheckEncode(%x,%d) = %q, want %q", b, ver, got, want)
	p, v, err := xbase.Base58CheckDecode(got)
	c.Check(err == nil && v == ver && bytes.Equal(p, b), "check-roundtrip", "Base58CheckDecode(%q) = %x,%d,%v want %x,%d", got, p, v, err, b, ver)
}

// c01text compares the decoder with the model on an arbitrary text.
func c01text(c *mc.Ctx, s string) bool {
	c.StateS(s)
	wp, wv, ok := ref.B58CheckDecode(s)
	p, v, err := xbase.Base58CheckDecode(s)
	c.Step(2)
	c.Valid(2)
	c.Check((err == nil) == ok, "check-accept", "Base58CheckDecode(%q) err=%v, reference accepts=%v", s, err, ok)
	if ok {
		c.Check(v == wv && bytes.Equal(p, wp), "check-value", "Base58CheckDecode(%q) = %x,%d want %x,%d", s, p, v, wp, wv)
		c.Check(xbase.Base58CheckEncode(p, v) == s, "canonical", "%q accepted but not the encoding of its result", s)
	}
	wr, rok := ref.B58Decode(s)
	r := xbase.Base58Decode(s)
	if rok {
		c.Check(bytes.Equal(r, wr), "raw-value", "Base58Decode(%q) = %x want %x", s, r, wr)
	} else {
		c.Check(len(r) == 0, "raw-accept", "Base58Decode(%q) = %x for a text with a character outside the alphabet", s, r)
	}
	return ok
}

var b58chars = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func c01(r *mc.Run) {
	// every string of length <= n over a small alphabet of bytes
	al := []byte{0, 1, 0x39, 0x3a, 0xff}
	r.Explore("raw-small", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("len", r.Q(7, 9))
		b := make([]byte, n)
		for i := range b {
			b[i] = al[c.Pick("byte", len(al))]
		}
		c.State(b)
		c.Logf("bytes %x", b)
		c01raw(c, b)
		c01check(c, b, 0)
		c01check(c, b, 0x6f)
	})
	// all strings of two bytes, all strings of three bytes starting with anything (thorough)
	r.Explore("raw-full-bytes", mc.Opts{}, func(c *mc.Ctx) {
		n := 1 + c.Pick("len", r.Q(2, 3))
		b := make([]byte, n)
		for i := 0; i < n-1; i++ {
			b[i] = byte(c.Pick("byte", 256))
		}
		for x := 0; x < 256; x++ {
			b[n-1] = byte(x)
			c.State(b)
			c01raw(c, b)
		}
	})
	fills := []byte{1, 0x7f, 0x80, 0xff}
	r.Explore("shapes", mc.Opts{}, func(c *mc.Ctx) {
		zeros := c.Pick("zeros", r.Q(6, 40))
		n := c.Pick("body", r.Q(85, 200))
		fill := fills[c.Pick("fill", len(fills))]
		tz := c.Pick("trailing-zeros", 3)
		b := cat(rep(0, zeros), rep(fill, n), rep(0, tz))
		c.State(b)
		c01raw(c, b)
		c01check(c, b, byte(zeros))
	})
	// every length up to the bound, and some long ones
	long := []int{}
	for n := 0; n <= r.Q(700, 2500); n++ {
		long = append(long, n)
	}
	for _, n := range []int{1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 10000, 20000} {
		if !r.Quick() || n < 4097 {
			long = append(long, n)
		}
	}
	r.Explore("lengths", mc.Opts{}, func(c *mc.Ctx) {
		n := long[c.Pick("length", len(long))]
		kind := c.Pick("content", 4)
		b := [][]byte{rep(0, n), rep(0xff, n), seq(1, n), cat(rep(0, n/2), rep(9, n-n/2))}[kind]
		c.StateU(uint64(n), uint64(kind))
		c01raw(c, b)
		if n%16 == 0 {
			c01check(c, b, byte(n))
		}
	})
	// all versions x payload lengths used by the library
	r.Explore("versions", mc.Opts{}, func(c *mc.Ctx) {
		n := []int{0, 1, 20, 32, 33, 78}[c.Pick("len", 6)]
		kind := c.Pick("content", 4)
		b := [][]byte{rep(0, n), rep(0xff, n), seq(1, n), cat(rep(0, n/2), rep(9, n-n/2))}[kind]
		for v := 0; v < 256; v++ {
			c.StateU(uint64(n), uint64(kind), uint64(v))
			c01check(c, b, byte(v))
		}
	})
	bases := []struct {
		p []byte
		v byte
	}{{seq(1, 20), 0}, {rep(0, 20), 5}, {seq(0xe0, 20), 0x6f}, {nil, 0}, {cat(rep(0, 3), seq(7, 29)), 0x80}, {seq(3, 77), 4}, {rep(0xff, 20), 0xc4}}
	r.Explore("edits", mc.Opts{}, func(c *mc.Ctx) {
		bi := c.Pick("base", len(bases))
		s := ref.B58CheckEncode(bases[bi].p, bases[bi].v)
		kind := c.Pick("edit", 6)
		pos := c.Pick("pos", len(s)+1)
		switch kind {
		case 0: // substitution by every byte
			if pos == len(s) {
				c.Skip()
			}
			for x := 0; x < 256; x++ {
				t := s[:pos] + string([]byte{byte(x)}) + s[pos+1:]
				ok := c01text(c, t)
				c.Check(ok == (t == s), "edit", "text %q with one substitution accepted as %q", s, t)
			}
		case 1: // deletion
			if pos == len(s) {
				c.Skip()
			}
			c01text(c, s[:pos]+s[pos+1:])
		case 2: // insertion
			for x := 0; x < 256; x++ {
				c01text(c, s[:pos]+string([]byte{byte(x)})+s[pos:])
			}
		case 3: // transposition with every later position
			for q := pos + 1; q < len(s); q++ {
				b := []byte(s)
				b[pos], b[q] = b[q], b[pos]
				c01text(c, string(b))
			}
		case 5: // characters outside ASCII that resemble digits: same low byte, full-width forms, overlong encodings, marks
			if pos == len(s) {
				c.Skip()
			}
			ch := rune(s[pos])
			for _, x := range []string{string(0x100 + ch), string(0x400 + ch), string(0xff00 + ch), string(0x10000 + ch), string(0xff00 + ch - 0x20),
				string([]byte{0xc0 | byte(ch>>6), 0x80 | byte(ch&0x3f)}), "\u0301", "\u200b", "\ufeff", "\xff", "\x80"} {
				ok := c01text(c, s[:pos]+x+s[pos+1:])
				c.Check(!ok, "edit", "text %q with %q at %d accepted", s, x, pos)
				c01text(c, s[:pos]+x+s[pos:])
			}
		case 4: // truncation and duplication of a suffix
			c01text(c, s[:pos])
			c01text(c, s+s[pos:])
			c01text(c, s[pos:])
		}
	})
	// raw strings whose checksum is wrong in exactly one byte, every byte and value; and every bit of the payload
	r.Explore("checksum-bytes", mc.Opts{}, func(c *mc.Ctx) {
		bi := c.Pick("base", len(bases))
		raw := append([]byte{bases[bi].v}, bases[bi].p...)
		raw = append(raw, ref.Sha256d(raw)[:4]...)
		pos := c.Pick("pos", len(raw))
		for d := 1; d < 256; d++ {
			b := clone(raw)
			b[pos] ^= byte(d)
			s := ref.B58Encode(b)
			c.Check(!c01text(c, s), "checksum", "corrupted raw %x accepted", b)
		}
	})
	// raw decoded lengths 0..8 with a valid checksum over whatever precedes it, to probe the minimum length
	r.Explore("short-raw", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("covered", 4)
		fill := byte(c.Pick("fill", 256))
		b := rep(fill, n)
		raw := append(clone(b), ref.Sha256d(b)[:4]...)
		c01text(c, ref.B58Encode(raw))
		for k := 0; k <= len(raw); k++ {
			c01text(c, ref.B58Encode(raw[:k]))
			c01text(c, ref.B58Encode(raw[k:]))
		}
	})
	txt := b58chars + "0OIl \x00\xff"
	r.Explore("short-texts", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("len", r.Q(4, 5))
		b := make([]byte, n)
		for i := 0; i < n-1; i++ {
			b[i] = txt[c.Pick("char", len(txt))]
		}
		if n == 0 {
			c01text(c, "")
			return
		}
		for i := 0; i < len(txt); i++ {
			b[n-1] = txt[i]
			c01text(c, string(b))
		}
	})
}
