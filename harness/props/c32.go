package props

import (
	"bytes"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"hash"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
	"github.com/keyfuse/tokucore/xcrypto/ripemd160"
)

func init() { mc.Register("C32", c32) }

// refHMAC and refPBKDF2 are RFC 2104 and RFC 8018 written out over a one-shot hash function.
func refHMAC(sum func([]byte) []byte, block int, key, msg []byte) []byte {
	if len(key) > block {
		key = sum(key)
	}
	in, out := make([]byte, block), make([]byte, block)
	copy(in, key)
	copy(out, key)
	for i := range in {
		in[i] ^= 0x36
		out[i] ^= 0x5c
	}
	return sum(append(out, sum(append(in, msg...))...))
}

func refPBKDF2(sum func([]byte) []byte, block int, pass, salt []byte, iter, n int) []byte {
	var dk []byte
	for i := uint32(1); len(dk) < n; i++ {
		u := refHMAC(sum, block, pass, cat(salt, []byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)}))
		t := clone(u)
		for j := 1; j < iter; j++ {
			u = refHMAC(sum, block, pass, u)
			for k := range t {
				t[k] ^= u[k]
			}
		}
		dk = append(dk, t...)
	}
	return dk[:n]
}

type hash32 struct {
	name  string
	h     func() hash.Hash
	sum   func([]byte) []byte
	block int
}

var hashes32 = []hash32{
	{"sha512", sha512.New, func(b []byte) []byte { s := sha512.Sum512(b); return s[:] }, 128},
	{"sha256", sha256.New, ref.Sha256, 64},
	{"ripemd160", ripemd160.New, ref.Ripemd160, 64},
	{"sha1", sha1.New, func(b []byte) []byte { s := sha1.Sum(b); return s[:] }, 64},
}

func data32(kind, n int) []byte {
	switch kind {
	case 0:
		return seq(1, n)
	case 1:
		return make([]byte, n)
	case 2:
		return rep(0xff, n)
	}
	b := make([]byte, n)
	x := uint32(2463534242)
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x >> 11)
	}
	return b
}

func c32(r *mc.Run) {
	maxLen := r.Q(520, 2200)
	r.Explore("one-shot: every length", mc.Opts{}, func(c *mc.Ctx) {
		kind := c.Pick("contents", 4)
		n := c.Pick("length", maxLen+1)
		m := data32(kind, n)
		buf := append(make([]byte, 0, n+64), m...)
		spare := buf[n : n+64]
		for i := range spare {
			spare[i] = 0xa5
		}
		for _, f := range []struct {
			name string
			f    func([]byte) []byte
			want []byte
		}{
			{"Ripemd160", xcrypto.Ripemd160, ref.Ripemd160(m)},
			{"Sha256", xcrypto.Sha256, ref.Sha256(m)},
			{"DoubleSha256", xcrypto.DoubleSha256, ref.Sha256(ref.Sha256(m))},
			{"Hash160", xcrypto.Hash160, ref.Hash160(m)},
		} {
			got := f.f(buf)
			c.Step(1)
			c.Check(bytes.Equal(got, f.want), "digest", "%s of %d bytes (contents %d) = %x, want %x", f.name, n, kind, got, f.want)
			c.Check(bytes.Equal(buf, m) && bytes.Equal(spare, rep(0xa5, 64)), "modified", "%s changed the memory of its argument", f.name)
		}
		c.State(buf)
		c.Valid(1)
	})

	// a digest depends on nothing but the message: not on nearly the same message before it
	r.Explore("one-shot: one message after another", mc.Opts{Serial: true}, func(c *mc.Ctx) {
		n := []int{0, 1, 20, 21, 22, 31, 32, 33, 34, 55, 56, 63, 64, 65, 71, 78, 80, 128, 200}[c.Pick("length", 19)]
		type fn struct {
			name   string
			f, ref func([]byte) []byte
		}
		f := []fn{{"Ripemd160", xcrypto.Ripemd160, ref.Ripemd160}, {"Sha256", xcrypto.Sha256, ref.Sha256},
			{"DoubleSha256", xcrypto.DoubleSha256, dsha}, {"Hash160", xcrypto.Hash160, ref.Hash160}}[c.Pick("hash", 4)]
		m := data32(3, n)
		var near [][]byte
		for i := range m {
			for _, x := range []byte{1, 0x80} {
				o := clone(m)
				o[i] ^= x
				near = append(near, o)
			}
		}
		near = append(near, append(clone(m), 0), append([]byte{0}, m...))
		if n > 0 {
			near = append(near, m[:n-1], m[1:])
		}
		first := f.f(m)
		for _, o := range near {
			a, b := f.f(o), f.f(m)
			c.Step(2)
			c.Check(bytes.Equal(a, f.ref(o)), "history", "%s of %x after that of %x is %x, want %x", f.name, o, m, a, f.ref(o))
			c.Check(bytes.Equal(b, f.ref(m)) && bytes.Equal(first, b), "history", "%s of %x after that of %x is %x, at first it was %x, want %x", f.name, m, o, b, first, f.ref(m))
		}
		c.Valid(1)
		c.StateU(uint64(n))
	})

	// all ways of cutting the message, with a digest taken at every cut
	r.Explore("ripemd160: every cut", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("length", r.Q(200, 330)+1)
		kind := c.Pick("contents", r.Q(1, 2))
		m := data32(3*kind, n)
		want := ref.Ripemd160(m)
		third := !r.Quick()
		for i := 0; i <= n; i++ {
			js := []int{i, n, i + (n-i)/2}
			if third {
				js = nil
				for j := i; j <= n; j++ {
					js = append(js, j)
				}
			}
			for _, j := range js {
				h := ripemd160.New()
				k, err := h.Write(m[:i])
				c.Check(k == i && err == nil, "write", "Write of %d bytes returned %d, %v", i, k, err)
				mid := h.Sum([]byte{1, 2, 3})
				h.Write(m[i:j])
				h.Write(m[j:])
				c.Step(1)
				if got := h.Sum(nil); !bytes.Equal(got, want) {
					c.Fail("split", "%d bytes written as %d+%d+%d: %x, want %x", n, i, j-i, n-j, got, want)
				}
				if j == i && !bytes.Equal(mid, cat([]byte{1, 2, 3}, ref.Ripemd160(m[:i]))) {
					c.Fail("mid-stream", "digest taken after %d of %d bytes: %x", i, n, mid)
				}
			}
		}
		c.State(want)
		c.Valid(1)
	})

	// histories: every sequence of write / sum / reset, mirrored by the plain list of bytes written
	sizes := []int{0, 1, 7, 55, 56, 63, 64, 65, 119, 128, 129}
	r.Explore("ripemd160: histories", mc.Opts{}, func(c *mc.Ctx) {
		h := ripemd160.New()
		var log []byte
		next := byte(0)
		depth := r.Q(5, 6)
		prefix := make([]byte, 3, 64)
		for d := 0; d < depth; d++ {
			op := c.Pick("operation", len(sizes)+3)
			switch {
			case op < len(sizes):
				b := seq(next, sizes[op])
				next += 37
				k, err := h.Write(b)
				log = append(log, b...)
				if k != len(b) || err != nil {
					c.Fail("write", "Write returned %d, %v", k, err)
				}
			case op == len(sizes):
				h.Reset()
				log = nil
			case op == len(sizes)+1:
				if got := h.Sum(nil); !bytes.Equal(got, ref.Ripemd160(log)) {
					c.Fail("history", "digest of %d bytes: %x", len(log), got)
				}
			default: // into a buffer with room behind
				if got := h.Sum(prefix); !bytes.Equal(got, cat(prefix, ref.Ripemd160(log))) {
					c.Fail("history", "digest of %d bytes appended: %x", len(log), got)
				}
			}
			c.Step(1)
		}
		if got := h.Sum(nil); !bytes.Equal(got, ref.Ripemd160(log)) {
			c.Fail("history", "digest of %d bytes at the end: %x", len(log), got)
		}
		if h.Size() != 20 || h.BlockSize() != 64 {
			c.Fail("sizes", "Size %d, BlockSize %d", h.Size(), h.BlockSize())
		}
		c.State(log)
		c.Valid(1)
	})

	// two digests being written in turn share nothing
	r.Explore("ripemd160: two digests interleaved", mc.Opts{}, func(c *mc.Ctx) {
		hs := []hash.Hash{ripemd160.New(), ripemd160.New()}
		logs := make([][]byte, 2)
		for d := 0; d < r.Q(7, 9); d++ {
			k := c.Pick("which", 2)
			n := []int{1, 64, 70}[c.Pick("bytes", 3)]
			b := seq(byte(d*31), n)
			hs[k].Write(b)
			logs[k] = append(logs[k], b...)
			c.Step(1)
		}
		for k := range hs {
			if got := hs[k].Sum(nil); !bytes.Equal(got, ref.Ripemd160(logs[k])) {
				c.Fail("interleaved", "digest %d of %d bytes: %x", k, len(logs[k]), got)
			}
		}
		c.State(cat(logs[0], []byte{0}, logs[1]))
		c.Valid(1)
	})

	// long messages: the bit count crosses 2^16, 2^24 and 2^32
	longs := []struct {
		n    int
		want string
	}{
		{1 << 13, ""}, {1<<13 + 1, ""}, {1<<16 - 1, ""}, {1 << 16, ""}, {1 << 21, ""}, {1<<21 + 5, ""},
		{1<<29 + 3, long32},
	}
	if !r.Quick() {
		longs = append(longs, struct {
			n    int
			want string
		}{1<<30 + 63, longer32}, struct {
			n    int
			want string
		}{1<<32 + 65, "417cf1dde53b6aca9393220b6c649744606cd331"})
	}
	r.Explore("ripemd160: long messages", mc.Opts{Serial: true}, func(c *mc.Ctx) {
		l := longs[c.Pick("length", len(longs))]
		chunk := []int{1<<20 + 1, 1 << 20}[c.Pick("chunk", 2)]
		if l.want != "" && chunk == 1<<20 {
			c.Skip()
		}
		want := unhex(l.want)
		if l.want == "" {
			want = ref.Ripemd160(data32(2, l.n))
		}
		h := ripemd160.New()
		buf := data32(2, chunk)
		for left := l.n; left > 0; {
			k := chunk
			if k > left {
				k = left
			}
			h.Write(buf[:k])
			left -= k
		}
		c.Step(l.n / 64)
		got := h.Sum(nil)
		c.Check(bytes.Equal(got, want), "long", "%d bytes of ff: %x, want %x", l.n, got, want)
		c.StateS(fmt.Sprint(l.n))
		c.Valid(1)
	})

	// PBKDF2
	lens := []int{0, 1, 8, 19, 20, 21, 31, 32, 33, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 200}
	iters := []int{1, 2, 3, 7}
	keys := []int{0, 1, 19, 20, 21, 31, 32, 33, 63, 64, 65, 96, 128, 129, 200}
	if !r.Quick() {
		lens = nil
		for i := 0; i <= 140; i++ {
			lens = append(lens, i)
		}
	}
	r.Explore("pbkdf2: lengths", mc.Opts{}, func(c *mc.Ctx) {
		hh := hashes32[c.Pick("hash", len(hashes32))]
		pass := data32(3, lens[c.Pick("password", len(lens))])
		salt := data32(0, lens[c.Pick("salt", len(lens))])
		for _, it := range iters {
			ns := keys
			if it > 2 || (!r.Quick() && len(pass)%16 > 1) {
				ns = []int{20, 64, 65}
			}
			full := refPBKDF2(hh.sum, hh.block, pass, salt, it, 200)
			for _, n := range ns {
				p, s := append(make([]byte, 0, len(pass)+16), pass...), append(make([]byte, 0, len(salt)+16), salt...)
				got := pbkdf2.Key(p, s, it, n, hh.h)
				c.Step(1)
				if !bytes.Equal(got, full[:n]) {
					c.Fail("pbkdf2", "%s, password %d bytes, salt %d bytes, %d iterations, %d bytes of key: %s, want %s", hh.name, len(pass), len(salt), it, n, hx(got), hx(full[:n]))
				}
				if !bytes.Equal(p, pass) || !bytes.Equal(s, salt) || !bytes.Equal(s[len(s):cap(s)], make([]byte, cap(s)-len(s))) || !bytes.Equal(p[len(p):cap(p)], make([]byte, cap(p)-len(p))) {
					c.Fail("modified", "pbkdf2 changed the memory of its arguments")
				}
			}
		}
		c.State(cat([]byte(hh.name), []byte{byte(len(pass)), byte(len(salt))}))
		c.Valid(1)
	})
	big := []struct{ iter, n int }{{1000, 64}, {2048, 64}, {2048, 130}, {255, 40}, {256, 40}, {257, 40}, {1, 255 * 64}, {1, 256 * 64}, {1, 257*64 + 1}, {2, 257*20 + 1}}
	if !r.Quick() {
		big = append(big, []struct{ iter, n int }{{1, 65535 * 20}, {1, 65536*20 + 1}, {1, 65536*64 + 1}, {65536, 20}, {65537, 20}, {100000, 64}}...)
	}
	r.Explore("pbkdf2: many iterations and blocks", mc.Opts{}, func(c *mc.Ctx) {
		hh := hashes32[c.Pick("hash", len(hashes32))]
		b := big[c.Pick("size", len(big))]
		pass := data32(3, []int{8, 200}[c.Pick("password", 2)])
		salt := []byte("mnemonic salt")
		got := pbkdf2.Key(pass, salt, b.iter, b.n, hh.h)
		c.Step(b.iter)
		want := refPBKDF2(hh.sum, hh.block, pass, salt, b.iter, b.n)
		c.Check(bytes.Equal(got, want), "pbkdf2", "%s, %d iterations, %d bytes of key: the key differs", hh.name, b.iter, b.n)
		c.StateS(fmt.Sprint(hh.name, b, len(pass)))
		c.Valid(1)
	})
}

// RIPEMD-160 of 2^29+3 and of 2^30+63 bytes ff, from the reference implementation and from OpenSSL
const long32 = "c5ff13aa7e3237f69187569397aa242ba34a22d3"
const longer32 = "9e45524f00f82c3f4a66340b3bacfc2e4af54a8e"
