package props

import (
	"bytes"
	"math"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xvm"
)

func init() { mc.Register("C12", c12) }

func c12(r *mc.Run) {
	r.Assume("numbers are 64-bit; decoding with a length limit above eight bytes, for values outside 64 bits, has no defined value (existing tests pin a truncation)")
	// one integer: encoding, decoding with every length limit, narrowing
	one := func(c *mc.Ctx, n int64) {
		c.Step(1)
		c.Valid(1)
		want := ref.NumBytes(n)
		got := xvm.ScriptNum(n).Bytes()
		if !bytes.Equal(got, want) {
			c.Fail("encode", "ScriptNum(%d).Bytes() = %x, want %x", n, got, want)
		}
		w32 := n
		if n > math.MaxInt32 {
			w32 = math.MaxInt32
		}
		if n < math.MinInt32 {
			w32 = math.MinInt32
		}
		if x := xvm.ScriptNum(n).Int32(); int64(x) != w32 {
			c.Fail("int32", "ScriptNum(%d).Int32() = %d, want %d", n, x, w32)
		}
		if len(want) > 8 {
			return
		}
		for lim := 0; lim <= 8; lim++ {
			v, err := xvm.MakeScriptNum(want, lim)
			if (err == nil) != (len(want) <= lim) {
				c.Fail("limit", "MakeScriptNum(%x, %d): error = %v", want, lim, err)
			}
			if err == nil && int64(v) != n {
				c.Fail("decode", "MakeScriptNum(%x, %d) = %d, want %d", want, lim, v, n)
			}
		}
	}
	span := int64(r.Q(1<<18, 1<<25))
	r.Explore("small-integers", mc.Opts{}, func(c *mc.Ctx) {
		k := int64(c.Pick("block", 256))
		w := 2 * span / 256
		for n := -span + k*w; n < -span+(k+1)*w; n++ {
			one(c, n)
		}
		one(c, span)
		c.StateU(uint64(k))
	})
	r.Explore("powers", mc.Opts{}, func(c *mc.Ctx) {
		k := uint(c.Pick("power", 64))
		half := c.Bool("and the power below")
		for d := int64(-300); d <= 300; d++ {
			n := int64(uint64(1)<<k) + d
			if half {
				n += int64(uint64(1) << (k / 2))
			}
			one(c, n)
			one(c, -n)
			one(c, n*3)
		}
		c.StateU(uint64(k))
	})
	// one byte string, every limit
	str := func(c *mc.Ctx, b []byte) {
		c.Step(1)
		c.Valid(1)
		for lim := 0; lim <= 8; lim++ {
			n, ok := ref.Num(b, lim)
			v, err := xvm.MakeScriptNum(clone(b), lim)
			if (err == nil) != ok {
				c.Fail("accept", "MakeScriptNum(%x, %d): error = %v, want success = %v", b, lim, err, ok)
			}
			if ok && int64(v) != n {
				c.Fail("decode", "MakeScriptNum(%x, %d) = %d, want %d", b, lim, v, n)
			}
			if err != nil && v != 0 {
				c.Fail("error-value", "MakeScriptNum(%x, %d) = %d with an error", b, lim, v)
			}
		}
	}
	r.Explore("short-strings", mc.Opts{}, func(c *mc.Ctx) {
		a := byte(c.Pick("first byte", 256))
		str(c, nil)
		str(c, []byte{a})
		for b := 0; b < 256; b++ {
			str(c, []byte{a, byte(b)})
			for d := 0; d < 256; d++ {
				if r.Quick() && d > 3 && d < 0x7c && d%16 != 0 {
					continue
				}
				str(c, []byte{a, byte(b), byte(d)})
			}
		}
		c.StateU(uint64(a))
	})
	alpha := []byte{0, 1, 0x7f, 0x80, 0x81, 0xff}
	r.Explore("boundary-strings", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("length", 8) + 3
		// the last four bytes and the first take every value of the alphabet; the middle bytes are equal
		b := make([]byte, n)
		mid := alpha[c.Pick("middle", len(alpha))]
		for i := range b {
			b[i] = mid
		}
		b[0] = alpha[c.Pick("first", len(alpha))]
		k := 3
		if n > 3 {
			k = 4
		}
		for i := 0; i < k-1; i++ {
			b[n-1-i] = alpha[c.Pick("byte", len(alpha))]
		}
		str(c, b)
		c.State(b)
	})
}
