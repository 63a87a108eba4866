package props

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/xbase"
)

func init() { mc.Register("C04", c04) }

type bufVal struct {
	op int
	u  uint64
	b  []byte
}

const (
	bU8 = iota
	bU16
	bU32
	bU64
	bVarInt
	bBytes
	bVarBytes
	bVarString
	bOps
)

var bNames = []string{"U8", "U16", "U32", "U64", "VarInt", "Bytes", "VarBytes", "VarString"}

func c04vals(full bool) []bufVal {
	vs := []bufVal{{bU8, 0, nil}, {bU8, 0xff, nil}, {bU16, 0x0102, nil}, {bU16, 0xffff, nil}, {bU32, 0x01020304, nil}, {bU32, 0xffffffff, nil},
		{bU64, 0x0102030405060708, nil}, {bU64, 1<<64 - 1, nil}, {bVarInt, 0, nil}, {bVarInt, 252, nil}, {bVarInt, 253, nil}, {bVarInt, 65535, nil},
		{bVarInt, 65536, nil}, {bVarInt, 1<<32 - 1, nil}, {bVarInt, 1 << 32, nil}, {bVarInt, 1<<64 - 1, nil},
		{bBytes, 0, []byte{}}, {bBytes, 0, seq(1, 3)}, {bVarBytes, 0, []byte{}}, {bVarBytes, 0, seq(5, 2)}, {bVarBytes, 0, rep(0xfd, 252)}, {bVarBytes, 0, rep(0xfe, 253)},
		{bVarString, 0, []byte{}}, {bVarString, 0, []byte("ab\x00\xff")}}
	if full {
		for _, v := range []uint64{1, 0x7f, 0x80, 251, 254, 255, 256, 257, 0x7fff, 0x8000, 65534, 65537, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 2} {
			vs = append(vs, bufVal{bVarInt, v, nil}, bufVal{bU64, v, nil}, bufVal{bU32, v & 0xffffffff, nil}, bufVal{bU16, v & 0xffff, nil}, bufVal{bU8, v & 0xff, nil})
		}
		for _, n := range []int{1, 75, 76, 251, 252, 253, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 70000} {
			vs = append(vs, bufVal{bVarBytes, 0, rep(0x31, n)}, bufVal{bVarString, 0, rep(0x32, n)}, bufVal{bBytes, 0, rep(0x33, n)})
		}
	}
	return vs
}

func refWrite(b []byte, v bufVal) []byte {
	switch v.op {
	case bU8:
		return append(b, byte(v.u))
	case bU16:
		return binary.LittleEndian.AppendUint16(b, uint16(v.u))
	case bU32:
		return ref.U32(b, uint32(v.u))
	case bU64:
		return ref.U64(b, v.u)
	case bVarInt:
		return ref.PutVarInt(b, v.u)
	case bBytes:
		return append(b, v.b...)
	}
	return ref.PutVarBytes(b, v.b)
}

func realWrite(buf *xbase.Buffer, v bufVal) {
	switch v.op {
	case bU8:
		buf.WriteU8(uint8(v.u))
	case bU16:
		buf.WriteU16(uint32(v.u))
	case bU32:
		buf.WriteU32(uint32(v.u))
	case bU64:
		buf.WriteU64(v.u)
	case bVarInt:
		buf.WriteVarInt(v.u)
	case bBytes, bVarBytes:
		p := clone(v.b)
		if v.op == bBytes {
			buf.WriteBytes(p)
		} else {
			buf.WriteVarBytes(p)
		}
		for i := range p { // the buffer must have copied
			p[i] ^= 0xff
		}
	case bVarString:
		buf.WriteVarString(string(v.b))
	}
}

func realRead(buf *xbase.Buffer, op, n int) (v bufVal, err error) {
	v.op = op
	switch op {
	case bU8:
		x, e := buf.ReadU8()
		v.u, err = uint64(x), e
	case bU16:
		x, e := buf.ReadU16()
		v.u, err = uint64(x), e
	case bU32:
		x, e := buf.ReadU32()
		v.u, err = uint64(x), e
	case bU64:
		v.u, err = buf.ReadU64()
	case bVarInt:
		v.u, err = buf.ReadVarInt()
	case bBytes:
		v.b, err = buf.ReadBytes(n)
	case bVarBytes:
		v.b, err = buf.ReadVarBytes()
	case bVarString:
		s, e := buf.ReadVarString()
		v.b, err = []byte(s), e
	}
	return
}

// refRead is the model of a read at position pos of data.
func refRead(data []byte, pos, op, n int) (v bufVal, next int, ok bool) {
	v.op = op
	rest := data[pos:]
	fixed := func(k int) bool {
		if len(rest) < k {
			return false
		}
		for i := k - 1; i >= 0; i-- {
			v.u = v.u<<8 | uint64(rest[i])
		}
		next = pos + k
		return true
	}
	switch op {
	case bU8:
		ok = fixed(1)
	case bU16:
		ok = fixed(2)
	case bU32:
		ok = fixed(4)
	case bU64:
		ok = fixed(8)
	case bVarInt:
		u, k, good := ref.GetVarInt(rest)
		v.u, next, ok = u, pos+k, good
	case bBytes:
		if n >= 0 && n <= len(rest) {
			v.b, next, ok = rest[:n], pos+n, true
		}
	default:
		u, k, good := ref.GetVarInt(rest)
		if good && u <= uint64(len(rest)-k) {
			v.b, next, ok = rest[k:k+int(u)], pos+k+int(u), true
		}
	}
	return
}

func c04state(c *mc.Ctx, buf *xbase.Buffer, data []byte, pos int) {
	c.Check(bytes.Equal(buf.Bytes(), data), "bytes", "buffer holds %s, want %s", hx(buf.Bytes()), hx(data))
	c.Check(buf.Len() == len(data) && buf.Seek() == pos && buf.End() == (pos >= len(data)) && bytes.Equal(buf.Remaining(), data[pos:]), "cursor",
		"len=%d seek=%d end=%v remaining=%s; want len=%d seek=%d", buf.Len(), buf.Seek(), buf.End(), hx(buf.Remaining()), len(data), pos)
}

func c04(r *mc.Run) {
	vals := c04vals(false)
	big := c04vals(true)
	// write sequences, reads interleaved after any write (a pending value may be read back at any time)
	r.Explore("write-read", mc.Opts{}, func(c *mc.Ctx) {
		n := 1 + c.Pick("ops", r.Q(3, 4))
		buf := xbase.NewBuffer()
		if c.Bool("reused") { // start from a non-initial state
			buf.WriteU32(7)
			buf.WriteVarBytes(rep(1, 40))
			_, _ = buf.ReadU16()
			buf.Reset()
			c04state(c, buf, nil, 0)
		}
		var data []byte
		var pend []bufVal
		pos := 0
		read := func() {
			v := pend[0]
			pend = pend[1:]
			got, err := realRead(buf, v.op, len(v.b))
			_, next, ok := refRead(data, pos, v.op, len(v.b))
			c.Step(1)
			c.Valid(1)
			c.Check(ok, "harness", "model cannot read back")
			c.Check(err == nil && got.u == v.u && bytes.Equal(got.b, v.b), "read-back", "wrote %s %d %s, read %d %s, %v (buffer %s at %d)", bNames[v.op], v.u, hx(v.b), got.u, hx(got.b), err, hx(data), pos)
			pos = next
			for i := range got.b {
				got.b[i] ^= 0xff // the result must not alias the buffer
			}
			c04state(c, buf, data, pos)
		}
		for i := 0; i < n; i++ {
			v := vals[c.Pick("value", len(vals))]
			realWrite(buf, v)
			data = refWrite(data, v)
			pend = append(pend, v)
			c.Step(1)
			c.Valid(1)
			c.Logf("write %s %d %s", bNames[v.op], v.u, hx(v.b))
			c04state(c, buf, data, pos)
			if i < n-1 && c.Bool("read-now") {
				read()
			}
		}
		for len(pend) > 0 {
			read()
		}
		c.Check(buf.End(), "end", "not at the end after reading everything")
		for _, op := range []int{bU8, bVarInt, bVarBytes, bU64} {
			_, err := realRead(buf, op, 1)
			c.Check(err != nil, "past-end", "read %s past the end succeeded", bNames[op])
		}
		c.State(data)
	})
	r.Explore("boundary-values", mc.Opts{}, func(c *mc.Ctx) {
		v := big[c.Pick("value", len(big))]
		pre := big[c.Pick("before", r.Q(30, len(big)))]
		post := c.Pick("after", 2)
		buf := xbase.NewBuffer()
		realWrite(buf, pre)
		realWrite(buf, v)
		data := refWrite(refWrite(nil, pre), v)
		if post == 1 {
			realWrite(buf, bufVal{bU16, 0xbeef, nil})
			data = refWrite(data, bufVal{bU16, 0xbeef, nil})
		}
		c04state(c, buf, data, 0)
		rd := xbase.NewBufferReader(clone(data))
		for _, w := range []bufVal{pre, v} {
			got, err := realRead(rd, w.op, len(w.b))
			c.Step(2)
			c.Valid(2)
			c.Check(err == nil && got.u == w.u && bytes.Equal(got.b, w.b), "read-back", "wrote %s %d, read %d %s %v", bNames[w.op], w.u, got.u, hx(got.b), err)
		}
		c.Check(len(rd.Remaining()) == post*2, "remaining", "%d bytes left, want %d", len(rd.Remaining()), post*2)
		if v.op == bVarInt {
			c.Check(xbase.VarIntSerializeSize(v.u) == len(refWrite(nil, v)), "varint-size", "VarIntSerializeSize(%d) = %d", v.u, xbase.VarIntSerializeSize(v.u))
		}
		c.State(data)
	})
	// what was read stays as it is, whatever happens to the buffer or to the array under it
	r.Explore("own-memory", mc.Opts{}, func(c *mc.Ctx) {
		sizes := []int{1, 2, 3, 31, 32, 33, 75, 76, 252, 253, 255, 256, 519, 520, 521, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 10001, 65535, 65536, 65537, 70000}
		n := sizes[c.Pick("size", len(sizes))]
		op := []int{bBytes, bVarBytes, bVarString, bOps}[c.Pick("op", 4)]
		built := c.Bool("built by writes")
		then := c.Pick("then", 4)
		var data []byte
		want := make([]byte, n)
		for i := range want {
			want[i] = byte(i*7 + i>>8)
		}
		data = append(data, 9)
		switch op {
		case bVarBytes, bVarString:
			data = ref.PutVarBytes(data, want)
		default:
			data = append(data, want...)
		}
		if op != bOps {
			data = append(data, 1, 2, 3)
		}
		arr := append(make([]byte, 0, len(data)+200), data...)
		var buf *xbase.Buffer
		if built {
			buf = xbase.NewBuffer()
			buf.WriteBytes(arr)
		} else {
			buf = xbase.NewBufferReader(arr)
		}
		_, err := buf.ReadU8()
		c.Check(err == nil, "own-memory", "the first byte: %v", err)
		var got []byte
		if op == bOps {
			got = buf.Remaining()
		} else {
			var v bufVal
			v, err = realRead(buf, op, n)
			got = v.b
		}
		c.Check(err == nil && bytes.Equal(got, want), "own-memory", "reading %d bytes: %v", n, err)
		switch then {
		case 0: // the caller uses the array again
			for i := range arr {
				arr[i] ^= 0x55
			}
		case 1: // the buffer goes on
			for i := 0; i < 60; i++ {
				buf.WriteU8(0xee)
			}
			_, _ = buf.ReadBytes(2)
		case 2: // the caller changes the contents
			for b, i := buf.Bytes(), 0; i < len(b); i++ {
				b[i] = 0x77
			}
		case 3: // the caller appends to what was read
			_ = append(got, 0xab, 0xcd, 0xef)
			got = got[:n]
			c.Check(bytes.Equal(buf.Bytes(), data), "own-memory", "appending to %d bytes read changed the buffer", n)
		}
		c.Step(1)
		c.Valid(1)
		c.StateU(uint64(n)<<8 | uint64(op)<<4 | uint64(then))
		c.Check(bytes.Equal(got, want), "own-memory", "%s of %d bytes changed afterwards (%d)", map[int]string{bBytes: "ReadBytes", bVarBytes: "ReadVarBytes", bVarString: "ReadVarString", bOps: "Remaining"}[op], n, then)
	})
	r.Explore("varint-sizes", mc.Opts{}, func(c *mc.Ctx) {
		sh := uint(c.Pick("shift", 65))
		for d := int64(-300); d <= 300; d++ {
			v := uint64(0)
			if sh < 64 {
				v = 1 << sh
			}
			v += uint64(d)
			want := ref.PutVarInt(nil, v)
			buf := xbase.NewBuffer()
			buf.WriteVarInt(v)
			got, err := buf.ReadVarInt()
			c.Step(3)
			c.Valid(3)
			c.StateU(v)
			c.Check(bytes.Equal(buf.Bytes(), want) && err == nil && got == v && xbase.VarIntSerializeSize(v) == len(want), "varint", "varint %d: bytes %x, read %d %v, size %d", v, buf.Bytes(), got, err, xbase.VarIntSerializeSize(v))
		}
	})
	// read sequences over every truncation of adversarial contents
	heads := [][]byte{{}, {0}, {3}, {0xfc}, {0xfd, 2, 0}, {0xfd, 0xff, 0xff}, {0xfe, 1, 0, 0, 0}, {0xfe, 0xff, 0xff, 0xff, 0xff}, {0xfe, 0xff, 0xff, 0xff, 0x7f},
		{0xfe, 0, 0, 0, 0x80}, {0xff, 1, 0, 0, 0, 0, 0, 0, 0}, rep(0xff, 9), {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0xff, 0, 0, 0, 0, 0, 0, 0, 0x80},
		{0xff, 0, 0, 0, 0, 1, 0, 0, 0}, {0xff, 0xfe, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xff, 0xf0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0xff, 0xf7, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}}
	tails := [][]byte{{}, {0xaa}, seq(0x40, 12), {0xfd, 1, 0, 9, 9}}
	r.Explore("read-sequences", mc.Opts{}, func(c *mc.Ctx) {
		data := cat(heads[c.Pick("head", len(heads))], tails[c.Pick("tail", len(tails))])
		data = data[:len(data)-c.Pick("cut", len(data)+1)]
		back := append(clone(data), 0xEE, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE) // spare bytes behind the slice
		buf := xbase.NewBufferReader(back[:len(data)])
		c.State(data)
		pos, failed := 0, false
		d := 1 + c.Pick("depth", r.Q(3, 4))
		lens := []int{0, 1, 2, 3, 1 << 30, 1<<63 - 1, -1, -1 << 63}
		for i := 0; i < d; i++ {
			op := c.Pick("op", bOps)
			n := 0
			if op == bBytes {
				n = lens[c.Pick("n", len(lens))]
			}
			got, err := realRead(buf, op, n)
			c.Step(1)
			c.Valid(1)
			c.Logf("read %s(%d) of %x at %d -> %d %x %v", bNames[op], n, data, pos, got.u, got.b, err)
			if failed {
				c.Check(buf.Seek() >= 0 && buf.Seek() <= len(data), "cursor-range", "cursor %d outside the buffer of %d after an error", buf.Seek(), len(data))
				if err == nil && len(got.b) > 0 {
					c.Check(bytes.Contains(data, got.b), "foreign-bytes", "read returned %x, not in %x", got.b, data)
				}
				continue
			}
			w, next, ok := refRead(data, pos, op, n)
			c.Check((err == nil) == ok, "read-accept", "%s(%d) at %d of %x: %v; model ok=%v", bNames[op], n, pos, data, err, ok)
			if !ok {
				failed = true
				c.Outcome("error")
				continue
			}
			c.Outcome("value")
			c.Check(got.u == w.u && bytes.Equal(got.b, w.b), "read-value", "%s(%d) at %d of %x = %d %x want %d %x", bNames[op], n, pos, data, got.u, got.b, w.u, w.b)
			pos = next
			c04state(c, buf, data, pos)
		}
	})
	// every content of up to 2 bytes (3 in the thorough tier) under every single read
	r.Explore("all-short-contents", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("len", r.Q(3, 4))
		op := c.Pick("op", bOps)
		data := make([]byte, n)
		for i := 0; i+1 < n; i++ {
			data[i] = byte(c.Pick("byte", 256))
		}
		for x := 0; x < 256; x++ {
			if n > 0 {
				data[n-1] = byte(x)
			}
			for k := 0; k < 4; k++ {
				if op != bBytes && k > 0 {
					break
				}
				buf := xbase.NewBufferReader(data)
				got, err := realRead(buf, op, k)
				w, next, ok := refRead(data, 0, op, k)
				c.Step(1)
				c.Valid(1)
				c.StateS(fmt.Sprint(op, k, data))
				c.Check((err == nil) == ok, "read-accept", "%s(%d) of %x: %v; model ok=%v", bNames[op], k, data, err, ok)
				if ok {
					c.Check(got.u == w.u && bytes.Equal(got.b, w.b) && buf.Seek() == next, "read-value", "%s(%d) of %x = %d %x want %d %x", bNames[op], k, data, got.u, got.b, w.u, w.b)
				}
			}
		}
	})
}
