package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"time"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xprotocol"
)

func init() { mc.Register("C27", c27) }

var errIO = errors.New("transport failed")

type tmoErr struct{}

func (tmoErr) Error() string   { return "i/o timeout" }
func (tmoErr) Timeout() bool   { return true }
func (tmoErr) Temporary() bool { return true }

// memConn is a transport held in memory. Reads hand out in, never across a cut, and then end; writes are recorded, and
// fail once limit bytes were taken.
type memConn struct {
	in      []byte
	pos     int
	cuts    []int // positions a read stops at
	one     bool  // one byte a read
	end     error // after the last byte
	with    bool  // the end is reported together with the last bytes
	out     []byte
	limit   int // bytes taken before writes fail; < 0: all
	wend    error
	dlr     error // SetReadDeadline fails
	dlw     error
	closed  bool
	reads   int
	written int // calls of Write
}

func (m *memConn) Read(p []byte) (int, error) {
	m.reads++
	if m.pos == len(m.in) {
		return 0, m.end
	}
	stop := len(m.in)
	for _, c := range m.cuts {
		if c > m.pos && c < stop {
			stop = c
		}
	}
	if m.one {
		stop = m.pos + 1
	}
	n := copy(p, m.in[m.pos:stop])
	m.pos += n
	if m.with && m.pos == len(m.in) {
		return n, m.end
	}
	return n, nil
}

func (m *memConn) Write(p []byte) (int, error) {
	m.written++
	if m.limit >= 0 && len(m.out)+len(p) > m.limit {
		n := m.limit - len(m.out)
		m.out = append(m.out, p[:n]...)
		return n, m.wend
	}
	m.out = append(m.out, p...)
	return len(p), nil
}

type memAddr string

func (a memAddr) Network() string { return "mem" }
func (a memAddr) String() string  { return string(a) }

func (m *memConn) Close() error                       { m.closed = true; return nil }
func (m *memConn) LocalAddr() net.Addr                { return memAddr("local") }
func (m *memConn) RemoteAddr() net.Addr               { return memAddr("remote") }
func (m *memConn) SetDeadline(t time.Time) error      { return nil }
func (m *memConn) SetReadDeadline(t time.Time) error  { return m.dlr }
func (m *memConn) SetWriteDeadline(t time.Time) error { return m.dlw }

// readAll reads messages until the stream reports an error; a message together with an error is not delivered.
func readAll(st *xprotocol.Stream, max int) (msgs []xprotocol.Message, err error) {
	for i := 0; i <= max; i++ {
		var m xprotocol.Message
		if m, err = st.ReadMessage(); err != nil {
			return
		}
		msgs = append(msgs, m)
	}
	return msgs, nil
}

// expectRead checks that exactly the messages want are read, and then an error.
func expectRead(c *mc.Ctx, conn *memConn, magic []byte, want []*pMsg, what string) {
	st := xprotocol.NewStream(conn, magic)
	msgs, err := readAll(st, len(want)+1)
	c.Step(len(msgs) + 1)
	if err == nil {
		c.Fail("no-error", "%s: %d messages were read and the end was not reported", what, len(msgs))
		return
	}
	if len(msgs) != len(want) {
		c.Fail("count", "%s: %d messages were read (then %v), want %d", what, len(msgs), err, len(want))
		return
	}
	for i := range msgs {
		if e := want[i].same(msgs[i]); e != nil {
			c.Fail("content", "%s: message %d (%s): %v", what, i, want[i].name, e)
		}
	}
}

func c27(r *mc.Run) {
	ms := protoMsgs()
	magic := clone(network.MainNet.Magic)
	pick := func(c *mc.Ctx, max int) ([]*pMsg, []byte) {
		n := 1 + c.Pick("messages", max)
		var l []*pMsg
		var b []byte
		for i := 0; i < n; i++ {
			p := &ms[c.Pick("message", len(ms))]
			l = append(l, p)
			b = append(b, p.frame(magic)...)
			c.Logf("message %s", p.name)
		}
		return l, b
	}
	// Writing: the bytes are the protocol's.
	r.Explore("written", mc.Opts{}, func(c *mc.Ctx) {
		l, b := pick(c, 3)
		conn := &memConn{limit: -1, end: io.EOF}
		st := xprotocol.NewStream(conn, magic)
		n := 0
		for i, p := range l {
			if err := st.WriteMessage(p.msg); err != nil {
				c.Fail("write", "writing %s: %v", p.name, err)
				return
			}
			n += 24 + len(p.payload)
			if len(conn.out) != n {
				c.Fail("flush", "after message %d (%s) %d bytes were sent, want %d", i, p.name, len(conn.out), n)
			}
		}
		if !bytes.Equal(conn.out, b) {
			c.Fail("frame", "sent %s, want %s", hx(conn.out), hx(b))
		}
		c.Valid(1)
		c.Step(len(l))
	})
	// Reading under every single split, and in single bytes.
	r.Explore("one-split", mc.Opts{}, func(c *mc.Ctx) {
		l, b := pick(c, r.Q(2, 3))
		with := c.Bool("end with data")
		expectRead(c, &memConn{in: b, one: true, end: io.EOF, with: with}, magic, l, "single bytes")
		for s := 0; s < len(b); s++ {
			if len(l) == 3 && s%5 != 0 && s > 30 {
				continue
			}
			expectRead(c, &memConn{in: b, cuts: []int{s}, end: io.EOF, with: with}, magic, l, fmt.Sprintf("split at %d", s))
		}
		c.Valid(1)
	})
	// Every pair of splits of one message.
	r.Explore("two-splits", mc.Opts{}, func(c *mc.Ctx) {
		l, b := pick(c, 1)
		i := 1 + c.Pick("first", 260)
		if i >= len(b) {
			c.Skip()
		}
		for s := i + 1; s < len(b); s++ {
			expectRead(c, &memConn{in: b, cuts: []int{i, s}, end: io.EOF}, magic, l, fmt.Sprintf("splits at %d, %d", i, s))
		}
		c.Valid(1)
	})
	// The stream ends or fails at every byte.
	ends := []error{io.EOF, io.ErrUnexpectedEOF, errIO, tmoErr{}, net.ErrClosed, io.ErrClosedPipe}
	r.Explore("faults", mc.Opts{}, func(c *mc.Ctx) {
		l, b := pick(c, r.Q(2, 3))
		e := c.Pick("error", len(ends))
		with := c.Bool("with data")
		bound := 0
		done := 0
		for k := 0; k <= len(b); k++ {
			if done < len(l) && k == bound+24+len(l[done].payload) {
				bound = k
				done++
			}
			if len(l) == 3 && k%7 != 0 && k-bound > 25 {
				continue
			}
			conn := &memConn{in: b[:k], end: ends[e], with: with}
			expectRead(c, conn, magic, l[:done], fmt.Sprintf("%v after %d bytes", ends[e], k))
		}
		c.Valid(1)
	})
	// Every bit of header and payload: magic, length, checksum and payload corruption are errors; the command is not
	// covered by the checksum, but never crashes, nor is a payload made up.
	r.Explore("corruption", mc.Opts{}, func(c *mc.Ctx) {
		p := &ms[c.Pick("message", len(ms))]
		b := p.frame(magic)
		tail := ms[1].frame(magic)
		for k := range b {
			for bit := 0; bit < 8; bit++ {
				q := clone(b)
				q[k] ^= 1 << bit
				for _, follow := range [][]byte{nil, tail} {
					st := xprotocol.NewStream(&memConn{in: append(clone(q), follow...), end: io.EOF}, magic)
					m, err := st.ReadMessage()
					c.Step(1)
					if k >= 4 && k < 16 {
						if err == nil {
							var cmd [12]byte
							copy(cmd[:], m.Command())
							if !bytes.Equal(cmd[:], q[4:16]) {
								c.Fail("command", "a message with command %q was read as %q", q[4:16], m.Command())
							}
						}
						continue
					}
					if err == nil {
						c.Fail("corrupt", "%s with byte %d bit %d flipped (%s) was accepted as %T", p.name, k, bit, hx(q), m)
					}
				}
			}
		}
		c.Valid(1)
	})
	// Command fields: every value of every byte, names moved, repeated and cut in the field, padding in the wrong place.
	r.Explore("commands", mc.Opts{}, func(c *mc.Ctx) {
		p := &ms[c.Pick("message", len(ms))]
		var f [12]byte
		copy(f[:], p.cmd)
		var fields [][12]byte
		for k := range f {
			for v := 0; v < 256; v++ {
				q := f
				q[k] = byte(v)
				fields = append(fields, q)
			}
		}
		for sh := 1; sh < 12; sh++ {
			for _, fill := range []byte{0, ' ', 'x'} {
				var right, left, tail [12]byte
				for k := range f {
					right[k], left[k], tail[k] = fill, fill, f[k]
					if k >= sh {
						right[k] = f[k-sh]
					}
					if k+sh < 12 {
						left[k] = f[k+sh]
					}
					if k >= sh {
						tail[k] = fill
					}
				}
				fields = append(fields, right, left, tail)
			}
			var gap [12]byte // a zero byte within
			copy(gap[:], f[:sh])
			copy(gap[sh+1:], f[sh:11])
			fields = append(fields, gap)
			if len(p.cmd)*2+1 <= 12 {
				var twice [12]byte
				copy(twice[:], p.cmd)
				copy(twice[len(p.cmd)+1:], p.cmd)
				fields = append(fields, twice)
			}
		}
		fields = append(fields, [12]byte{})
		up := f
		for k := range up {
			if up[k] >= 'a' && up[k] <= 'z' {
				up[k] -= 32
			}
		}
		fields = append(fields, up)
		b := p.frame(magic)
		for _, q := range fields {
			fr := clone(b)
			copy(fr[4:16], q[:])
			st := xprotocol.NewStream(&memConn{in: fr, end: io.EOF}, magic)
			m, err := st.ReadMessage()
			c.Step(1)
			if q == f {
				if err != nil || p.same(m) != nil {
					c.Fail("content", "%s: %v", p.name, err)
				}
				continue
			}
			if err == nil {
				var cmd [12]byte
				copy(cmd[:], m.Command())
				if len(m.Command()) > 12 || cmd != q {
					c.Fail("command", "a message with command field %q was read as %q (%T)", q[:], m.Command(), m)
				}
			}
		}
		c.Valid(len(fields))
	})
	r.Explore("payload-bytes", mc.Opts{}, func(c *mc.Ctx) {
		// Payload changes of every value, with the stated checksum; and well-checksummed payloads of a wrong length.
		p := &ms[c.Pick("message", len(ms))]
		b := p.frame(magic)
		for k := 20; k < len(b); k++ {
			for v := 0; v < 256; v++ {
				if byte(v) == b[k] {
					continue
				}
				q := clone(b)
				q[k] = byte(v)
				if m, err := xprotocol.NewStream(&memConn{in: q, end: io.EOF}, magic).ReadMessage(); err == nil {
					c.Fail("corrupt", "%s with byte %d set to %#x was accepted as %T", p.name, k, v, m)
				}
				c.Step(1)
			}
		}
		for k := 0; k < len(p.payload); k++ {
			q := *p
			q.payload = p.payload[:k]
			q.msg = nil
			m, err := xprotocol.NewStream(&memConn{in: q.frame(magic), end: io.EOF}, magic).ReadMessage()
			if err == nil && p.cmd != "tx" {
				c.Fail("cut-payload", "%s with only %d bytes of payload was accepted as %T", p.name, k, m)
			}
		}
		c.Valid(1)
	})
	// Other networks' magics.
	magics := [][]byte{magic, {0x0b, 0x11, 0x09, 0x07}, {0xfa, 0xbf, 0xb5, 0xda}, {0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}, {0xd9, 0xb4, 0xbe, 0xf9}}
	r.Explore("magics", mc.Opts{}, func(c *mc.Ctx) {
		mine := magics[c.Pick("mine", len(magics))]
		p := &ms[c.Pick("message", len(ms))]
		for pos := 0; pos < 4; pos++ {
			for v := 0; v < 256; v++ {
				their := clone(mine)
				their[pos] = byte(v)
				m, err := xprotocol.NewStream(&memConn{in: p.frame(their), end: io.EOF}, mine).ReadMessage()
				if bytes.Equal(their, mine) {
					if err != nil || p.same(m) != nil {
						c.Fail("content", "%s with magic %x: %v", p.name, mine, err)
					}
				} else if err == nil {
					c.Fail("magic", "a message with magic %x was accepted on a stream of %x", their, mine)
				}
				c.Step(1)
			}
		}
		for _, their := range magics {
			_, err := xprotocol.NewStream(&memConn{in: p.frame(their), end: io.EOF}, mine).ReadMessage()
			if (err == nil) != bytes.Equal(their, mine) {
				c.Fail("magic", "a message with magic %x on a stream of %x: %v", their, mine, err)
			}
		}
		// The magic must match on later messages too.
		bad := clone(mine)
		bad[3] ^= 0x80
		expectRead(c, &memConn{in: append(p.frame(mine), p.frame(bad)...), end: io.EOF}, mine, []*pMsg{p}, "second message with another magic")
		c.Valid(1)
	})
	// Announced sizes: nothing is allocated beyond the protocol's maximum.
	sizes := []uint32{0, 1, 23, 1000, 32 * 1024, 1 << 20, 4000000, 4000001, 16<<20 - 1, 32 << 20, 32<<20 + 1, 64 << 20, 1 << 27, 1 << 28, 1 << 30, 1<<31 - 1, 1 << 31, 1<<31 + 5, 3 << 30, 1<<32 - 1}
	cmds := []string{"version", "verack", "inv", "getdata", "getheaders", "headers", "tx", "block", "reject", "ping", "pong", "addr"}
	r.Explore("announced-sizes", mc.Opts{Serial: true}, func(c *mc.Ctx) {
		size := sizes[c.Pick("size", len(sizes))]
		cmd := cmds[c.Pick("command", len(cmds))]
		have := []int{0, 1, 100}[c.Pick("bytes there", 3)]
		var cb [12]byte
		copy(cb[:], cmd)
		b := cat(magic, cb[:], ref.U32(nil, size), dsha(make([]byte, have))[:4], make([]byte, have))
		var a, z runtime.MemStats
		runtime.ReadMemStats(&a)
		m, err := xprotocol.NewStream(&memConn{in: b, end: io.EOF}, magic).ReadMessage()
		runtime.ReadMemStats(&z)
		got := z.TotalAlloc - a.TotalAlloc
		c.Logf("size %d command %s: %d bytes allocated, %v", size, cmd, got, err)
		if err == nil && size > uint32(have) {
			c.Fail("short", "a %s message of %d bytes was read from %d", cmd, size, have)
			_ = m
		}
		if got > 33<<20 {
			c.Fail("alloc", "a %s header announcing %d bytes made ReadMessage allocate %d bytes", cmd, size, got)
		}
		c.Valid(1)
		c.Step(1)
	})
	// Large messages, around the buffer size and up to the largest blocks and inventories.
	big := []int{32*1024 - 25, 32*1024 - 24, 32*1024 - 23, 32*1024 - 1, 32 * 1024, 32*1024 + 1, 64*1024 - 48, 64 * 1024, 65535, 65536, 1 << 20, 4000000}
	if !r.Quick() {
		big = append(big, 8<<20, 32<<20)
	}
	r.Explore("large", mc.Opts{}, func(c *mc.Ctx) {
		n := big[c.Pick("size", len(big))]
		p := pTx(seq(9, n))
		if c.Bool("inventory") {
			p = pInv(min(n/36, 50000), 1)
		}
		b := append(append(ms[1].frame(magic), p.frame(magic)...), ms[2].frame(magic)...)
		var cuts []int
		ch := []int{1 << 30, 1448, 32 * 1024, 32*1024 + 1, 4096}[c.Pick("chunk", 5)]
		for k := ch; k < len(b); k += ch {
			cuts = append(cuts, k)
		}
		if len(cuts) > 400 {
			cuts = cuts[:400]
		}
		expectRead(c, &memConn{in: b, cuts: cuts, end: io.EOF}, magic, []*pMsg{&ms[1], &p, &ms[2]}, fmt.Sprintf("%s in chunks of %d", p.name, ch))
		conn := &memConn{limit: -1}
		if err := xprotocol.NewStream(conn, magic).WriteMessage(p.msg); err != nil || !bytes.Equal(conn.out, p.frame(magic)) {
			c.Fail("frame", "%s was sent wrong: %v", p.name, err)
		}
		c.Valid(1)
	})
	// The transport refuses writes at every byte: the send reports it.
	r.Explore("write-faults", mc.Opts{}, func(c *mc.Ctx) {
		l, b := pick(c, 2)
		e := []error{errIO, tmoErr{}, io.ErrClosedPipe}[c.Pick("error", 3)]
		for k := 0; k < len(b); k++ {
			conn := &memConn{limit: k, wend: e}
			st := xprotocol.NewStream(conn, magic)
			n, failed := 0, false
			for i, p := range l {
				n += 24 + len(p.payload)
				err := st.WriteMessage(p.msg)
				failed = failed || n > k
				if failed && err == nil {
					c.Fail("write-error-lost", "message %d (%s) was reported sent, but the transport failed after %d of its %d bytes", i, p.name, k, n)
				}
				if !failed && err != nil {
					c.Fail("write", "message %d (%s): %v", i, p.name, err)
				}
			}
			if !bytes.HasPrefix(b, conn.out) {
				c.Fail("frame", "sent %s, which does not begin %s", hx(conn.out), hx(b))
			}
			c.Step(1)
		}
		c.Valid(1)
	})
	r.Explore("deadlines", mc.Opts{}, func(c *mc.Ctx) {
		p := &ms[c.Pick("message", len(ms))]
		conn := &memConn{in: p.frame(magic), end: io.EOF, limit: -1, dlr: errIO}
		if m, err := xprotocol.NewStream(conn, magic).ReadMessage(); err == nil {
			c.Outcome(fmt.Sprintf("read in spite of the deadline error: %v", p.same(m)))
			if e := p.same(m); e != nil {
				c.Fail("content", "%s: %v", p.name, e)
			}
		}
		conn = &memConn{limit: -1, dlw: errIO}
		if err := xprotocol.NewStream(conn, magic).WriteMessage(p.msg); err == nil && !bytes.Equal(conn.out, p.frame(magic)) {
			c.Fail("frame", "%s was sent wrong", p.name)
		} else if err != nil && len(conn.out) > 0 {
			c.Outcome("error after bytes were sent")
		}
		c.Valid(1)
	})
	r.Explore("long-commands", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("length", 40)
		cmd := string(bytes.Repeat([]byte("m"), n))
		conn := &memConn{limit: -1, end: io.EOF}
		err := xprotocol.NewStream(conn, magic).WriteMessage(xprotocol.NewMsgUnhandle(cmd))
		if n > 12 {
			if err == nil || len(conn.out) > 0 {
				c.Fail("long-command", "a message with a command of %d bytes was sent as %s", n, hx(conn.out))
			}
			return
		}
		p := pUnhandle(cmd)
		if err != nil || !bytes.Equal(conn.out, p.frame(magic)) {
			c.Fail("frame", "command %q sent as %s: %v", cmd, hx(conn.out), err)
		}
		conn.in = conn.out
		m, err := xprotocol.NewStream(conn, magic).ReadMessage()
		if err != nil || m.Command() != cmd {
			c.Fail("command", "command %q read as %v: %v", cmd, m, err)
		}
		c.Valid(1)
	})
}
