package props

import (
	"bytes"
	"fmt"
	"strings"

	"verif/mc"
	"verif/ref"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xprotocol"
)

func init() { mc.Register("C28", c28) }

// c28Msgs is every kind of message with boundary contents.
func c28Msgs(r *mc.Run) []pMsg {
	ms := protoMsgs()
	u32s := []uint32{0, 1, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff}
	u64s := []uint64{0, 1, 0xff, 0x100, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	ports := []uint32{0, 1, 255, 256, 8333, 0x7fff, 0x8000, 0xfffe, 0xffff}
	for _, v := range u64s {
		ms = append(ms, pPing(v), pPong(v))
		for f := 0; f < 5; f++ {
			m := sampleVersion()
			*[]*uint64{&m.Services, &m.Timestamp, &m.ServicesYou, &m.ServicesMe, &m.Nonce}[f] = v
			ms = append(ms, pVersion(m))
		}
	}
	for _, v := range u32s {
		for f := 0; f < 2; f++ {
			m := sampleVersion()
			*[]*uint32{&m.Version, &m.LastBlock}[f] = v
			ms = append(ms, pVersion(m))
		}
		for f := 0; f < 4; f++ {
			h := hdr(1, 77)
			*[]*uint32{&h.Version, &h.Timestamp, &h.Bits, &h.Nonce}[f] = v
			p := pHeaders(0, 0)
			p.msg = &xprotocol.MsgHeaders{Headers: []*xprotocol.BlockHeader{h}}
			p.payload = append(append([]byte{1}, hdrBytes(h)...), 0)
			ms = append(ms, p)
		}
		ms = append(ms, pInv(1, v), pGetData(2, v))
	}
	for _, v := range ports {
		for f := 0; f < 2; f++ {
			m := sampleVersion()
			*[]*uint32{&m.PortYou, &m.PortMe}[f] = v
			ms = append(ms, pVersion(m))
		}
	}
	for _, b := range []byte{0, 1, 0x7f, 0x80, 0xff} {
		m := sampleVersion()
		m.Relay = b
		ms = append(ms, pVersion(m), pReject("block", b, "x", h32(int(b))), pReject("inv", b, "y", nil))
		m = sampleVersion()
		m.AddressYou, m.AddressMe = rep(b, 16), rep(^b, 16)
		ms = append(ms, pVersion(m))
	}
	for _, n := range []int{0, 1, 252, 253, 254, 255, 256, 65535, 65536} {
		m := sampleVersion()
		m.UserAgent = strings.Repeat("u", n)
		ms = append(ms, pVersion(m), pReject("block", 0x40, strings.Repeat("r", n), h32(n)), pReject(strings.Repeat("c", n), 0x40, "why", nil),
			pTx(seq(3, n)))
	}
	for _, n := range []int{0, 1, 2, 3, 252, 253, 254, 500, 1000, 1999, 2000} {
		ms = append(ms, pHeaders(n, uint32(n)), pGetHeaders(n), pInv(n, 1), pGetData(n, 2))
	}
	for _, n := range []int{65535, 65536, 65537, 49999, 50000} {
		if n <= 50000 {
			ms = append(ms, pInv(n, 1), pGetData(n, 2))
		} else {
			ms = append(ms, pGetHeaders(n))
		}
	}
	return ms
}

func c28(r *mc.Run) {
	ms := c28Msgs(r)
	// Encoding, size and decoding into a fresh message.
	r.Explore("contents", mc.Opts{}, func(c *mc.Ctx) {
		i := c.Pick("message", len(ms))
		p := &ms[i]
		c.Logf("%s", p.name)
		c.Valid(1)
		before := fmt.Sprintf("%+v", deref(p.msg))
		if n := p.msg.Size(); n != len(p.payload) {
			c.Fail("size:"+p.cmd, "%s reports %d bytes and encodes to %d", p.name, n, len(p.payload))
		}
		for k := 0; k < 2; k++ {
			if b := p.msg.Encode(); !bytes.Equal(b, p.payload) {
				c.Fail("encode:"+p.cmd, "%s (encoded for the %d. time) is %s, want %s", p.name, k+1, hx(b), hx(p.payload))
				return
			}
		}
		if n := p.msg.Size(); n != len(p.payload) {
			c.Fail("size:"+p.cmd, "%s reports %d bytes after it was encoded to %d", p.name, n, len(p.payload))
		}
		if after := fmt.Sprintf("%+v", deref(p.msg)); after != before {
			c.Fail("encode-changes:"+p.cmd, "encoding %s changed it from %s to %s", p.name, cut(before), cut(after))
		}
		if p.msg.Command() != p.cmd {
			c.Fail("command", "%s says it is %q", p.name, p.msg.Command())
		}
		in := clone(p.payload)
		got := p.fresh()
		if err := got.Decode(in); err != nil {
			c.Fail("decode:"+p.cmd, "%s is refused: %v", p.name, err)
			return
		}
		if !bytes.Equal(in, p.payload) {
			c.Fail("decode-changes", "decoding %s changed the payload", p.name)
		}
		if err := p.same(got); err != nil {
			c.Fail("decode:"+p.cmd, "%s decodes to %v", p.name, err)
		}
		if n := got.Size(); n != len(p.payload) {
			c.Fail("size:"+p.cmd, "%s decoded reports %d bytes and encodes to %d", p.name, n, len(p.payload))
		}
		c.State(p.payload)
		c.Step(1)
	})
	// Decoding a history of messages into one object: the last one counts. Failed decodings are part of the history.
	kinds := map[string][]int{}
	var names []string
	for i := range ms {
		if len(ms[i].payload) > 3000 {
			continue
		}
		k := ms[i].cmd
		if _, ok := ms[i].msg.(*xprotocol.MsgUnhandle); ok {
			continue
		}
		if kinds[k] == nil {
			names = append(names, k)
		}
		kinds[k] = append(kinds[k], i)
	}
	hist := r.Q(2, 3)
	r.Explore("reused", mc.Opts{}, func(c *mc.Ctx) {
		l := kinds[names[c.Pick("kind", len(names))]]
		if hist > 2 && len(l) > 24 {
			l = append(append([]int{}, l[:12]...), l[len(l)-12:]...)
		}
		m := ms[l[0]].fresh()
		steps := 1 + c.Pick("decoded before", hist)
		for k := 0; k < steps; k++ {
			p := &ms[l[c.Pick("message", len(l))]]
			if c.Bool("cut") {
				if len(p.payload) > 1 {
					m.Decode(clone(p.payload[:len(p.payload)-1]))
				}
				c.Logf("decoded %s without its last byte", p.name)
				continue
			}
			m.Decode(clone(p.payload))
			c.Logf("decoded %s", p.name)
		}
		for _, i := range l {
			p := &ms[i]
			if err := m.Decode(clone(p.payload)); err != nil {
				c.Fail("reuse:"+p.cmd, "a used message refuses %s: %v", p.name, err)
				return
			}
			if err := p.same(m); err != nil {
				c.Fail("reuse:"+p.cmd, "%s decoded into a used message: %v", p.name, err)
			}
			if m.Size() != len(p.payload) {
				c.Fail("reuse:"+p.cmd, "%s decoded into a used message reports %d bytes, want %d", p.name, m.Size(), len(p.payload))
			}
			c.Step(1)
		}
		c.Valid(1)
	})
	// Every truncation of every message is refused, unless what is left is itself the whole of a message of the kind.
	r.Explore("truncations", mc.Opts{}, func(c *mc.Ctx) {
		p := &ms[c.Pick("message", len(ms))]
		if p.cmd == "tx" || len(p.payload) == 0 {
			c.Skip()
		}
		c.Valid(1)
		step := 1
		if len(p.payload) > 3000 {
			step = len(p.payload)/67 + 1
		}
		for n := 0; n < len(p.payload); n += step {
			m := p.fresh()
			if err := m.Decode(clone(p.payload[:n])); err == nil {
				c.Fail("truncated:"+p.cmd, "the first %d of the %d bytes of %s are accepted", n, len(p.payload), p.name)
			}
			c.Step(1)
		}
		for n := 1; n < 34 && n < len(p.payload); n++ {
			if err := p.fresh().Decode(clone(p.payload[:len(p.payload)-n])); err == nil {
				c.Fail("truncated:"+p.cmd, "the first %d of the %d bytes of %s are accepted", len(p.payload)-n, len(p.payload), p.name)
			}
		}
	})
	// Every value of every count field.
	var counts []uint64
	for _, v := range []uint64{0, 1, 2, 3, 252, 253, 254, 1999, 2000, 2001, 49999, 50000, 50001, 65535, 65536, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<59 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1} {
		counts = append(counts, v)
	}
	spell := func(v uint64) [][]byte {
		o := [][]byte{ref.PutVarInt(nil, v)}
		if v < 0xfd {
			o = append(o, []byte{0xfd, byte(v), 0})
		}
		if v <= 0xffff {
			o = append(o, append([]byte{0xfe}, ref.U32(nil, uint32(v))...))
		}
		if v <= 0xffffffff {
			o = append(o, append([]byte{0xff}, ref.U64(nil, v)...))
		}
		return o
	}
	r.Explore("counts", mc.Opts{}, func(c *mc.Ctx) {
		v := counts[c.Pick("count", len(counts))]
		sps := spell(v)
		s := c.Pick("spelling", 4)
		if s >= len(sps) {
			c.Skip()
		}
		kind := c.Pick("field", 6)
		have := []int{0, 1, 2, 2000, 2001, 50000, 50001}[c.Pick("entries there", 7)]
		var head, entry, tail []byte
		var m xprotocol.Message
		limit := uint64(1) << 62
		switch kind {
		case 0:
			m, entry, limit = xprotocol.NewMsgInv(), append([]byte{1, 0, 0, 0}, h32(1)...), 50000
		case 1:
			m, entry, limit = xprotocol.NewMsgGetData(), append([]byte{1, 0, 0, 0}, h32(1)...), 50000
		case 2:
			m, entry, limit = xprotocol.NewMsgHeaders(), append(hdrBytes(hdr(1, 1)), 0), 2000
		case 3:
			m, entry, head, tail = xprotocol.NewMsgGetHeaders(network.MainNet), h32(1), ref.U32(nil, 70015), make([]byte, 32)
		case 4:
			m, entry, tail = &xprotocol.MsgReject{}, []byte("c"), []byte{0x10, 0}
		case 5:
			m, entry, head = &xprotocol.MsgReject{}, []byte("r"), []byte{3, 'i', 'n', 'v', 0x10}
		}
		b := append(append(clone(head), sps[s]...), append(bytes.Repeat(entry, have), tail...)...)
		err := m.Decode(b)
		c.Valid(1)
		c.Step(1)
		c.Logf("kind %d count %d entries %d: %v", kind, v, have, err)
		if err == nil && v > limit {
			c.Fail("over-limit", "a %s message of %d entries was accepted", m.Command(), v)
		}
		if err == nil && v > uint64(have+len(tail)) {
			c.Fail("short", "a %s message that announces %d entries and has %d was accepted", m.Command(), v, have)
		}
		if err == nil && v > uint64(have) && kind < 3 {
			c.Fail("short", "a %s message that announces %d entries and has %d was accepted", m.Command(), v, have)
		}
		if err != nil && v == uint64(have) && v <= limit && s == 0 {
			c.Fail("refused", "a well-formed %s message of %d entries was refused: %v", m.Command(), v, err)
		}
		if err == nil {
			// What was accepted has as many entries as announced.
			n := -1
			switch m := m.(type) {
			case *xprotocol.MsgInv:
				n = len(m.Invs)
			case *xprotocol.MsgGetData:
				n = len(m.InvList)
			case *xprotocol.MsgHeaders:
				n = len(m.Headers)
			}
			if n >= 0 && uint64(n) != v {
				c.Fail("count", "a %s message that announces %d entries was read as one of %d", m.Command(), v, n)
			}
			c.Outcome("accepted")
		} else {
			c.Outcome("refused")
		}
		c.StateU(v, uint64(kind), uint64(have), uint64(s))
	})
	// Adding entries, in every batching across the limit. A refused batch adds nothing.
	r.Explore("batches", mc.Opts{}, func(c *mc.Ctx) {
		kind := c.Pick("kind", 3)
		max := []int{50000, 50000, 2000}[kind]
		start := []int{0, 1, max / 2, max - 2, max - 1, max}[c.Pick("start", 6)]
		inv := xprotocol.NewMsgInv()
		gd := xprotocol.NewMsgGetData()
		hs := xprotocol.NewMsgHeaders()
		iv := xprotocol.NewInvVect(1, h32(1))
		h := hdr(1, 1)
		have := 0
		add := func(n int) error {
			ivs := make([]*xprotocol.InvVect, n)
			hds := make([]*xprotocol.BlockHeader, n)
			for i := 0; i < n; i++ {
				ivs[i], hds[i] = iv, h
			}
			switch kind {
			case 0:
				return inv.AddInvVect(ivs...)
			case 1:
				return gd.AddInvVect(ivs...)
			}
			return hs.AddBlockHeader(hds...)
		}
		count := func() int { return []int{len(inv.Invs), len(gd.InvList), len(hs.Headers)}[kind] }
		if start > 0 {
			if err := add(start); err != nil {
				c.Fail("refused", "kind %d: the first %d entries were refused: %v", kind, start, err)
				return
			}
			have = start
		}
		batches := []int{0, 1, 2, 3, max - start, max - start + 1, max, max + 1}
		for k := 0; k < r.Q(3, 4); k++ {
			n := batches[c.Pick("batch", len(batches))]
			if n > max && k > 0 && r.Quick() && max > 2000 {
				c.Skip()
			}
			err := add(n)
			c.Logf("%d + %d: %v", have, n, err)
			if (err == nil) != (have+n <= max) {
				c.Fail("limit", "kind %d: adding %d entries to %d (limit %d): %v", kind, n, have, max, err)
				return
			}
			if err == nil {
				have += n
			}
			if count() != have {
				c.Fail("limit", "kind %d: %d entries after a batch, want %d", kind, count(), have)
			}
			c.Step(1)
		}
		c.Valid(1)
		c.StateU(uint64(kind), uint64(have))
	})
	// New messages carry what the network prescribes, and block headers hash as Bitcoin's do.
	r.Explore("constructors", mc.Opts{}, func(c *mc.Ctx) {
		vals := []uint32{0, 1, 255, 256, 8333, 65535}
		n := *network.MainNet
		n.Port = vals[c.Pick("port", len(vals))]
		n.LastBlock = []uint32{0, 1, 100, 1<<32 - 1}[c.Pick("last", 4)]
		n.ProtocolVersion = []uint32{209, 70001, 70015, 70016}[c.Pick("version", 4)]
		n.UserAgent = []string{"", "/x/", strings.Repeat("u", 253)}[c.Pick("agent", 3)]
		m := xprotocol.NewMsgVersion(&n)
		c.Valid(1)
		if m.Version != n.ProtocolVersion || m.PortYou != n.Port || m.PortMe != n.Port || m.UserAgent != n.UserAgent || m.LastBlock != n.LastBlock {
			c.Fail("new-version", "a version message made for %+v is %+v", n, *m)
		}
		if !bytes.Equal(m.AddressYou, v4loop) || !bytes.Equal(m.AddressMe, v4loop) {
			c.Fail("new-version", "the addresses of a new version message are %x and %x, not the loopback address", m.AddressYou, m.AddressMe)
		}
		p := pVersion(m)
		if b := m.Encode(); !bytes.Equal(b, p.payload) {
			c.Fail("encode:version", "a new version message is %s, want %s", hx(b), hx(p.payload))
		}
		g := xprotocol.NewMsgGetHeaders(&n)
		if b := g.Encode(); !bytes.Equal(b, cat(ref.U32(nil, n.ProtocolVersion), []byte{1}, make([]byte, 64))) {
			c.Fail("encode:getheaders", "a new getheaders message is %x", b)
		}
	})
	r.Explore("getheaders-stop", mc.Opts{}, func(c *mc.Ctx) {
		n := c.Pick("locators", 4)
		stop := [][]byte{make([]byte, 32), rep(0xff, 32), h32(9), seq(0, 32)}[c.Pick("stop", 4)]
		b := append(ref.U32(nil, []uint32{0, 70015, 1<<32 - 1}[c.Pick("version", 3)]), byte(n))
		for i := 0; i < n; i++ {
			b = append(b, h32(i)...)
		}
		b = append(b, stop...)
		m := xprotocol.NewMsgGetHeaders(network.MainNet)
		if used := c.Pick("used", 5); used > 0 { // by a message with another stop hash, and with more or fewer locators
			prev := append(ref.U32(nil, 7), byte(used-1))
			for i := 0; i < used; i++ {
				prev = append(prev, h32(40+i)...)
			}
			if err := m.Decode(prev); err != nil {
				c.Fail("decode:getheaders", "getheaders of %d locators refused: %v", used-1, err)
			}
		}
		if err := m.Decode(clone(b)); err != nil {
			c.Fail("decode:getheaders", "getheaders of %d locators refused: %v", n, err)
			return
		}
		c.Valid(1)
		want := b
		if n == 0 {
			want = cat(b[:4], []byte{1}, make([]byte, 32), stop)
		}
		if e := m.Encode(); !bytes.Equal(e, want) {
			c.Fail("stop", "getheaders %x was read and written again as %x", b, e)
		}
	})
	r.Explore("block-hash", mc.Opts{}, func(c *mc.Ctx) {
		vals := []uint32{0, 1, 255, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1}
		h := hdr(c.Pick("hashes", 3), 5)
		h.Version = vals[c.Pick("version", len(vals))]
		h.Timestamp = vals[c.Pick("time", len(vals))]
		for _, h.Bits = range vals {
			for _, h.Nonce = range vals {
				if got := h.BlockHash(); !bytes.Equal(got, dsha(hdrBytes(h))) {
					c.Fail("block-hash", "the hash of header %x is %x", hdrBytes(h), got)
				}
				c.Step(1)
			}
		}
		if h.Size() != 80 {
			c.Fail("size:header", "a block header reports %d bytes", h.Size())
		}
		c.Valid(1)
	})
	r.Explore("inv-types", mc.Opts{}, func(c *mc.Ctx) {
		names := map[uint32]string{0: "ERROR", 1: "MSG_TX", 2: "MSG_BLOCK", 3: "MSG_FILTERED_BLOCK"}
		t := uint32(c.Pick("type", 8))
		want, ok := names[t]
		if got := xprotocol.InvType(t).String(); ok && got != want || !ok && got == "" {
			c.Fail("inv-type", "inventory type %d is called %q", t, got)
		}
	})
}
