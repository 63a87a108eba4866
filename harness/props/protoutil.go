package props

import (
	"bytes"
	"fmt"
	"reflect"

	"verif/ref"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xprotocol"
)

// pMsg is one protocol message: the library's object and, from the protocol's definition alone, its command and
// payload.
type pMsg struct {
	name    string
	cmd     string
	payload []byte
	msg     xprotocol.Message
	fresh   func() xprotocol.Message
	content bool // decoding keeps the content
}

func u16be(b []byte, v uint32) []byte { return append(b, byte(v>>8), byte(v)) }

func h32(i int) []byte { return ref.Sha256([]byte(fmt.Sprintf("hash %d", i))) }

func pVersion(m *xprotocol.MsgVersion) pMsg {
	b := ref.U32(nil, m.Version)
	b = ref.U64(b, m.Services)
	b = ref.U64(b, m.Timestamp)
	b = ref.U64(b, m.ServicesYou)
	b = append(b, m.AddressYou...)
	b = u16be(b, m.PortYou)
	b = ref.U64(b, m.ServicesMe)
	b = append(b, m.AddressMe...)
	b = u16be(b, m.PortMe)
	b = ref.U64(b, m.Nonce)
	b = ref.PutVarBytes(b, []byte(m.UserAgent))
	b = ref.U32(b, m.LastBlock)
	b = append(b, m.Relay)
	return pMsg{"version", "version", b, m, func() xprotocol.Message { return &xprotocol.MsgVersion{} }, true}
}

func pVerAck() pMsg {
	return pMsg{"verack", "verack", nil, xprotocol.NewMsgVerAck(), func() xprotocol.Message { return xprotocol.NewMsgVerAck() }, true}
}

func pPing(n uint64) pMsg {
	return pMsg{fmt.Sprintf("ping %d", n), "ping", ref.U64(nil, n), xprotocol.NewMsgPing(n), func() xprotocol.Message { return &xprotocol.MsgPing{} }, true}
}

func pPong(n uint64) pMsg {
	return pMsg{fmt.Sprintf("pong %d", n), "pong", ref.U64(nil, n), xprotocol.NewMsgPong(n), func() xprotocol.Message { return &xprotocol.MsgPong{} }, true}
}

func invs(n int, typ uint32) (iv []*xprotocol.InvVect, payload []byte) {
	payload = ref.PutVarInt(nil, uint64(n))
	for i := 0; i < n; i++ {
		h := h32(i % 97)
		iv = append(iv, xprotocol.NewInvVect(xprotocol.InvType(typ), h))
		payload = append(ref.U32(payload, typ), h...)
	}
	return
}

func pInv(n int, typ uint32) pMsg {
	iv, b := invs(n, typ)
	return pMsg{fmt.Sprintf("inv of %d", n), "inv", b, &xprotocol.MsgInv{Invs: iv}, func() xprotocol.Message { return xprotocol.NewMsgInv() }, true}
}

func pGetData(n int, typ uint32) pMsg {
	iv, b := invs(n, typ)
	return pMsg{fmt.Sprintf("getdata of %d", n), "getdata", b, &xprotocol.MsgGetData{InvList: iv}, func() xprotocol.Message { return xprotocol.NewMsgGetData() }, true}
}

func pGetHeaders(n int) pMsg {
	m := xprotocol.NewMsgGetHeaders(network.MainNet)
	b := ref.U32(nil, network.MainNet.ProtocolVersion)
	k := n
	if n == 0 {
		k = 1
	}
	b = ref.PutVarInt(b, uint64(k))
	if n == 0 {
		b = append(b, make([]byte, 32)...) // no locators are sent as a single zero hash
	}
	for i := 0; i < n; i++ {
		m.AddBlockLocatorHash(h32(i))
		b = append(b, h32(i)...)
	}
	b = append(b, make([]byte, 32)...)
	return pMsg{fmt.Sprintf("getheaders of %d", n), "getheaders", b, m, func() xprotocol.Message { return xprotocol.NewMsgGetHeaders(network.TestNet) }, n > 0}
}

func hdr(i int, x uint32) *xprotocol.BlockHeader {
	return &xprotocol.BlockHeader{Version: x, PrevBlock: h32(i), MerkleRoot: h32(i + 1), Timestamp: x + 1, Bits: x ^ 0x1d00ffff, Nonce: ^x}
}

func hdrBytes(h *xprotocol.BlockHeader) []byte {
	b := ref.U32(nil, h.Version)
	b = append(b, h.PrevBlock...)
	b = append(b, h.MerkleRoot...)
	return ref.U32(ref.U32(ref.U32(b, h.Timestamp), h.Bits), h.Nonce)
}

func pHeaders(n int, x uint32) pMsg {
	m := xprotocol.NewMsgHeaders()
	b := ref.PutVarInt(nil, uint64(n))
	for i := 0; i < n; i++ {
		h := hdr(i, x+uint32(i))
		m.Headers = append(m.Headers, h)
		b = append(append(b, hdrBytes(h)...), 0)
	}
	return pMsg{fmt.Sprintf("headers of %d", n), "headers", b, m, func() xprotocol.Message { return xprotocol.NewMsgHeaders() }, true}
}

func pTx(d []byte) pMsg {
	return pMsg{fmt.Sprintf("tx of %d bytes", len(d)), "tx", d, xprotocol.NewMsgTx(d), func() xprotocol.Message { return &xprotocol.MsgTx{} }, true}
}

func pReject(cmd string, code byte, reason string, hash []byte) pMsg {
	m := xprotocol.NewMsgReject(cmd, xprotocol.RejectCode(code), reason)
	m.Hash = hash
	b := ref.PutVarBytes(nil, []byte(cmd))
	b = append(b, code)
	b = ref.PutVarBytes(b, []byte(reason))
	b = append(b, hash...)
	return pMsg{fmt.Sprintf("reject of %q", cmd), "reject", b, m, func() xprotocol.Message { return &xprotocol.MsgReject{} }, true}
}

func pUnhandle(cmd string) pMsg {
	return pMsg{"message " + cmd, cmd, nil, xprotocol.NewMsgUnhandle(cmd), func() xprotocol.Message { return xprotocol.NewMsgUnhandle(cmd) }, true}
}

// same compares a decoded message with the one it was encoded from.
func (p *pMsg) same(got xprotocol.Message) error {
	if got == nil {
		return fmt.Errorf("no message")
	}
	if reflect.TypeOf(got) != reflect.TypeOf(p.msg) {
		return fmt.Errorf("a %T instead of a %T", got, p.msg)
	}
	if got.Command() != p.cmd {
		return fmt.Errorf("command %q instead of %q", got.Command(), p.cmd)
	}
	if b := got.Encode(); !bytes.Equal(b, p.payload) {
		return fmt.Errorf("it encodes to %s instead of %s", hx(b), hx(p.payload))
	}
	if p.content {
		if err := sameMsg(got, p.msg); err != nil {
			return err
		}
	}
	return nil
}

// sameMsg compares the exported content; nil and empty slices are the same.
func sameMsg(a, b xprotocol.Message) error {
	x, y := fmt.Sprintf("%+v", deref(a)), fmt.Sprintf("%+v", deref(b))
	if x != y {
		return fmt.Errorf("content %s instead of %s", cut(x), cut(y))
	}
	return nil
}

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func deref(m xprotocol.Message) interface{} {
	switch m := m.(type) {
	case *xprotocol.MsgInv:
		return derefInv(m.Invs)
	case *xprotocol.MsgGetData:
		return derefInv(m.InvList)
	case *xprotocol.MsgHeaders:
		var l []xprotocol.BlockHeader
		for _, h := range m.Headers {
			l = append(l, *h)
		}
		return l
	}
	return reflect.ValueOf(m).Elem().Interface()
}

func derefInv(l []*xprotocol.InvVect) (o []xprotocol.InvVect) {
	for _, i := range l {
		o = append(o, *i)
	}
	return
}

// frame is the message as the protocol sends it.
func (p *pMsg) frame(magic []byte) []byte {
	b := append([]byte{}, magic...)
	var cmd [12]byte
	copy(cmd[:], p.cmd)
	b = append(b, cmd[:]...)
	b = ref.U32(b, uint32(len(p.payload)))
	b = append(b, dsha(p.payload)[:4]...)
	return append(b, p.payload...)
}

var v4loop = []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 127, 0, 0, 1}

func sampleVersion() *xprotocol.MsgVersion {
	return &xprotocol.MsgVersion{Version: 70015, Services: 1, Timestamp: 1600000000, ServicesYou: 9, AddressYou: clone(v4loop), PortYou: 8333,
		ServicesMe: 0x409, AddressMe: seq(1, 16), PortMe: 18333, Nonce: 0x0102030405060708, UserAgent: "/tokucore:0.0.1/", LastBlock: 212672, Relay: 1}
}

// protoMsgs is a set of small messages of every kind.
func protoMsgs() []pMsg {
	return []pMsg{
		pVerAck(), pPing(0x1122334455667788), pPong(7), pVersion(sampleVersion()), pInv(0, 1), pInv(1, 1), pInv(2, 2), pGetData(1, 2),
		pGetHeaders(0), pGetHeaders(2), pHeaders(0, 0), pHeaders(1, 5), pTx(nil), pTx([]byte{0xf9, 0xbe, 0xb4, 0xd9}), pTx(seq(1, 60)),
		pReject("tx", 0x10, "bad", h32(3)), pReject("version", 0x11, "", nil), pUnhandle("sendheaders"), pUnhandle("abcdefghijkl"), pUnhandle("block"),
	}
}
